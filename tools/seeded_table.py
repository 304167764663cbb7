"""Write the table of planted bugs at the end of DESIGN.md."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
rows = ['| bug | property (its check catches it) | needs |', '|---|---|---|']
for d in sorted((V / 'seeded').iterdir(), key=lambda d: (json.loads((d / 'meta.json').read_text())['property'], d.name)):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
p = V / 'DESIGN.md'
mark = 'Seeded bugs and the checks that catch them:\n'
head = p.read_text().split(mark)[0]
p.write_text(head + mark + '\n' + '\n'.join(rows) + '\n')
