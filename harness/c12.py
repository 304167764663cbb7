"""C12: array arithmetic aligns operands by axis name."""
import arrays
import c11

FUNCS = ['neg', 'pos', 'abs', 'square', 'reciprocal', 'sqrt', 'sign']


def program(rng, length):
    sizes = {d: rng.choice([1, 2, 2, 3, 3, 4]) for d in arrays.AXES}
    odd = rng.random() < 0.1     # now and then lengths that do not agree
    units = rng.sample(arrays.UNITS, rng.choice([1, 2, 3]))
    same = rng.random() < 0.5    # several arrays over the same axes
    base = rng.sample(arrays.AXES, rng.choice([1, 2, 2, 3]))
    regs = []
    for k in range(4):
        if regs and rng.random() < 0.2:     # the same array again, perhaps over other axes
            x = dict(rng.choice(regs))
            if rng.random() < 0.3 and len(x['dims']) < len(arrays.AXES):
                x['dims'] = rng.sample(arrays.AXES, len(x['dims']))
            regs.append(x)
            continue
        if same and k < 3:
            dims = list(base)
            if rng.random() < 0.3:
                rng.shuffle(dims)
        else:
            dims = rng.sample(arrays.AXES, rng.choice([0, 1, 1, 2, 2, 3]))
        shape = [rng.choice([1, 2, 3]) if odd and rng.random() < 0.3 else sizes[d] for d in dims]
        x = arrays.array(rng, dims=dims, shape=shape, unit=rng.choice(units),
                         values=rng.choice(['any', 'any', 'squares']))
        if not shape:
            x['data'] = x['data'][:1]
        regs.append(x)
    ops = []
    for _ in range(length):
        a = rng.randrange(4)
        o = {'a': a + 1, 'dst': rng.choice([0, 0, 1, 2, 3, 4]), 'how': rng.randrange(6)}
        r = rng.random()
        if r < 0.3:
            o.update(op=rng.choice(['mul', 'div']), b=rng.randrange(4) + 1)
        elif r < 0.5:
            o.update(op=rng.choice(['add', 'sub']), b=rng.randrange(4) + 1)
        elif r < 0.55:
            o.update(op='eq', b=rng.randrange(4) + 1, dst=0)
        elif r < 0.6:
            o.update(op='scale', q=rng.choice([[2, 1], [-1, 1], [1, 2], [3, 1], [1, 4]]))
        elif r < 0.7:
            o.update(op='un', f=rng.choice(FUNCS))
        elif r < 0.76:
            o.update(op='pow', q=rng.choice([[2, 1], [-1, 1], [1, 2], [1, 1]]))
        elif r < 0.8:
            o.update(op='trans', f=rng.choice(arrays.TRANS), dst=0)
        elif r < 0.93:
            n = len(regs[a]['shape'])
            k = rng.choice([0, 1, 1, 1, 2])
            axes = rng.sample(range(n), min(k, n))
            axes = [i - n if rng.random() < 0.4 else i for i in axes]
            if rng.random() < 0.04:
                axes.append(rng.choice([n, -n - 1]))
            o.update(op='reduce', f=rng.choice(['mean', 'mean', 'mean', 'sum', 'max', 'min']), axes=axes, all=not axes,
                     keep=rng.random() < 0.2)
            # the rank of a register is known only until it is replaced
            if any(p['dst'] == a + 1 for p in ops):
                o.update(axes=[], all=True)
        else:
            n = len(regs[a]['shape'])
            one = [i for i, s in enumerate(regs[a]['shape']) if s == 1]
            axes = rng.sample(one, 1) if one and rng.random() < 0.5 else []
            if n and rng.random() < 0.1:
                axes = [rng.randrange(n)]
            axes = [i - n if rng.random() < 0.4 else i for i in axes]
            o.update(op='squeeze', axes=axes, all=not axes)
            if any(p['dst'] == a + 1 for p in ops):
                o.update(axes=[], all=True)
        if o['op'] in arrays.BINARY and o['how'] % 3 == 2:
            o['dst'] = 0
        ops.append(o)
    return {'regs': regs, 'ops': ops, 'quiet': rng.random() < 0.4, 'disk': [rng.random() < 0.25 for _ in range(4)]}


def converted(rng):
    """Conversions and selections mixed with products."""
    p = program(rng, 3)
    pre = []
    for k, x in enumerate(p['regs']):
        c = c11.convert(rng, x['unit'])
        if c and rng.random() < 0.7:
            new = [[c[1] if b == c[0] else b, n, d] for b, n, d in x['unit']]
            pre.append({'a': k + 1, 'dst': k + 1, 'op': 'convert', 'from': c[0], 'to': c[1], 'text': arrays.text(new), 'how': 0})
    for o in p['ops']:
        if o['op'] in ('reduce', 'squeeze') and not o['all']:
            o.update(axes=[], all=True)
    p['ops'] = pre + p['ops']
    return p


def run(check):
    rng = check.rng
    check.tlc('ArrayModel', 'ArrayModel.cfg' if not check.thorough else 'ArrayModelThorough.cfg', heap='6g', timeout=3000)
    progs = [program(rng, 7) for _ in range(check.pick(1200, 12000))]
    progs += [converted(rng) for _ in range(check.pick(400, 4000))]
    judged = check.evaluate('ArrayCases', progs, heap='6g', timeout=3000)
    for v in judged:
        for r in v['r']:
            check.count('outcome ' + r['tag'])
    arrays.run(check, progs, judged, 'variable', 'arithmetic by axis name')
    check.sample(progs[0]['ops'][:3])
    check.assumptions += [
        'adding arrays over the same axes in another order may be refused, or aligned',
        'sums, extremes and other plain reductions may return bare numbers without unit',
        'adding arrays of which one has a single point on an axis is not judged',
    ]
