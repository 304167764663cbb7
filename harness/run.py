import importlib
import pathlib
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import core
import warnings

warnings.simplefilter('ignore')
if __name__ == '__main__':
    prop, *rest = sys.argv[1:]
    module = importlib.import_module(f'{prop.lower()}')
    sys.exit(core.main(prop, module.run, rest))
