"""Loading of contract modules (/verif/contracts/*.py)."""
import importlib.util, os, sys
from .cast import TU, ExtractError
from .exec import World, Contract

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(name):
    p = os.path.join(HERE, 'contracts', name + '.py')
    spec = importlib.util.spec_from_file_location('contracts_' + name, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def build_world(m):
    tu = TU(os.path.join(HERE, 'tu', m.TU), getattr(m, 'FLAGS', ()))
    w = World(tu)

    def C(target, params='', **kw):
        ct = Contract(target, params, **kw)
        w.add_contract(ct)
        return ct
    m.build(w, C)
    w.spec.check_acyclic()
    return w
