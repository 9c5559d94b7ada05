"""Lists of any length for the contracts that use the loop rule."""
from common import *


def terms():
    from pyvc import sym, symlist, loops

    return sym, symlist, loops


def field(name):
    from pyvc.sym import z3

    return z3.Function(name, z3.IntSort(), z3.RealSort())


def records(name, cls, fields, key="epoch_timestamp", strict=True, init=None, n=None):
    """a list of any length of `cls` records whose fields are arbitrary reals,
    in time order; init(record, index) adds fields that are not numbers"""
    from pyvc.symlist import SymList
    from pyvc.sym import SymReal

    f = {a: field("%s_%s" % (name, a)) for a in list(fields) + ([key] if key else [])}

    def make(e):
        o = cls()
        for a in f:
            setattr(o, a, SymReal(f[a](e)))
        if init:
            init(o, e)
        return o

    return SymList(name, make, key=f[key] if key else None, strict=strict, n=n)


def integer(x):
    from pyvc.sym import SymInt, iv

    return SymInt(iv(x))
