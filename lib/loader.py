"""Imports the code under test from /repo/src, as it is in the working tree."""
import importlib
import os
import re
import sys

SRC = os.environ.get("REPARSEC_SRC", "/repo/src")


def load(symbolic):
    sys.dont_write_bytecode = True
    # never read a .pyc left behind by something else
    sys.pycache_prefix = "/nonexistent-pycache"
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import reparsec
    import pkgutil
    assert os.path.realpath(reparsec.__file__).startswith(os.path.realpath(SRC) + "/"), reparsec.__file__
    for m in pkgutil.walk_packages(reparsec.__path__, "reparsec."):
        importlib.import_module(m.name)
    if symbolic:
        inject()
    return reparsec


def modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == "reparsec" or n.startswith("reparsec.")) and m is not None]


class _StrMeta(type):
    def __instancecheck__(cls, x):
        from .symex import SymStr, SymEnum
        return isinstance(x, (str, SymStr, SymEnum))

    def __getattribute__(cls, name):
        from .symex import SymStr
        m = getattr(str, name)
        if name.startswith("_") or not callable(m):
            return m

        def method(x, *a):
            if isinstance(x, SymStr):
                return getattr(x, name)(*a)
            return m(x, *a)
        return method

    def __call__(cls, *a):
        return str(*a)


class StrShim(metaclass=_StrMeta):
    pass


def _isinstance(x, cls):
    """A symbolic string is a str, a symbolic integer an int, a symbolic
    stream a list, as far as the code under test can tell."""
    from .symex import SymStr, SymInt, SymBool, SymSeq, SymEnum
    t = type(x)
    if t in (SymStr, SymInt, SymBool, SymSeq, SymEnum):
        if isinstance(cls, tuple):
            return any(_isinstance(x, c) for c in cls)
        if cls is StrShim:
            return t is SymStr or t is SymEnum
        return isinstance({SymStr: "", SymEnum: "", SymInt: 0, SymBool: True, SymSeq: []}[t], cls)
    if cls is StrShim:
        return isinstance(x, str)
    return isinstance(x, cls)


def inject():
    """The only adaptations: `len` of a symbolic sequence may be symbolic,
    `isinstance` sees a symbolic value as the value it stands for,
    patterns compiled by the package can match symbolic strings, and the
    unbound methods of `str` (`str.isalpha`) accept symbolic characters."""
    from .symex import symlen
    from .symre import symre
    seq = sys.modules["reparsec.sequence"]
    seq.__dict__["str"] = StrShim
    importlib.reload(seq)
    for m in modules():
        d = m.__dict__
        if "len" not in d:
            d["len"] = symlen
        if "isinstance" not in d:
            d["isinstance"] = _isinstance
        for k, v in list(d.items()):
            if v is re:
                d[k] = symre
            elif v is re.compile:
                d[k] = symre.compile
