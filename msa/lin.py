"""Linear inequalities over integers: entailment by Gaussian and Fourier-Motzkin
elimination with integer tightening.  An expression is a dict atom -> int coefficient
with the constant under key None."""
from math import gcd


def L(c=0, **kw):
    return {None: c} if c else {}


def const(c):
    return {None: c} if c else {}


def atom(a, k=1):
    return {a: k}


def add(x, y, k=1):
    r = dict(x)
    for a, c in y.items():
        n = r.get(a, 0) + k * c
        if n:
            r[a] = n
        else:
            r.pop(a, None)
    return r


def scale(x, k):
    return {a: c * k for a, c in x.items()} if k else {}


def isconst(x):
    return all(a is None for a in x)


def cval(x):
    return x.get(None, 0)


def atoms(x):
    return [a for a in x if a is not None]


def norm(x):
    """normalise  x >= 0 ; returns a hashable constraint or True/False"""
    g = 0
    for a, c in x.items():
        if a is not None:
            g = gcd(g, abs(c))
    k = x.get(None, 0)
    if g == 0:
        return k >= 0
    if g > 1:
        k = k // g          # floor: integer tightening
        return (frozenset((a, c // g) for a, c in x.items() if a is not None), k)
    return (frozenset((a, c) for a, c in x.items() if a is not None), k)


LIMIT = 1500
_lib = None
_atoms = {}
_facts = {}


def lib():
    global _lib
    if _lib is None:
        import ctypes
        from . import build
        _lib = ctypes.CDLL(build.native("linsolve.cpp"))
        _lib.lin_fact.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_int64),
                                  ctypes.POINTER(ctypes.c_uint64), ctypes.c_int64, ctypes.c_uint64]
        _lib.lin_entails.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
    return _lib


def fact(n):
    """number of a normalised constraint (interned in the native solver)"""
    k = _facts.get(n)
    if k is None:
        import ctypes
        m = len(n[0])
        A, Hi, Lo = (ctypes.c_int * m)(), (ctypes.c_int64 * m)(), (ctypes.c_uint64 * m)()
        for j, (a, c) in enumerate(n[0]):
            A[j] = _atoms.setdefault(a, len(_atoms))
            Hi[j] = c >> 64
            Lo[j] = c & (2 ** 64 - 1)
        k = lib().lin_fact(m, A, Hi, Lo, n[1] >> 64, n[1] & (2 ** 64 - 1))
        _facts[n] = k
    return k


def holds(ids, goal, limit=LIMIT):
    """the constraints numbered ids imply goal >= 0"""
    n = norm(goal)
    if n is True:
        return True
    if n is False:
        return False
    neg = norm(add(scale(goal, -1), const(-1)))
    from array import array
    a = array("i", ids)
    return bool(lib().lin_entails(len(a), a.buffer_info()[0], fact(neg), limit))
