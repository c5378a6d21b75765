"""Contracts of the numpy functions the source uses, over symbolic values.

Every function here is a trusted specification of the numpy function of the same name
(mathematical reals for floats).  Anything not listed raises Unsupported.
"""
from fractions import Fraction
import math
from builtins import all as _all
from . import terms as tm
from .terms import T
from .sym import SV, SB, Unsupported, tt, bt, wrap, cur, is_scalar, tdiv, merge_call, _BIN, _CMP
from .arr import (SArr, N0, N1, dimt, cdim, dim_eq, ent, elementwise, bcast_to, bshape, kind, FLOAT, INT, BOOL, DType, symarr)

USED = set()
CLOSE = tm.num(Fraction(1, 10**8))


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SArr)


class ndarray(metaclass=_NdMeta):
    pass


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SArr):
        return x if dtype is None or kind(dtype) == {"R": "float", "I": "int", "B": "bool"}[x.sort] else x.astype(dtype)
    if is_scalar(x):
        if isinstance(x, (bool, SB)):
            t = bt(x)
            return SArr.new((), lambda i: t, "B")
        t = tt(x)
        return SArr.new((), lambda i: t, t.sort)
    if hasattr(x, "_seq"):
        s = x._seq()
        return SArr.new((s.n,), lambda i: tt(s.get(i[0])), "I")
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        els = [asarray(e) for e in x]
        if not els:
            return SArr.new((0,), lambda i: N0, "R")
        r = _stack(els, 0)
        return r.astype(dtype) if dtype is not None else r
    raise Unsupported(f"asarray of {type(x).__name__}")


def array(x, dtype=None, *a, **k):
    r = asarray(x, dtype)
    return r.copy() if r is x else r


asanyarray = asarray


def copy(x, *a, **k):
    return asarray(x).copy() if not is_scalar(x) else x


def _sorts(els):
    s = {e.sort for e in els}
    if s == {"B"}:
        return "B"
    if s == {"I"}:
        return "I"
    return "R"


def pick(i, vals):
    """vals[i] for a term index"""
    if i.op == "num":
        return vals[int(i.args[0])]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = tm.ite(tm.eq(i, tm.num(j)), vals[j], r)
    return r


def _stack(els, axis):
    sh = bshape([e._shape for e in els]) if els[0].ndim else ()
    for e in els:
        if e.ndim != len(sh) or not _all(dim_eq(a, b) for a, b in zip(e._shape, sh)):
            raise Unsupported("stack shapes")
    s = _sorts(els)
    gs = [bcast_to(e, sh, s) for e in els]
    if axis < 0:
        axis += len(sh) + 1
    shape = sh[:axis] + (tm.num(len(els)),) + sh[axis:]

    def get(i):
        r = i[:axis] + i[axis + 1:]
        return pick(i[axis], [g(r) for g in gs])
    return SArr.new(shape, get, s)


def stack(xs, axis=0):
    return _stack([asarray(x) for x in xs], axis)


def vstack(xs):
    els = [asarray(x) for x in xs]
    els = [e[None, :] if e.ndim == 1 else e for e in els]
    return concatenate(els, axis=0)


def hstack(xs):
    els = [asarray(x) for x in xs]
    els = [e.reshape(1) if e.ndim == 0 else e for e in els]
    return concatenate(els, axis=0 if els[0].ndim == 1 else 1)


def column_stack(xs):
    els = [asarray(x) for x in xs]
    return concatenate([e[:, None] if e.ndim == 1 else e for e in els], axis=1)


def concatenate(xs, axis=0):
    els = [asarray(x) for x in xs]
    nd = els[0].ndim
    if axis < 0:
        axis += nd
    for e in els[1:]:
        for j in range(nd):
            if j != axis and not dim_eq(e._shape[j], els[0]._shape[j]):
                raise Unsupported("concatenate shapes")
    s = _sorts(els)
    fs = [bcast_to(e, e._shape, s) for e in els]
    offs = [N0]
    for e in els:
        offs.append(_simp(tm.add(offs[-1], e._shape[axis])))
    shape = list(els[0]._shape)
    shape[axis] = offs[-1]

    def get(i):
        k = i[axis]
        if k.op == "num" and _all(o.op == "num" for o in offs):
            for j, f in enumerate(fs):
                if k.args[0] < offs[j + 1].args[0]:
                    return f(i[:axis] + (tm.sub(k, offs[j]),) + i[axis + 1:])
        r = None
        for j in range(len(fs) - 1, -1, -1):
            v = fs[j](i[:axis] + (tm.sub(k, offs[j]) if j else k,) + i[axis + 1:])
            r = v if r is None else tm.ite(tm.lt(k, offs[j + 1]), v, r)
        return r
    return SArr.new(shape, get, s)


def _simp(t):
    return t


def append(a, v, axis=None):
    if axis is None:
        raise Unsupported("append without axis")
    return concatenate([a, v], axis)


# -- creation ---------------------------------------------------------------------------------------
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(dimt(x) for x in s)
    if isinstance(s, SArr):
        raise Unsupported("array shape")
    return (dimt(s),)


def full(shape, v, dtype=None):
    if isinstance(v, SArr):
        sh = _shape(shape)
        return SArr.new(sh, bcast_to(v, sh, v.sort), v.sort)
    if isinstance(v, (bool, SB)) and (dtype is None or kind(dtype) == "bool"):
        t = bt(v)
        return SArr.new(_shape(shape), lambda i: t, "B")
    t = tt(v)
    k = kind(dtype) if dtype is not None else None
    if k == "bool":
        t = bt(v)
        return SArr.new(_shape(shape), lambda i: t, "B")
    isint = k == "int" or (k is None and t.sort == "I" and not isinstance(v, float))
    return SArr.new(_shape(shape), lambda i: t, "I" if isint else "R")


def zeros(shape, dtype=None, **k):
    return full(shape, 0, dtype or float)


def ones(shape, dtype=None, **k):
    return full(shape, 1, dtype or float)


def empty(shape, dtype=None, **k):
    p = cur()
    nm = p.freshname("uninit")
    sh = _shape(shape)
    return SArr.new(sh, lambda i: tm.app(nm, i, "R"), "R")


def _like(x, v, dtype=None):
    if is_scalar(x):
        return v
    x = asarray(x)
    return full(x._shape, v, dtype or {"R": float, "I": int, "B": bool}[x.sort])


def zeros_like(x, dtype=None, **k):
    return _like(x, 0, dtype)


def ones_like(x, dtype=None, **k):
    return _like(x, 1, dtype)


def empty_like(x, dtype=None, **k):
    return empty(asarray(x)._shape)


def full_like(x, v, dtype=None, **k):
    return full(asarray(x)._shape, v, dtype)


def arange(*a, **k):
    a = [tt(x) for x in a]
    lo, hi, st = (N0, a[0], N1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else N1)
    if st is not N1:
        if not _all(x.op == "num" for x in (lo, hi, st)):
            if st.op != "num" or st.args[0] != -1:
                raise Unsupported("arange step")
            q = cur().ctx
            n = q.to_term(q.norm.nf(tm.sub(lo, hi)), "I")
            if not ent(tm.le(N0, n)):
                n = tm.ite(tm.le(N0, n), n, N0)
            return SArr.new((n,), lambda i: tm.sub(lo, i[0]), "I")
        return asarray(list(range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))))
    n = hi if lo is N0 else tm.sub(hi, lo)
    if n.op == "num" and n.args[0] < 0:
        n = N0
    return SArr.new((n,), lambda i: tm.add(lo, i[0]) if lo is not N0 else i[0], "I")


def eye(n, *a, **k):
    return SArr.new((dimt(n), dimt(n)), lambda i: tm.ite(tm.eq(i[0], i[1]), N1, N0), "R")


identity = eye


def linspace(a, b, num=50, **k):
    a, b, n = tt(a), tt(b), tt(num)
    return SArr.new((n,), lambda i: tm.add(a, tm.mul(tm.sub(b, a), tm.div(i[0], tm.sub(n, N1)))), "R")


def geomspace(a, b, num=50, **k):
    """a * (b/a)^(i/(n-1)); end points exact"""
    a, b, n = tt(a), tt(b), tt(num)
    return SArr.new((n,), lambda i: tm.mul(a, tm.power(tm.div(b, a), tm.div(i[0], tm.sub(n, N1)))), "R")


def tile(A, reps):
    x = asarray(A)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = tuple(dimt(r) for r in reps)
    f = x.snapshot()
    nd = x.ndim if x.ndim >= len(reps) else len(reps)
    sh = (N1,) * (nd - x.ndim) + x._shape
    reps = (N1,) * (nd - len(reps)) + reps
    shape = []
    for d, r in zip(sh, reps):
        if cdim(r) == 1:
            shape.append(d)
        elif cdim(d) == 1:
            shape.append(r)
        elif cdim(d) is not None and cdim(r) is not None:
            shape.append(tm.num(cdim(d) * cdim(r)))
        else:
            raise Unsupported(f"tile {sh} {reps}")

    def get(i):
        out = []
        for k, d, r in zip(i, sh, reps):
            if cdim(r) == 1:
                out.append(k)
            elif cdim(d) == 1:
                out.append(N0)
            elif k.op == "num":
                out.append(tm.num(int(k.args[0]) % cdim(d)))
            else:
                raise Unsupported("tile index")
        return f(tuple(out[nd - x.ndim:]))
    return SArr.new(shape, get, x.sort)


def repeat(a, repeats, axis=None):
    x, n = a, repeats
    if is_scalar(x):
        return full(dimt(n), x)
    x = asarray(x)
    if axis is None and x.ndim == 0:
        return full(dimt(n), wrap(x.at(())))
    if axis is None and x.ndim == 1 and cdim(x._shape[0]) == 1:
        return full(dimt(n), wrap(x.at((N0,))))
    if axis is not None and cdim(x._shape[axis]) == 1:
        sh = list(x._shape)
        sh[axis] = dimt(n)
        f = x.snapshot()
        ax = axis % x.ndim
        return SArr.new(sh, lambda i: f(tuple(N0 if j == ax else q for j, q in enumerate(i))), x.sort)
    raise Unsupported("repeat")


# -- shape ------------------------------------------------------------------------------------------
def expand_dims(x, axis):
    x = asarray(x)
    n = x.ndim + 1
    if isinstance(axis, (tuple, list)):
        raise Unsupported("expand_dims tuple")
    ax = axis % n
    return x[tuple([slice(None)] * ax + [None] + [slice(None)] * (x.ndim - ax))]


def squeeze(x, axis=None):
    if is_scalar(x):
        return x
    x = asarray(x)
    axs = [j for j, d in enumerate(x._shape) if cdim(d) == 1] if axis is None else [axis % x.ndim if isinstance(axis, int) else None]
    if axis is not None and cdim(x._shape[axs[0]]) != 1:
        raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    r = x[tuple(0 if j in axs else slice(None) for j in range(x.ndim))]
    return r if isinstance(r, SArr) else asarray(r)


def ravel(x, *a, **k):
    x = asarray(x)
    if x.ndim == 1:
        return x
    return flatten(x)


def flatten(x, *a, **k):
    x = asarray(x)
    big = [j for j, d in enumerate(x._shape) if cdim(d) != 1]
    f = x.snapshot()
    if len(big) == 0:
        return SArr.new((1,), lambda i: f((N0,) * x.ndim), x.sort)
    if len(big) == 1:
        b = big[0]
        return SArr.new((x._shape[b],), lambda i: f(tuple(i[0] if j == b else N0 for j in range(x.ndim))), x.sort)
    if _all(cdim(d) is not None for d in x._shape):
        import itertools
        ix = list(itertools.product(*[range(cdim(d)) for d in x._shape]))
        return SArr.new((len(ix),), lambda i: pick(i[0], [f(tuple(tm.num(q) for q in t)) for t in ix]), x.sort)
    raise Unsupported("flatten")


def reshape(x, *shape, **k):
    x = asarray(x)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    big = [d for d in x._shape if cdim(d) != 1]
    tgt = [dimt(s) for s in shape]
    if len(big) <= 1:
        n = big[0] if big else N1
        shp = [n if (cdim(t) == -1) else t for t in tgt]
        nb = [d for d in shp if cdim(d) != 1]
        if len(nb) <= 1 and (not nb or dim_eq(nb[0], n)):
            flat = flatten(x).snapshot()
            pos = [j for j, d in enumerate(shp) if cdim(d) != 1]
            return SArr.new(shp, lambda i: flat((i[pos[0]] if pos else N0,)), x.sort)
    if len(tgt) == x.ndim and _all(cdim(t) == -1 or dim_eq(t, d) for t, d in zip(tgt, x._shape)):
        return x
    raise Unsupported("reshape")


def atleast_1d(x):
    x = asarray(x)
    return x if x.ndim else reshape(x, 1)


def atleast_2d(x):
    x = asarray(x)
    return x if x.ndim >= 2 else expand_dims(atleast_1d(x), 0)


def transpose(x, *a):
    return asarray(x).transpose(*a)


def broadcast_to(x, shape):
    x = asarray(x)
    sh = _shape(shape)
    return SArr.new(sh, bcast_to(x, sh, x.sort), x.sort)


def diag(x, *a):
    x = asarray(x)
    f = x.snapshot()
    if x.ndim == 2:
        return SArr.new((x._shape[0],), lambda i: f((i[0], i[0])), x.sort)
    return SArr.new((x._shape[0], x._shape[0]), lambda i: tm.ite(tm.eq(i[0], i[1]), f((i[0],)), N0), x.sort)


diagonal = diag


def trace(x):
    x = asarray(x)
    return wrap(tsum(x._shape[0], lambda k: x.at((k, k))))


def ndim(x):
    return 0 if is_scalar(x) else asarray(x).ndim


def shape(x):
    return () if is_scalar(x) else asarray(x).shape


def size(x):
    return 1 if is_scalar(x) else asarray(x).size


# -- reductions ------------------------------------------------------------------------------------
def tsum(n, f):
    c = cdim(n)
    if c is not None and c <= 16:
        return tm.add(*[f(tm.num(i)) for i in range(c)]) if c else N0
    v = tm.fresh_bound()
    return tm.sumt(v, n, f(v))


def tall(n, f):
    c = cdim(n)
    if c is not None and c <= 16:
        return tm.band(*[f(tm.num(i)) for i in range(c)])
    v = tm.fresh_bound()
    return tm.forall(v, n, f(v))


def reduce_axis(x, axis, red, sort, keepdims=False):
    f = x.snapshot()
    if axis is None:
        axes = list(range(x.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [a % x.ndim for a in axis]
    else:
        axes = [int(axis) % x.ndim]
    rest = [j for j in range(x.ndim) if j not in axes]

    def build(i):
        def rec(ks, env):
            if not ks:
                return f(tuple(env[j] for j in range(x.ndim)))
            return red(x._shape[ks[0]], lambda k: rec(ks[1:], {**env, ks[0]: k}))
        return rec(axes, {j: q for j, q in zip(rest, i)})
    if not rest and not keepdims:
        return wrap(build(()))
    if keepdims:
        shp = [N1 if j in axes else d for j, d in enumerate(x._shape)]
        return SArr.new(shp, lambda i: build(tuple(i[j] for j in rest)), sort)
    return SArr.new([x._shape[j] for j in rest], build, sort)


def sum(x, axis=None, keepdims=False, **k):
    if is_scalar(x):
        return x
    x = asarray(x)
    if x.sort == "B":
        x = x.astype(int)
    return reduce_axis(x, axis, tsum, x.sort, keepdims)


nansum = sum


def _count(x, axis):
    if axis is None:
        return tm.mul(*x._shape)
    return x._shape[axis]


def mean(x, axis=None, keepdims=False, **k):
    if is_scalar(x):
        return x
    x = asarray(x)
    n = wrap(_count(x, axis))
    return sum(x, axis, keepdims) * wrap(tm.power(tt(n), tm.num(-1))) if not (isinstance(n, int) and n == 1) else sum(x, axis, keepdims)


def average(x, axis=None, weights=None, **k):
    x = asarray(x)
    if weights is None:
        return mean(x, axis)
    w = asarray(weights)
    if w.ndim == x.ndim:
        return sum(x * w, axis) / sum(w, axis)
    if w.ndim != 1 or axis is None:
        raise Unsupported("average")
    ax = axis % x.ndim
    if not dim_eq(w._shape[0], x._shape[ax]):
        raise TypeError("weights length")
    wv = w[tuple(slice(None) if j == ax else None for j in range(x.ndim))]
    return sum(x * wv, ax) / sum(w)


def var(x, axis=None, ddof=0, keepdims=False, **k):
    x = asarray(x)
    m = mean(x, axis, keepdims=True) if x.ndim > 1 or axis is not None else mean(x)
    d = (x - m)
    n = wrap(tm.sub(_count(x, axis), tt(ddof)))
    return sum(d * d, axis, keepdims) / n


def std(x, axis=None, ddof=0, keepdims=False, **k):
    return sqrt(var(x, axis, ddof, keepdims))


def cov(*a, **k):
    raise Unsupported("cov")


def any(x, axis=None, **k):
    if is_scalar(x):
        return wrap(bt(x))
    x = asarray(x)
    if x.sort != "B":
        x = x != 0
    if axis is None:
        return wrap(tm.bnot(bt(reduce_axis(~x, None, tall, "B"))))
    return ~reduce_axis(~x, axis, tall, "B")


def all(x, axis=None, **k):
    if is_scalar(x):
        return wrap(bt(x))
    if not isinstance(x, (SArr, list, tuple)) and hasattr(x, "__next__"):
        x = list(x)
    x = asarray(x)
    if x.sort != "B":
        x = x != 0
    return reduce_axis(x, axis, tall, "B")


def count_nonzero(x, axis=None, **k):
    if is_scalar(x):
        return wrap(tm.ite(bt(x), N1, N0))
    x = asarray(x)
    b = x if x.sort == "B" else x != 0
    return sum(b, axis)


def _extreme(x, axis, mx):
    """maximum: an upper bound that is attained (Skolem index)"""
    if is_scalar(x):
        return x
    x = asarray(x)
    if x.sort == "B":
        x = x.astype(int)
    pick2 = (lambda a, b: tm.ite(tm.le(b, a), a, b)) if mx else (lambda a, b: tm.ite(tm.le(a, b), a, b))
    if axis is None and x.ndim > 1:
        big = [j for j, d in enumerate(x._shape) if cdim(d) != 1]
        if len(big) <= 1:
            x = flatten(x)
    f = x.snapshot()
    if axis is None and x.ndim == 1:
        n = x._shape[0]
        c = cdim(n)
        if c is not None and c <= 12:
            if c == 0:
                raise ValueError("zero-size array to reduction operation")
            r = f((N0,))
            for j in range(1, c):
                r = pick2(r, f((tm.num(j),)))
            return wrap(r)
        p = cur()
        v = tm.fresh_bound()
        key = ("ext", mx, p.ctx.norm.nf(tm.sumt(v, n, tm.mul(f((v,)), tm.app("!tag", (v,))))))
        m = p.ghost.get(key)
        if m is None:
            m = p.fresh("max" if mx else "min", x.sort if x.sort == "I" else "R")
            k = p.fresh("argext", "I")
            p.assume(tm.band(tm.le(N0, k), tm.lt(k, n)))
            p.assume(tm.eq(m, f((k,))))
            v = tm.fresh_bound()
            p.assume(tm.forall(v, n, tm.le(f((v,)), m) if mx else tm.le(m, f((v,)))))
            p.ghost[key] = m
            p.ghost.setdefault("extremes", []).append((m, k, n, f, mx))
        return wrap(m)
    if axis is not None:
        ax = axis % x.ndim
        c = cdim(x._shape[ax])
        if c is not None and c <= 12:
            sh = [d for j, d in enumerate(x._shape) if j != ax]

            def get(i):
                at = lambda q: f(i[:ax] + (tm.num(q),) + i[ax:])
                r = at(0)
                for j in range(1, c):
                    r = pick2(r, at(j))
                return r
            return SArr.new(sh, get, x.sort)
    raise Unsupported("max/min over this shape")


def max(x, axis=None, **k):
    return _extreme(x, axis, True)


def min(x, axis=None, **k):
    return _extreme(x, axis, False)


amax, amin, nanmax, nanmin = max, min, max, min


def argmin(x, axis=None, **k):
    """first index of the smallest entry"""
    x = asarray(x)
    if axis not in (None, 0, -1) or x.ndim != 1:
        raise Unsupported("argmin shape")
    f = x.snapshot()
    n = x._shape[0]
    p = cur()
    v = tm.fresh_bound()
    key = ("argmin", p.ctx.norm.nf(tm.sumt(v, n, tm.mul(f((v,)), tm.app("!tag", (v,))))))
    k = p.ghost.get(key)
    if k is None:
        k = p.fresh("argmin", "I")
        p.assume(tm.band(tm.le(N0, k), tm.lt(k, n)))
        v = tm.fresh_bound()
        p.assume(tm.forall(v, n, tm.le(f((k,)), f((v,)))))
        v = tm.fresh_bound()
        p.assume(tm.forall(v, k, tm.lt(f((k,)), f((v,)))))
        p.ghost[key] = k
        p.ghost.setdefault("argmins", []).append((k, n, f))
    return SV(k)


def argmax(x, axis=None, **k):
    return argmin(-asarray(x), axis)


def cumsum(x, axis=None, **k):
    x = asarray(x)
    if x.ndim != 1:
        raise Unsupported("cumsum")
    f = x.snapshot()
    return SArr.new(x._shape, lambda i: tsum(tm.add(i[0], N1), lambda k: f((k,))), x.sort)


def prod(x, axis=None, **k):
    x = asarray(x)
    return reduce_axis(x, axis, lambda n, f: tm.mul(*[f(tm.num(i)) for i in range(_need(n))]), x.sort)


def _need(n):
    c = cdim(n)
    if c is None:
        raise Unsupported("product over a symbolic dimension")
    return c


# -- products --------------------------------------------------------------------------------------
def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul with scalar")
    if not dim_eq(a._shape[-1], b._shape[0 if b.ndim == 1 else -2]):
        raise Unsupported(f"matmul shapes {a._shape} {b._shape}")
    fa, fb = a.snapshot(), b.snapshot()
    if a.sort == "B" or b.sort == "B":
        raise Unsupported("matmul bool")
    n = a._shape[-1]
    if a.ndim == 1 and b.ndim == 1:
        return wrap(tsum(n, lambda k: tm.mul(fa((k,)), fb((k,)))))
    if a.ndim == 2 and b.ndim == 1:
        return SArr.new((a._shape[0],), lambda i: tsum(n, lambda k: tm.mul(fa((i[0], k)), fb((k,)))), "R")
    if a.ndim == 1 and b.ndim == 2:
        return SArr.new((b._shape[1],), lambda i: tsum(n, lambda k: tm.mul(fa((k,)), fb((k, i[0])))), "R")
    if a.ndim == 2 and b.ndim == 2:
        return SArr.new((a._shape[0], b._shape[1]), lambda i: tsum(n, lambda k: tm.mul(fa((i[0], k)), fb((k, i[1])))), "R")
    raise Unsupported("matmul ndim")


def dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return a * b
    return matmul(a, b)


def inner(a, b):
    return matmul(a, asarray(b).T)


def outer(a, b):
    a, b = flatten(asarray(a)), flatten(asarray(b))
    fa, fb = a.snapshot(), b.snapshot()
    return SArr.new((a._shape[0], b._shape[0]), lambda i: tm.mul(fa((i[0],)), fb((i[1],))), "R")


def einsum(*a, **k):
    raise Unsupported("einsum")


# -- elementwise -------------------------------------------------------------------------------------
def _ew(name):
    def f(x, *a, **k):
        if k:
            raise Unsupported(f"{name} keyword")
        return elementwise(lambda t: tm.fn(name, t), [x], sort="R")
    f.__name__ = name
    return f


exp, log, cosh, arcsinh, floor = [_ew(n) for n in ("exp", "log", "cosh", "arcsinh", "floor")]


def log1p(x):
    return elementwise(lambda t: tm.fn("log", tm.add(N1, t)), [x], sort="R")


def expm1(x):
    return elementwise(lambda t: tm.sub(tm.fn("exp", t), N1), [x], sort="R")


def sinh(x):
    return elementwise(lambda t: tm.mul(tm.num(Fraction(1, 2)), tm.sub(tm.fn("exp", t), tm.fn("exp", tm.neg(t)))), [x], sort="R")


def sqrt(x, *a):
    return elementwise(lambda t: tm.power(t, tm.num(Fraction(1, 2))), [x], sort="R")


def square(x):
    return elementwise(lambda t: tm.mul(t, t), [x])


def power(a, b):
    return elementwise(tm.power, [a, b])


float_power = power


def abs(x):
    return elementwise(tm.absT, [x])


absolute = fabs = abs


def sign(x):
    return elementwise(lambda t: tm.ite(tm.lt(N0, t), N1, tm.ite(tm.lt(t, N0), tm.num(-1), N0)), [x])


def maximum(a, b):
    return elementwise(lambda x, y: tm.ite(tm.le(y, x), x, y), [a, b])


def minimum(a, b):
    return elementwise(lambda x, y: tm.ite(tm.le(x, y), x, y), [a, b])


fmax, fmin = maximum, minimum


def clip(x, a_min=None, a_max=None, **k):
    r = x
    if a_min is not None and not (is_scalar(a_min) and a_min == float("-inf") if isinstance(a_min, float) else False):
        r = maximum(r, a_min)
    if a_max is not None and not (isinstance(a_max, float) and a_max == float("inf")):
        r = minimum(r, a_max)
    return r


def add(a, b):
    return elementwise(tm.add, [a, b])


def subtract(a, b):
    return elementwise(tm.sub, [a, b])


def multiply(a, b):
    return elementwise(tm.mul, [a, b])


def divide(a, b, **k):
    if k:
        raise Unsupported("divide keyword")
    return elementwise(tdiv, [a, b])


true_divide = divide


def negative(a):
    return -a


def reciprocal(a):
    return 1 / a


def logical_and(a, b):
    return elementwise(lambda x, y: tm.band(x, y), [a, b], sort="B", bool_args=True)


def logical_or(a, b):
    return elementwise(lambda x, y: tm.bor(x, y), [a, b], sort="B", bool_args=True)


def logical_not(a):
    return elementwise(lambda x: tm.bnot(x), [a], sort="B", bool_args=True)


def equal(a, b):
    return elementwise(tm.eq, [a, b], sort="B")


def not_equal(a, b):
    return elementwise(lambda x, y: tm.bnot(tm.eq(x, y)), [a, b], sort="B")


def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **k):
    r, at = tt(rtol), tt(atol)
    return elementwise(lambda x, y: tm.le(tm.absT(tm.sub(x, y)), tm.add(at, tm.mul(r, tm.absT(y)))), [a, b], sort="B")


def allclose(a, b, **k):
    return all(isclose(a, b, **k))


def isnan(x):
    return elementwise(lambda t: tm.TRUE if t is tm.NAN else tm.FALSE, [x], sort="B")


def isfinite(x):
    return elementwise(lambda t: tm.btrue(not (t is tm.INF or t is tm.NAN or t is tm.neg(tm.INF))), [x], sort="B")


def isinf(x):
    return elementwise(lambda t: tm.btrue(t is tm.INF or t is tm.neg(tm.INF)), [x], sort="B")


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    return all(a == b)


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    if is_scalar(c) and is_scalar(a) and is_scalar(b):
        return wrap(tm.ite(bt(c), tt(a), tt(b)))
    cc = asarray(c)
    if cc.sort != "B":
        cc = cc != 0
    a, b = asarray(a), asarray(b)
    sh = bshape([x._shape for x in (cc, a, b)])
    s = _sorts([a, b])
    g, fa, fb = bcast_to(cc, sh, "B"), bcast_to(a, sh, s), bcast_to(b, sh, s)
    return SArr.new(sh, lambda i: tm.ite(g(i), fa(i), fb(i)), s)


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def nextafter(a, b):
    """the open end point itself (recorded assumption: one ulp is treated as zero)"""
    return wrap(tt(a))


def nan_to_num(x, *a, **k):
    raise Unsupported("nan_to_num")


def delete(arr, obj, axis=None):
    x = asarray(arr)
    if x.ndim != 1 or cdim(x._shape[0]) is None:
        raise Unsupported("delete")
    n = cdim(x._shape[0])
    ks = [int(obj)] if is_scalar(obj) else [int(k) for k in asarray(obj)]
    ks = {k % n for k in ks}
    return asarray([x[i] for i in range(n) if i not in ks])


def setdiff1d(a, b, **k):
    la, lb = [int(x) for x in asarray(a)], [int(x) for x in asarray(b)]
    return asarray(sorted(set(la) - set(lb)))


def ix_(*a):
    raise Unsupported("ix_")


def isscalar(x):
    return is_scalar(x)


def issubdtype(a, b):
    return kind(a) == kind(b)


def result_type(*a):
    return FLOAT


def errstate(*a, **k):
    import contextlib
    return contextlib.nullcontext()


def ascontiguousarray(x, *a, **k):
    return asarray(x)


def unique(x, *a, **k):
    raise Unsupported("unique")


def sort(x, *a, **k):
    raise Unsupported("sort")


def quantile(*a, **k):
    raise Unsupported("quantile")


def median(x, axis=None, **k):
    """contract: a function of the array's entries only (equal arrays have equal medians)"""
    x = asarray(x)
    if x.ndim != 1 or axis not in (None, 0) or k:
        raise Unsupported("median of a matrix")
    p = cur()
    for y, v in p.ghost.setdefault("medians", []):
        if dim_eq(x._shape[0], y._shape[0]):
            i = p.fresh("mi", "I")
            c = p.ctx.child()
            c.add_hyp(tm.band(tm.le(N0, i), tm.lt(i, x._shape[0])))
            if c.prove(tm.eq(x.el(i), y.el(i)))[0] == "proved":
                return SV(v)
    v = p.fresh("median", "R")
    p.ghost["medians"].append((x.copy(), v))
    return SV(v)


def fliplr(x):
    return x[:, ::-1]


def flip(x, axis=None):
    x = asarray(x)
    if x.ndim == 1:
        return x[::-1]
    raise Unsupported("flip")


class _Linalg:
    def inv(self, a):
        """contract: for a square matrix of full rank the result is its inverse"""
        p = cur()
        h = p.ghost.get("inv")
        if h is None:
            raise Unsupported("np.linalg.inv has no contract in this unit")
        return h(asarray(a))

    def matrix_rank(self, a, *r, **k):
        p = cur()
        h = p.ghost.get("rank")
        if h is None:
            raise Unsupported("matrix_rank has no contract in this unit")
        return h(asarray(a))

    def trace(self, a):
        return trace(a)

    def cond(self, a, *r, **k):
        """contract: some number (the unit says which, or it is arbitrary)"""
        p = cur()
        h = p.ghost.get("cond")
        return h if h is not None else SV(p.fresh("cond", "R", "+"))

    def __getattr__(self, n):
        raise Unsupported("np.linalg." + n)


class _Random:
    def permutation(self, n):
        """contract: some bijection of range(n)"""
        p = cur()
        nt = tt(n)
        nm = p.freshname("perm")
        p.spec.appsort[nm] = "I"
        p.ghost.setdefault("perms", set()).add(nm)
        p.spec.appaxioms[nm] = lambda a, t: [tm.implies(tm.band(tm.le(N0, a[0]), tm.lt(a[0], nt)), tm.band(tm.le(N0, t), tm.lt(t, nt)))]
        return SArr.new((nt,), lambda i: tm.app(nm, i, "I"), "I")

    def __getattr__(self, n):
        raise Unsupported("np.random." + n)


class _Module:
    def __init__(self, g):
        self._g = g
        self.linalg = _Linalg()
        self.random = _Random()
        self.ndarray = ndarray
        self.pi = SV(tm.PI)
        self.e = SV(tm.fn("exp", N1))
        self.euler_gamma = SV(tm.EULER)
        self.inf = float("inf")
        self.nan = SV(tm.NAN)
        self.newaxis = None
        self.float64 = FLOAT
        self.float32 = FLOAT
        self.int64 = self.int32 = self.integer = INT
        self.bool_ = BOOL
        self.number = FLOAT
        self.__name__ = "numpy"
        self.typing = None

    def __getattr__(self, n):
        v = self._g.get(n)
        if callable(v) and not n.startswith("_"):
            USED.add("numpy." + n)
            return v
        if n == "float_":
            return FLOAT
        if n == "finfo":
            raise Unsupported("np.finfo")
        raise Unsupported("np." + n)


NP = _Module(globals())
