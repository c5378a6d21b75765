"""Symbolic arrays: buffers with functional contents and numpy-style views on them."""
from fractions import Fraction
import itertools
from . import terms as tm
from .terms import T
from .sym import SV, SB, Unsupported, tt, bt, wrap, cur, is_scalar, _BIN, _CMP, CUR, merge_call

N0, N1 = tm.num(0), tm.num(1)


def dimt(d):
    if isinstance(d, T):
        return d
    if isinstance(d, bool):
        raise Unsupported("bool dimension")
    return tt(d)


def cdim(d):
    """int value of a dimension term or None"""
    return int(d.args[0]) if d.op == "num" else None


def dim_eq(a, b):
    if a is b:
        return True
    ca, cb = cdim(a), cdim(b)
    if ca is not None and cb is not None:
        return ca == cb
    key = ("dimeq", a, b)
    p = cur()
    return p.ctx.entails(tm.eq(a, b))


def ent(c):
    if c is tm.TRUE:
        return True
    if c is tm.FALSE:
        return False
    return cur().ctx.entails(c)


def to_int(t):
    """conversion to an integer dtype: truncation unless the value is an integer"""
    if t.sort == "I" or (t.op == "num" and t.args[0].denominator == 1):
        return t
    if t.op == "ite":
        return tm.ite(t.args[0], to_int(t.args[1]), to_int(t.args[2]))
    return tm.app("trunc", (t,), "I")


class Buf:
    __slots__ = ("shape", "get", "sort", "stamp", "name")

    def __init__(self, shape, get, sort="R", name=None):
        self.shape, self.get, self.sort, self.name = tuple(shape), get, sort, name
        p = CUR[0]
        self.stamp = p.stamp if p else 0

    def write(self, cond, val):
        """functional conditional write: cond, val take the base index tuple"""
        p = CUR[0]
        if p and p.loopstack:
            p.loopstack[-1].check_write(self)
        if self.sort == "I":
            real = val
            val = lambda idx: to_int(real(idx))
        old = self.get

        def get(idx, old=old):
            c = cond(idx)
            if c is tm.FALSE:
                return old(idx)
            if c is tm.TRUE:
                return val(idx)
            v = val(idx)
            return tm.ite(c, v, old(idx))
        self.get = get


class SArr:
    _is_sarr = True
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, buf, shape, axes):
        # axes: per base axis ("fix", t) or ("ax", viewaxis, start, step)
        self.buf, self._shape, self.axes = buf, tuple(shape), tuple(axes)

    # construction ------------------------------------------------------------------
    @staticmethod
    def new(shape, get, sort="R", name=None):
        shape = tuple(dimt(d) for d in shape)
        return SArr(Buf(shape, get, sort, name), shape, [("ax", i, N0, 1) for i in range(len(shape))])

    def at(self, idx):
        base = []
        for a in self.axes:
            if a[0] == "fix":
                base.append(a[1])
            else:
                i = idx[a[1]]
                base.append(tm.add(a[2], i if a[3] == 1 else tm.mul(tm.num(a[3]), i)) if (a[2] is not N0 or a[3] != 1) else i)
        return self.buf.get(tuple(base))

    def el(self, *idx):
        """element term at integer terms/ints"""
        return self.at(tuple(dimt(i) for i in idx))

    @property
    def shape(self):
        return tuple(wrap(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return wrap(tm.mul(*self._shape)) if self._shape else 1

    @property
    def sort(self):
        return self.buf.sort

    @property
    def dtype(self):
        return {"R": FLOAT, "I": INT, "B": BOOL}[self.buf.sort]

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        n = self.ndim
        if axes and not isinstance(axes[0], int):
            axes = tuple(axes[0])
        perm = tuple(axes) if axes else tuple(reversed(range(n)))
        inv = {p: i for i, p in enumerate(perm)}
        return SArr(self.buf, [self._shape[p] for p in perm],
                    [a if a[0] == "fix" else ("ax", inv[a[1]], a[2], a[3]) for a in self.axes])

    def __len__(self):
        c = cdim(self._shape[0])
        if c is None:
            raise Unsupported("len of symbolic array")
        return c

    def slen(self):
        return wrap(self._shape[0])

    def __repr__(self):
        return f"<arr {self._shape}>"

    def __bool__(self):
        if all(cdim(d) == 1 for d in self._shape):
            return bool(wrap(self.at((N0,) * self.ndim)))
        raise Unsupported("truth value of an array")

    def scalar_term(self):
        if all(cdim(d) == 1 for d in self._shape):
            return self.at((N0,) * self.ndim)
        raise Unsupported("array used as scalar")

    def __iter__(self):
        c = cdim(self._shape[0])
        if c is None:
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[i] for i in range(c)])

    def __contains__(self, x):
        if self.ndim != 1 or cdim(self._shape[0]) is None or not is_scalar(x):
            raise Unsupported("in array")
        return bool(wrap(tm.bor(*[tm.eq(self.el(i), tt(x)) for i in range(cdim(self._shape[0]))])))

    __hash__ = None

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # copies ---------------------------------------------------------------------------
    def snapshot(self):
        """element function of the current contents"""
        axes, g = self.axes, self.buf.get
        frozen = SArr.__new__(SArr)
        b = Buf.__new__(Buf)
        b.shape, b.get, b.sort, b.stamp, b.name = self.buf.shape, g, self.buf.sort, 0, None
        frozen.buf, frozen._shape, frozen.axes = b, self._shape, axes
        return frozen.at

    def copy(self, *a, **k):
        f = self.snapshot()
        return SArr.new(self._shape, f, self.sort)

    def astype(self, dt, *a, **k):
        s = {"float": "R", "int": "I", "bool": "B"}.get(kind(dt))
        if s is None:
            raise Unsupported(f"astype {dt}")
        f = self.snapshot()
        if s == self.sort:
            return SArr.new(self._shape, f, s)
        if s == "R":
            return SArr.new(self._shape, (lambda i: tt(wrap(f(i)))) , "R") if self.sort == "B" else SArr.new(self._shape, f, "R")
        if s == "I" and self.sort == "B":
            return SArr.new(self._shape, lambda i: tm.ite(f(i), N1, N0), "I")
        if s == "B":
            return SArr.new(self._shape, lambda i: tm.bnot(tm.eq(f(i), N0)), "B")
        if s == "I":
            return SArr.new(self._shape, lambda i: to_int(f(i)), "I")
        raise Unsupported("astype")

    # indexing ----------------------------------------------------------------------------
    def _plan(self, key):
        """-> list of ('int',t)|('slice',start,len,step)|('new',)|('fancy',SArr)|('mask',SArr) over the view axes"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nax = sum(1 for k in key if k is not None and k is not Ellipsis)
        nax += sum(k.ndim - 1 for k in key if isinstance(k, SArr) and k.sort == "B")
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[i:i + 1] = [slice(None)] * (self.ndim - nax)
        else:
            key += [slice(None)] * (self.ndim - nax)
        plan = []
        ax = 0
        for k in key:
            if k is None:
                plan.append(("new",))
                continue
            if isinstance(k, list):
                from .npshim import asarray
                k = asarray(k)
            if isinstance(k, SArr) and k.ndim == 0:
                k = wrap(k.at(()))
            if isinstance(k, (bool, SB)):
                raise Unsupported("boolean scalar index")
            d = self._shape[ax]
            if isinstance(k, slice):
                plan.append(("slice",) + slice_of(k, d))
                ax += 1
            elif isinstance(k, SArr):
                if k.sort == "B":
                    plan.append(("mask", k, ax))
                    ax += k.ndim
                else:
                    plan.append(("fancy", k))
                    ax += 1
            else:
                plan.append(("int", norm_index(tt(k), d)))
                ax += 1
        return plan

    def __getitem__(self, key):
        plan = self._plan(key)
        if any(p[0] in ("fancy", "mask") for p in plan):
            return self._fancy_get(plan)
        v = self._view(plan)
        if v.ndim == 0:
            return wrap(v.at(()))
        return v

    def _view(self, plan):
        shape = []
        amap = {}
        ax = 0
        for p in plan:
            if p[0] == "new":
                shape.append(N1)
            elif p[0] == "int":
                amap[ax] = ("fix", p[1])
                ax += 1
            else:
                amap[ax] = ("ax", len(shape), p[1], p[3])
                shape.append(p[2])
                ax += 1
        axes = []
        for a in self.axes:
            if a[0] == "fix":
                axes.append(a)
            else:
                m = amap[a[1]]
                if m[0] == "fix":
                    axes.append(("fix", tm.add(a[2], tm.mul(tm.num(a[3]), m[1]))))
                else:
                    axes.append(("ax", m[1], tm.add(a[2], tm.mul(tm.num(a[3]), m[2])), a[3] * m[3]))
        return SArr(self.buf, shape, axes)

    def _fancy_get(self, plan):
        f = self.snapshot()
        fancies = [p for p in plan if p[0] in ("fancy", "mask")]
        if len(fancies) == 1:
            p = fancies[0]
            shape = []
            pre = []  # how to build the view index from the output index
            if p[0] == "fancy":
                g = p[1].snapshot()
                kdims = p[1]._shape
            else:
                k = p[1]
                if k.ndim > 1:
                    raise Unsupported("multi-dimensional mask read")
                n, g1 = mask_select(k)
                g = lambda i: g1(i[0])
                kdims = (n,)
            for q in plan:
                if q[0] == "new":
                    pre.append(("skip", len(shape)))
                    shape.append(N1)
                elif q[0] == "int":
                    pre.append(("int", q[1]))
                elif q[0] == "slice":
                    pre.append(("slice", len(shape), q[1], q[3]))
                    shape.append(q[2])
                else:
                    pre.append(("fancy", len(shape)))
                    shape.extend(kdims)
            nk = len(kdims)
            dims = self._shape

            def get(idx):
                out = []
                ax = 0
                for q in pre:
                    if q[0] == "skip":
                        continue
                    if q[0] == "int":
                        out.append(q[1])
                    elif q[0] == "slice":
                        out.append(tm.add(q[2], tm.mul(tm.num(q[3]), idx[q[1]])))
                    else:
                        e = g(tuple(idx[q[1]:q[1] + nk]))
                        if e.op == "num" and e.args[0] < 0:
                            e = tm.add(e, dims[ax])
                        out.append(e)
                    ax += 1
                return f(tuple(out))
            return SArr.new(shape, get, self.sort)
        if all(p[0] in ("fancy", "int") for p in plan) and len(plan) == self.ndim:
            gs = []
            shp = None
            for p in plan:
                if p[0] == "int":
                    gs.append(lambda i, t=p[1]: t)
                else:
                    s = p[1]._shape
                    if shp is None:
                        shp = s
                    elif len(s) != len(shp) or not all(dim_eq(a, b) for a, b in zip(s, shp)):
                        raise Unsupported("fancy index shapes")
                    gs.append(p[1].snapshot())
            return SArr.new(shp, lambda i: f(tuple(g(i) for g in gs)), self.sort)
        raise Unsupported("several fancy indices")

    def __setitem__(self, key, val):
        plan = self._plan(key)
        fancies = [p for p in plan if p[0] in ("fancy", "mask")]
        if not fancies:
            self._view(plan).store(val)
            return
        if len(fancies) > 1:
            raise Unsupported("store with several fancy indices")
        p = fancies[0]
        if p[0] == "mask" and p[1].ndim == self.ndim and len(plan) == 1:
            m = p[1].snapshot()
            if is_scalar(val):
                v = _elem(val, self.sort)
                self._store_where(lambda i: m(i), lambda i: v)
                return
            if isinstance(val, SArr) and self.ndim == 1:
                n, g, pos = mask_select(p[1], want_pos=True)
                vv = val.snapshot()
                self._store_where(lambda i: m(i), lambda i: vv((pos(i[0]),)) if val.ndim == 1 else vv(()))
                return
            raise Unsupported("masked store of an array")
        # one fancy axis, slices/ints elsewhere
        if p[0] == "mask":
            if p[1].ndim != 1:
                raise Unsupported("mask store")
            m = p[1].snapshot()
            n, g, pos = mask_select(p[1], want_pos=True)
            insel = lambda j: m((j,))
            klen = n
        else:
            if p[1].ndim != 1:
                raise Unsupported("fancy store ndim")
            insel, pos = int_select(p[1])
            klen = p[1]._shape[0]
        shape = []
        pre = []
        for q in plan:
            if q[0] == "new":
                raise Unsupported("newaxis store")
            if q[0] == "int":
                pre.append(("int", q[1]))
            elif q[0] == "slice":
                pre.append(("slice", len(shape), q[1], q[2], q[3]))
                shape.append(q[2])
            else:
                pre.append(("fancy", len(shape)))
                shape.append(klen)
        vat = bcast_to(val, tuple(shape), self.sort)

        def cond(i):
            cs = []
            for q, b in zip(pre, i):
                if q[0] == "int":
                    cs.append(tm.eq(b, q[1]))
                elif q[0] == "slice":
                    cs.append(_inslice(b, q[2], q[3], q[4], None))
                else:
                    cs.append(insel(b))
            return tm.band(*cs)

        def value(i):
            out = [None] * len(shape)
            for q, b in zip(pre, i):
                if q[0] == "slice":
                    out[q[1]] = _unslice(b, q[2], q[4])
                elif q[0] == "fancy":
                    out[q[1]] = pos(b)
            return vat(tuple(out))
        self._store_where(cond, value)

    def _inv(self):
        """base index -> (conditions, view index)"""
        axes, shape, bshape = self.axes, self._shape, self.buf.shape

        def inv(base):
            cs = []
            out = [N0] * len(shape)
            for a, b, n in zip(axes, base, bshape):
                if a[0] == "fix":
                    cs.append(tm.eq(b, a[1]))
                else:
                    _, v, st, step = a
                    out[v] = _unslice(b, st, step)
                    if not (st is N0 and step == 1 and shape[v] is n):
                        cs.append(_inslice(b, st, shape[v], step, n))
            return cs, tuple(out)
        return inv

    def _store_where(self, cond, value):
        inv = self._inv()

        def c(base):
            cs, v = inv(base)
            return tm.band(*(cs + [cond(v)]))
        self.buf.write(c, lambda base: value(inv(base)[1]))

    def store(self, val):
        for d, nm in zip(self._shape, range(self.ndim)):
            if all(a[0] == "fix" or a[1] != nm for a in self.axes) and cdim(d) != 1:
                raise Unsupported("store into a broadcast view")
        if isinstance(val, SArr) and val.buf is self.buf:
            val = val.copy()
        vat = bcast_to(val, self._shape, self.sort)
        self._store_where(lambda i: tm.TRUE, vat)

    # arithmetic -------------------------------------------------------------------------------
    def _inplace(self, o, f):
        r = elementwise(f, [self, o])
        self.store(r)
        return self

    def __neg__(self):
        f = self.snapshot()
        return SArr.new(self._shape, lambda i: tm.neg(f(i)), self.sort)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        f = self.snapshot()
        return SArr.new(self._shape, lambda i: tm.absT(f(i)), self.sort)

    def __invert__(self):
        if self.sort != "B":
            raise Unsupported("~ on numbers")
        f = self.snapshot()
        return SArr.new(self._shape, lambda i: tm.bnot(f(i)), "B")

    def __matmul__(self, o):
        from .npshim import matmul
        return matmul(self, o)

    def __rmatmul__(self, o):
        from .npshim import matmul
        return matmul(o, self)

    # methods that mirror numpy ------------------------------------------------------------------
    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        from . import npshim
        if name in ("sum", "mean", "max", "min", "squeeze", "flatten", "ravel", "reshape", "any", "all", "std", "var", "argmin", "argmax", "cumsum", "diagonal", "dot", "prod", "repeat", "clip"):
            f = getattr(npshim, name)
            return lambda *a, **k: f(self, *a, **k)
        if name == "item":
            def item(*a):
                if not a and self.ndim == 1 and cdim(self._shape[0]) is None:
                    if not cur().branch(tm.eq(self._shape[0], tm.num(1))):
                        raise ValueError("can only convert an array of size 1 to a Python scalar")
                    return wrap(self.at((N0,)))
                return wrap(self.scalar_term())
            return item
        if name == "tolist":
            return lambda: [x.tolist() if isinstance(x, SArr) else x for x in self]
        raise AttributeError(f"array attribute {name}")


class DType:
    def __init__(self, k):
        self.k = k
        self.kind = {"float": "f", "int": "i", "bool": "b"}[k]

    def __eq__(self, o):
        return kind(o) == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return self.k


FLOAT, INT, BOOL = DType("float"), DType("int"), DType("bool")


def kind(dt):
    if isinstance(dt, DType):
        return dt.k
    s = dt if isinstance(dt, str) else getattr(dt, "__name__", str(dt))
    s = s.lower()
    if "float" in s:
        return "float"
    if "bool" in s:
        return "bool"
    if "int" in s:
        return "int"
    return None


def _elem(x, sort):
    return bt(x) if sort == "B" else tt(x)


def _unslice(b, st, step):
    d = b if st is N0 else tm.sub(b, st)
    if step == 1:
        return d
    if step == -1:
        return tm.neg(d)
    raise Unsupported("store with a stride")


def _inslice(b, st, ln, step, n):
    v = _unslice(b, st, step)
    return tm.band(tm.le(N0, v), tm.lt(v, ln))


def norm_index(t, d):
    if t.op == "num":
        v = int(t.args[0])
        if v < 0:
            r = tm.add(d, t)
            return tm.num(int(r.args[0])) if r.op == "num" else r
        return t
    if ent(tm.le(N0, t)):
        return t
    if ent(tm.lt(t, N0)):
        return tm.add(d, t)
    return tm.ite(tm.lt(t, N0), tm.add(d, t), t)


def slice_of(s, d):
    """-> start, length, step of a slice of a dimension d"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int) or step not in (1, -1, 2):
        raise Unsupported("slice step")

    def bound(x, default):
        if x is None:
            return default
        t = tt(x)
        if t.op == "num" and d.op == "num":
            v, n = int(t.args[0]), int(d.args[0])
            if v < 0:
                v = max(v + n, 0)
            return tm.num(min(v, n))
        if t.op == "num" and t.args[0] == 0:
            return t
        if ent(tm.le(N0, t)):
            if ent(tm.le(t, d)):
                return t
            if ent(tm.le(d, t)):
                return d
            return tm.ite(tm.le(t, d), t, d)
        if ent(tm.lt(t, N0)):
            r = tm.add(d, t)
            if ent(tm.le(N0, r)):
                return r
            return tm.ite(tm.le(N0, r), r, N0)
        raise Unsupported("slice bound of unknown sign")
    if step == -1:
        if s.start is None and s.stop is None:
            return tm.add(d, tm.num(-1)), d, -1
        raise Unsupported("reversed slice with bounds")
    a, b = bound(s.start, N0), bound(s.stop, d)
    ln = b if a is N0 else tm.sub(b, a)
    if ln.op == "add":
        q = cur().ctx
        ln = q.to_term(q.norm.nf(ln), "I")
    if a.op == "num" and b.op == "num":
        ln = tm.num(max(int(b.args[0]) - int(a.args[0]), 0))
    elif a is not N0 and not ent(tm.le(a, b)):
        ln = tm.ite(tm.le(a, b), ln, N0)
    if step == 2:
        c = cdim(ln)
        if c is None:
            raise Unsupported("strided symbolic slice")
        return a, tm.num((c + 1) // 2), 2
    return a, ln, 1


def bcast_to(val, shape, sort):
    """element function of val broadcast to shape"""
    if isinstance(val, (list, tuple)):
        from .npshim import asarray
        val = asarray(val)
    if not isinstance(val, SArr):
        v = _elem(val, sort)
        return lambda i: v
    f = val.snapshot()
    k = val.ndim
    if k > len(shape):
        if all(cdim(d) == 1 for d in val._shape[: k - len(shape)]):
            ex = k - len(shape)
            g = f
            f = lambda i: g((N0,) * ex + tuple(i))
            vs = val._shape[ex:]
        else:
            raise Unsupported("cannot broadcast")
    else:
        vs = val._shape
    off = len(shape) - len(vs)
    one = []
    for j, d in enumerate(vs):
        if cdim(d) == 1 and cdim(shape[off + j]) != 1:
            one.append(True)
        elif dim_eq(d, shape[off + j]):
            one.append(False)
        else:
            raise Unsupported(f"shapes {vs} -> {shape}")
    conv = val.sort == "B" and sort != "B"
    conv2 = sort == "B" and val.sort != "B"

    def g(i):
        e = f(tuple(N0 if o else x for o, x in zip(one, i[off:])))
        if conv:
            return tm.ite(e, N1, N0)
        if conv2:
            return tm.bnot(tm.eq(e, N0))
        return e
    return g


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for j in range(n):
        d = N1
        for s in shapes:
            o = n - len(s)
            if j < o:
                continue
            e = s[j - o]
            if cdim(e) == 1:
                continue
            if cdim(d) == 1:
                d = e
            elif not dim_eq(d, e):
                raise Unsupported(f"operands could not be broadcast {shapes}")
        out.append(d)
    return tuple(out)


def elementwise(f, args, sort=None, bool_args=False):
    """f on terms, broadcast over array args; scalars in -> scalar out"""
    from .npshim import asarray
    args = [asarray(a) if isinstance(a, (list, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, SArr)]
    if not arrs:
        return wrap(f(*[(bt(a) if bool_args or (isinstance(a, (SB, bool)) and bool_args) else tt(a)) for a in args]))
    shape = bshape([a._shape for a in arrs])
    gs = []
    for a in args:
        if isinstance(a, SArr):
            g = bcast_to(a, shape, a.sort)
            if a.sort == "B" and not bool_args:
                g = (lambda g: lambda i: tm.ite(g(i), N1, N0))(g)
            elif a.sort != "B" and bool_args:
                g = (lambda g: lambda i: tm.bnot(tm.eq(g(i), N0)))(g)
            gs.append(g)
        else:
            v = bt(a) if bool_args else tt(a)
            gs.append(lambda i, v=v: v)
    if sort is None:
        probe = f(*[g(tuple(tm.var(f"B_p{k}", "I") for k in range(len(shape)))) for g in gs])
        sort = probe.sort
    return SArr.new(shape, lambda i: f(*[g(i) for g in gs]), sort)


def _mkop(f, swap=False):
    def op(self, o):
        if not (isinstance(o, (SArr, list, tuple)) or is_scalar(o)):
            return NotImplemented
        return elementwise(f, [o, self] if swap else [self, o])
    return op


for _n, _f in _BIN.items():
    setattr(SArr, f"__{_n}__", _mkop(_f))
    setattr(SArr, f"__r{_n}__", _mkop(_f, True))
    setattr(SArr, f"__i{_n}__", (lambda f: lambda self, o: self._inplace(o, f))(_f))
for _n, _f in _CMP.items():
    def _mk(f, nm):
        def op(self, o):
            if o is None or isinstance(o, str):
                return nm == "ne"
            return elementwise(f, [self, o], sort="B")
        return op
    setattr(SArr, f"__{_n}__", _mk(_f, _n))


def _mkbool(f):
    return lambda self, o: elementwise(f, [self, o], sort="B", bool_args=True)


SArr.__and__ = SArr.__rand__ = _mkbool(lambda a, b: tm.band(a, b))
SArr.__or__ = SArr.__ror__ = _mkbool(lambda a, b: tm.bor(a, b))


# -- selections -----------------------------------------------------------------------------------
def concrete_mask(k):
    n = cdim(k._shape[0])
    if n is None:
        return None
    vs = [k.el(i) for i in range(n)]
    if all(v is tm.TRUE or v is tm.FALSE for v in vs):
        return [v is tm.TRUE for v in vs]
    # a mask over a concrete dimension with undetermined entries: decide each (forks the path)
    return [bool(wrap(v)) for v in vs]


def mask_select(k, want_pos=False):
    """-> (count, i -> position of the i-th selected entry)[, position -> i]"""
    cm = concrete_mask(k)
    if cm is not None:
        pos = [i for i, v in enumerate(cm) if v]

        def sel(i):
            if i.op == "num":
                return tm.num(pos[int(i.args[0])])
            if not pos:
                return N0
            r = tm.num(pos[-1])
            for j in range(len(pos) - 2, -1, -1):
                r = tm.ite(tm.eq(i, tm.num(j)), tm.num(pos[j]), r)
            return r

        def inv(b):
            r = N0
            for j, q in enumerate(pos):
                r = tm.ite(tm.eq(b, tm.num(q)), tm.num(j), r)
            return r
        return (tm.num(len(pos)), sel, inv) if want_pos else (tm.num(len(pos)), sel)
    # symbolic mask: ghost enumeration
    p = cur()
    m = k.snapshot()
    for c in p.ghost.get("points", ()):  # a mask that holds at one position only
        x = p.fresh("mx", "I")
        rng = tm.band(tm.le(N0, x), tm.lt(x, k._shape[0]))
        e = tm.eq(x, c)
        if p.ctx.entails(m((c,))) and p.ctx.entails(tm.implies(tm.band(rng, m((x,))), e)):
            return (N1, lambda i: c, lambda b: N0) if want_pos else (N1, lambda i: c)
    v = tm.fresh_bound()
    key = ("mask", p.ctx.norm.nf(tm.sumt(v, k._shape[0], tm.ite(m((v,)), tm.add(v, N1), N0))))
    r = p.ghost.get(key)
    if r is None:
        sname, pname = p.freshname("sel"), p.freshname("selpos")
        p.spec.appsort[sname] = p.spec.appsort[pname] = "I"
        v = tm.fresh_bound()
        n = tm.sumt(v, k._shape[0], tm.ite(m((v,)), N1, N0))
        nv = p.fresh("count", "I")
        p.assume(tm.le(N0, nv))
        p.assume(tm.le(nv, k._shape[0]))
        d = k._shape[0]
        p.spec.appaxioms[sname] = lambda a, t: [tm.implies(tm.band(tm.le(N0, a[0]), tm.lt(a[0], nv)),
                                                          tm.band(tm.le(N0, t), tm.lt(t, d), m((t,))))]
        r = p.ghost[key] = (nv, sname, pname, n)
        p.ghost.setdefault("maskcounts", []).append((nv, n))
    nv, sname, pname, n = r
    sel, inv = selpair(sname, pname)
    return (nv, sel, inv) if want_pos else (nv, sel)


def selpair(sname, pname):
    """enumeration of a selection and its inverse (each only used on arguments in range, where they cancel)"""
    sel = lambda i: i.args[1] if i.op == "app" and i.args[0] == pname else tm.app(sname, (i,), "I")
    inv = lambda b: b.args[1] if b.op == "app" and b.args[0] == sname else tm.app(pname, (b,), "I")
    return sel, inv


def int_select(k):
    """membership and inverse of a 1-d integer index array with distinct entries"""
    n = cdim(k._shape[0])
    g = k.snapshot()
    if n is not None:
        es = [g((tm.num(i),)) for i in range(n)]
        insel = lambda b: tm.bor(*[tm.eq(b, e) for e in es])

        def inv(b):
            r = N0
            for j, e in enumerate(es):
                r = tm.ite(tm.eq(b, e), tm.num(j), r)
            return r
        return insel, inv
    p = cur()
    b = tm.var("B_s", "I")
    e = g((b,))
    if e is b:  # arange
        d = k._shape[0]
        return (lambda x: tm.band(tm.le(N0, x), tm.lt(x, d))), (lambda x: x)
    h = p.ghost.get("intsel")
    if h is not None:
        return h(k)
    raise Unsupported("store through a symbolic index array")


# -- named symbolic arrays --------------------------------------------------------------------------
def symarr(name, shape, sort="R", sign=None, axiom=None):
    """a fresh array: elements are applications name(i, j)"""
    p = cur()
    if sort != "R":
        p.spec.appsort[name] = sort
    if sign:
        p.spec.appsigns[name] = sign
    if axiom:
        p.spec.appaxioms[name] = axiom
    return SArr.new(shape, lambda i: tm.app(name, i, sort) if sort != "B" else tm.mk("bapp", (name,) + tuple(i), "B"), sort, name)


def as_arr(x):
    return x
