"""numpy arrays of one or two dimensions and symbolic shape.

A buffer holds the entries as a function of the position (a z3 term built on demand); an array is a view of a
buffer: basic slices, rows, columns and transposes share it, everything else copies. `arr()` names the content as
a z3 array that is zero outside the bounds (see la.py)."""
import z3
from core import *
import interp as I
import builtins_model as B
from interp import builtin, SymIter, SeqIter, ConcIter, PList, Unsupported, Lazy, Native, Opaque, Ext, SliceV, HObj
import la
from la import Vec, Mat, IVec

SORTS = {"float": RealS, "int": IntS, "bool": BoolS}


def num(t):
    return z3.IntVal(t) if isinstance(t, int) else t


def same_dim(a, b):
    a, b = num(a), num(b)
    return z3.simplify(a == b)


def inb(idx, dims):
    return z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(idx, dims)])


class Buf(HObj):
    def __init__(self, ctx, dims, fn, dt="float", term=None):
        HObj.__init__(self, ctx)
        self.dims, self.fn, self.dt, self.term = tuple(num(d) for d in dims), fn, dt, term

    def write(self, fn):
        self.fn, self.term = fn, None
        self.touch()

    def __repr__(self):
        return f"<array {self.dims}>"


IDX = [z3.Int("ix0_"), z3.Int("ix1_")]


class Nd(HObj):
    py_type = "ndarray"

    def __init__(self, buf, dims=None, to=None, back=None, origin=None):
        HObj.__init__(self, buf.ctx)
        self.buf = buf
        self.whole = dims is None
        self.dims = buf.dims if dims is None else tuple(num(d) for d in dims)
        self.to = to or (lambda *p: p)
        self.back = back or (lambda *p: (z3.BoolVal(True), p))
        self.origin = origin
        self.flip_of = None

    @property
    def nd(self):
        return len(self.dims)

    @property
    def dt(self):
        return self.buf.dt

    def at(self, *p):
        return self.buf.fn(*self.to(*[num(x) for x in p]))

    def frozen(self):
        """The entries as they are now, as a function."""
        fn, to = self.buf.fn, self.to
        return lambda *p: fn(*to(*[num(x) for x in p]))

    def write(self, cond, val):
        """Entries p with cond(p) become val(p)."""
        old, back = self.buf.fn, self.back

        def fn(*p):
            g, idx = back(*p)
            return ite_(z3.And(g, cond(*idx)), lambda: val(*idx), lambda: old(*p))
        self.buf.write(fn)

    # ------------------------------------------------------------ naming
    def arr(self):
        if self.whole and self.buf.term is not None:
            return self.buf.term
        f = self.flip_of
        if f is not None and f.whole and f.buf.term is not None and self.dt == "float":
            t = la.tr(f.buf.term)
            register(self.ctx, t, self.dims)
            return t
        t = reify(self.ctx, self.dims, self.frozen(), self.dt)
        if self.whole:
            self.buf.term = t
        return t

    def real_fn(self):
        f = self.frozen()
        return f if self.dt == "float" else (lambda *p: to_real(f(*p)))

    # ------------------------------------------------------------ hooks
    def py_getattr(self, interp, a):
        if a == "shape":
            return tuple(from_term(z3.simplify(d)) for d in self.dims)
        if a == "ndim":
            return self.nd
        if a == "size":
            t = self.dims[0]
            for d in self.dims[1:]:
                t = t * d
            return from_term(z3.simplify(t))
        if a == "dtype":
            return Dtype(self.dt)
        if a == "T":
            return transpose(self)
        return I.BMethod(self, a)

    def py_len(self, interp):
        return from_term(z3.simplify(self.dims[0]))

    def py_truth(self, interp):
        raise Unsupported("truth of an array")

    def py_iter(self, interp):
        if self.nd == 1:
            return SeqIter(self.dims[0], lambda i: from_term(self.at(i)))
        return SeqIter(self.dims[0], lambda i: row(self, i))

    def py_contains(self, interp, x):
        if self.nd != 1:
            raise Unsupported("membership in a matrix")
        p, f = IDX[0], self.frozen()
        t = term(x)
        e = f(p)
        if e.sort() != t.sort():
            e, t = to_real(e), to_real(t)
        return SV(z3.Exists([p], z3.And(inb([p], self.dims), e == t)))

    def py_minmax(self, interp, small):
        return B.minmax(interp, [self.py_iter(interp)], {}, small)

    def py_havoc(self, interp):
        s = ("vec", "mat")[self.nd - 1]
        n = fresh(self.ctx, s, self.buf.dims, self.dt)
        self.buf.write(n.buf.fn)
        self.buf.term = n.buf.term

    def py_neg(self, interp):
        return pointwise(interp, [self], lambda a: -a)

    def py_abs(self, interp):
        return pointwise(interp, [self], lambda a: z3.If(a >= 0, a, -a))

    def py_binop(self, interp, o, other, swapped):
        if o == "MatMult":
            return matmul(interp, other, self) if swapped else matmul(interp, self, other)
        if isinstance(other, Obj):
            raise Unsupported("array and object")
        f = ARITH.get(o)
        if f is None:
            raise Unsupported(f"{o} on arrays")
        if o == "Div":
            if not is_scalar(other) or swapped:
                raise Unsupported("division of arrays")
            interp.ctx.assume(real(other) != 0) if interp.ctx.holds(real(other) != 0) else _unsup("division by a scalar that may be zero")
        args = [other, self] if swapped else [self, other]
        return pointwise(interp, args, f)

    def py_inplace(self, interp, o, other):
        f = ARITH.get(o)
        if f is None:
            raise Unsupported(f"{o}= on arrays")
        if o == "Div":
            return self.py_inplace(interp, "Mult", interp.binop(I.ast.Div(), 1, other))
        r = pointwise(interp, [self, other], f)
        if any(not interp.ctx.holds(a == b) for a, b in zip(r.dims, self.dims)):
            raise Unsupported("in-place operation that broadcasts")
        if self.dt == "int" and r.dt == "float":
            raise PyRaise("TypeError", "casting", True)
        g = r.frozen()
        self.write(lambda *p: z3.BoolVal(True), lambda *p: g(*p))
        return self

    def py_compare(self, interp, o, other, swapped):
        if o in ("Is", "IsNot"):
            return (other is self) == (o == "Is")
        if not (is_scalar(other) or isinstance(other, Nd)):
            if other is None and o in ("Eq", "NotEq"):
                raise Unsupported("array == None")
            raise Unsupported(f"comparison of an array with {other!r}")
        f = {"Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b,
             "Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b}[o]
        args = [other, self] if swapped else [self, other]
        return pointwise(interp, args, f, "bool")

    def py_getitem(self, interp, key):
        return getitem(interp, self, key)

    def py_setitem(self, interp, key, v):
        return setitem(interp, self, key, v)

    def py_method(self, interp, name, args, kw):
        if name == "copy":
            return make(self.ctx, self.dims, self.frozen(), self.dt, self.arr_term())
        if name in ("all", "any") and not args and not kw:
            return all_any(interp, self, name == "any")
        if name == "tolist":
            if self.nd != 1:
                raise Unsupported("tolist of a matrix")
            t = self.arr() if self.dt == "float" else reify(self.ctx, self.dims, self.frozen(), self.dt)
            return SSeq(self.ctx, self.dims[0], t, SORTS[self.dt])
        if name == "astype":
            return astype(self, dtype_name(args[0]))
        if name in ("dot", "__matmul__"):
            return matmul(interp, self, args[0])
        if name == "transpose" and not args:
            return transpose(self)
        if name in ("flatten", "ravel") and self.nd == 1:
            return make(self.ctx, self.dims, self.frozen(), self.dt, self.arr_term())
        if name in ("sum",) and self.nd == 1 and not args:
            return SV(la.dot(self.arr(), reify(self.ctx, self.dims, lambda p: z3.RealVal(1), "float")))
        if name in ("max", "min") and not args:
            return self.py_minmax(interp, name == "min")
        if name == "fill" and len(args) == 1:
            t = real(args[0])
            self.write(lambda *p: z3.BoolVal(True), lambda *p: t)
            return None
        raise Unsupported(f"ndarray.{name}")

    def arr_term(self):
        return self.buf.term if self.whole else None

    def py_subst(self, key, t):
        """Inside a summarised comprehension: the view with a parameter replaced."""
        to, back = self.to, self.back
        return Nd(self.buf, [z3.substitute(d, (key, t)) for d in self.dims],
                  lambda *p: [z3.substitute(e, (key, t)) for e in to(*p)],
                  lambda *p: _subst_back(back(*p), key, t))

    def __repr__(self):
        return f"<{'vector' if self.nd == 1 else 'matrix'} {self.dims}>"


def _subst_back(r, key, t):
    return z3.substitute(r[0], (key, t)), [z3.substitute(e, (key, t)) for e in r[1]]


def _unsup(why):
    raise Unsupported(why)


class OddArray(HObj):
    """An ndarray of some other number of dimensions or of entries that are not numbers: only looked at."""
    py_type = "ndarray"

    def __init__(self, ctx, nd, dt):
        HObj.__init__(self, ctx)
        self.ndims, self.dt = nd, dt

    def py_getattr(self, interp, a):
        if a == "ndim":
            return self.ndims
        if a == "dtype":
            return Dtype(self.dt)
        if a == "shape":
            return tuple(SV(interp.ctx.fresh("dim", IntS)) for _ in range(self.ndims))
        return I.BMethod(self, a)

    def py_method(self, interp, name, args, kw):
        if name == "copy":
            return OddArray(self.ctx, self.ndims, self.dt)
        if name == "astype":
            return OddArray(self.ctx, self.ndims, dtype_name(args[0]))
        raise Unsupported(f"{name} of an odd array")


class Dtype:
    def __init__(self, name):
        self.name = name

    def py_compare(self, interp, o, other, swapped):
        n = other.name if isinstance(other, Dtype) else dtype_name(other)
        return (self.name == n) == (o in ("Eq", "Is"))


def dtype_name(v):
    if isinstance(v, Dtype):
        return v.name
    if isinstance(v, Ext):
        p = v.path.split(".")[-1]
        for k in ("float", "int", "bool", "object"):
            if p.startswith(k):
                return k
    if isinstance(v, str):
        return v
    raise Unsupported(f"dtype {v!r}")


def to_real(t):
    if t.sort() == RealS:
        return t
    if t.sort() == IntS:
        return z3.ToReal(t)
    if t.sort() == BoolS:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported("not a number")


def ite_(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    x, y = a(), b()
    if x.eq(y):
        return x
    return z3.If(c, x, y)


def is_scalar(v):
    return is_num(v) or isinstance(v, bool) or isinstance(v, SV)


ARITH = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b}


# ---------------------------------------------------------------- construction
def make(ctx, dims, fn, dt="float", term=None):
    return Nd(Buf(ctx, dims, fn, dt, term))


def snapshot(a):
    """The content of the array as it is now, as an array of its own."""
    whole = a.whole
    r = Nd(Buf(a.ctx, a.dims, a.frozen(), a.dt, a.buf.term if whole else None))
    if whole and a.buf.term is None:
        def name():
            t = Nd.arr(r)
            if a.buf.fn is src:
                a.buf.term = t
            return t
        src = a.buf.fn
        r.arr = name
    return r


def register(ctx, t, dims):
    ctx.ghost.setdefault("ndarrays", {})[t.get_id()] = (t, tuple(num(d) for d in dims))


def registered(ctx, t):
    """The bounds outside which the array is known to be zero."""
    r = ctx.ghost.get("ndarrays", {}).get(t.get_id())
    if r is not None:
        return r[1]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
        d = registered(ctx, t.arg(0))
        return d[1:] if d and len(d) == 2 else None
    return None


def array_sort(nd, dt):
    s = SORTS[dt]
    for _ in range(nd):
        s = z3.ArraySort(IntS, s)
    return s


def fresh(ctx, hint, dims, dt="float"):
    dims = tuple(num(d) for d in dims)
    t = ctx.fresh(hint, array_sort(len(dims), dt))
    return of_term(ctx, t, dims, dt, True)


def sel_at(t, p):
    for x in p:
        t = z3.Select(t, x)
    return t


def of_term(ctx, t, dims, dt="float", zero=False):
    """The array whose content is the z3 array t; zero: assume it vanishes outside."""
    dims = tuple(num(d) for d in dims)
    if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        ctx.mention(t)  # the term itself, outside any quantifier
    if zero:
        p = IDX[:len(dims)]
        e = sel_at(t, p)
        if dt != "bool":
            ctx.assume(z3.ForAll(p, z3.Implies(z3.Not(inb(p, dims)), e == 0), patterns=[e], qid="nd_zero"))
    register(ctx, t, dims)
    return make(ctx, dims, lambda *p: sel_at(t, p), dt, t)


def const_of(e, p):
    return not any(B.contains_const(e, x) for x in p)


def reify(ctx, dims, fn, dt="float"):
    """A z3 array equal to fn inside the bounds and zero outside."""
    dims = tuple(num(d) for d in dims)
    p = IDX[:len(dims)]
    body = z3.simplify(fn(*p))
    if dt == "float":
        body = to_real(body)
    # already a named array?
    e, ok = body, True
    for x in reversed(p):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.arg(1).eq(x):
            e = e.arg(0)
        else:
            ok = False
            break
    if ok and const_of(e, p):
        d = registered(ctx, e)
        if d is not None and len(d) == len(dims) and all(a.eq(b) or ctx.holds(a == b) for a, b in zip(d, dims)):
            return e
    if len(p) == 2 and z3.is_app(body) and body.decl().kind() == z3.Z3_OP_SELECT and body.arg(1).eq(p[0]):
        f = body.arg(0)
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SELECT and f.arg(1).eq(p[1]) and const_of(f.arg(0), p):
            d = registered(ctx, f.arg(0))
            if d is not None and len(d) == 2 and all(a.eq(b) or ctx.holds(a == b) for a, b in zip(d, (dims[1], dims[0]))):
                t = la.tr(f.arg(0))
                register(ctx, t, dims)
                return t
    cache = ctx.ghost.setdefault("reified", {})
    key = (body.get_id(), tuple(z3.simplify(d).get_id() for d in dims), dt)
    if key in cache:
        return cache[key][0]
    if ctx.sub is not None:
        raise Unsupported("a new array inside a summarised expression")
    R = ctx.fresh("arr", array_sort(len(dims), dt))
    zero = {"float": z3.RealVal(0), "int": z3.IntVal(0), "bool": z3.BoolVal(False)}[dt]
    ctx.assume(z3.ForAll(p, sel_at(R, p) == z3.If(inb(p, dims), body, zero), patterns=[sel_at(R, p)], qid="nd_reify"))
    for e in back_patterns(body, p):
        ctx.assume(z3.ForAll(p, z3.Implies(inb(p, dims), sel_at(R, p) == body), patterns=[e], qid="nd_reifyb"))
    register(ctx, R, dims)
    cache[key] = (R, body, dims)
    if dt == "float":
        facts(ctx, R, dims, body)
    return R


def back_patterns(body, p):
    """Entries of other arrays at exactly these positions: they bring the new array's entry into play."""
    out, seen, stack = [], set(), [body]
    while stack and len(out) < 3:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT:
            idx, a = [], e
            while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT:
                idx.insert(0, a.arg(1))
                a = a.arg(0)
            if len(idx) == len(p) and all(any(i.eq(x) for i in idx) for x in p) and all(any(i.eq(x) for x in p) for i in idx) and const_of(a, p) and clean(a):
                out.append(e)
        if z3.is_app(e):
            stack.extend(e.children())
    return out


def facts(ctx, R, dims, body):
    """dot with R (or with its rows) when the body is a combination of named arrays and single components."""
    p = IDX[:len(dims)]
    col = p[-1]
    lin = linear(ctx, body, col, dims[-1])
    if lin is None:
        return
    x = z3.Const("x_", Vec)
    s = z3.RealVal(0)
    for kind, coef, obj in lin:
        if kind == "arr":
            s = s + coef * la.dot(obj, x)
        else:
            s = s + coef * z3.Select(x, obj)
    s = z3.simplify(s)
    if len(dims) == 1:
        ctx.assume(z3.ForAll([x], la.dot(R, x) == s, patterns=[la.dot(R, x)], qid="nd_dot"))
    else:
        i = p[0]
        ctx.assume(z3.ForAll([i, x], z3.Implies(z3.And(i >= 0, i < dims[0]), la.dot(z3.Select(R, i), x) == s), patterns=[la.dot(z3.Select(R, i), x)], qid="nd_dotrow"))


def linear(ctx, e, j, n):
    """e as a sum over [('arr', coefficient, array) | ('pt', coefficient, position)] with e = sum of coefficient *
    array[j] + coefficient * [j == position] for 0 <= j < n; every array zero and every position inside. None: no."""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return [] if e.as_fraction() == 0 else None
    if not z3.is_app(e):
        return None
    kd = e.decl().kind()
    if kd == z3.Z3_OP_SELECT and e.arg(1).eq(j) and const_of(e.arg(0), [j]):
        d = registered(ctx, e.arg(0))
        if d is not None and len(d) == 1 and (d[0].eq(n) or ctx.holds(d[0] == n)):
            return [("arr", z3.RealVal(1), e.arg(0))]
        return None
    if kd == z3.Z3_OP_ADD:
        out = []
        for c in e.children():
            s = linear(ctx, c, j, n)
            if s is None:
                return None
            out += s
        return out
    if kd == z3.Z3_OP_SUB and e.num_args() == 2:
        a, b = linear(ctx, e.arg(0), j, n), linear(ctx, e.arg(1), j, n)
        return None if a is None or b is None else a + scale(b, z3.RealVal(-1))
    if kd == z3.Z3_OP_UMINUS:
        a = linear(ctx, e.arg(0), j, n)
        return None if a is None else scale(a, z3.RealVal(-1))
    if kd == z3.Z3_OP_MUL:
        ks = [c for c in e.children() if const_of(c, [j])]
        vs = [c for c in e.children() if not const_of(c, [j])]
        if len(vs) == 1:
            a = linear(ctx, vs[0], j, n)
            k = ks[0] if len(ks) == 1 else z3.Product(*ks)
            return None if a is None else scale(a, k)
        return None
    if kd == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if const_of(c, [j]):
            x, y = linear(ctx, a, j, n), linear(ctx, b, j, n)
            if x is None or y is None:
                return None
            return scale(x, z3.If(c, z3.RealVal(1), z3.RealVal(0))) + scale(y, z3.If(c, z3.RealVal(0), z3.RealVal(1)))
        if z3.is_and(c):
            fix = [d for d in c.children() if const_of(d, [j])]
            var = [d for d in c.children() if not const_of(d, [j])]
            if len(var) == 1 and point(var[0], j) is not None:
                pos = point(var[0], j)
                y = linear(ctx, b, j, n)
                if y is None or not ctx.holds(z3.And(0 <= pos, pos < n)):
                    return None
                at = lambda t: z3.substitute(t, (j, pos))
                return y + [("pt", z3.simplify(z3.If(z3.And(*fix), at(a) - at(b), z3.RealVal(0))), pos)]
        pos = point(c, j)
        if pos is not None and (ctx.holds(z3.And(0 <= pos, pos < n))):
            y = linear(ctx, b, j, n)
            if y is None:
                return None
            at = lambda t: z3.substitute(t, (j, pos))
            return y + [("pt", z3.simplify(at(a) - at(b)), pos)]
    return None


def scale(lin, k):
    return [(kind, z3.simplify(k * c), o) for kind, c, o in lin]


def point(c, j):
    if z3.is_eq(c):
        a, b = c.children()
        if a.eq(j) and const_of(b, [j]):
            return b
        if b.eq(j) and const_of(a, [j]):
            return a
        # j and a constant on the same side: x + j == y
        d = z3.simplify(a - b)
        if d.sort() == IntS:
            r = z3.simplify(z3.substitute(d, (j, z3.IntVal(0))))
            s = z3.simplify(z3.substitute(d, (j, z3.IntVal(1))) - r)
            if z3.is_int_value(s) and s.as_long() in (1, -1):
                return z3.simplify(-r if s.as_long() == 1 else r)
    return None


# ---------------------------------------------------------------- operations
def transpose(a):
    if a.nd == 1:
        return a
    to, back = a.to, a.back
    r = Nd(a.buf, (a.dims[1], a.dims[0]), lambda i, j: to(j, i), lambda *p: (lambda r: (r[0], (r[1][1], r[1][0])))(back(*p)))
    r.flip_of = a
    return r


def row(a, i):
    to, back = a.to, a.back
    return Nd(a.buf, (a.dims[1],), lambda j: to(i, j), lambda *p: (lambda r: (z3.And(r[0], r[1][0] == i), (r[1][1],)))(back(*p)))


def column(a, j):
    return row(transpose(a), j)


def segment(a, axis, lo, n):
    """The part of the array from position lo on, n long, along an axis."""
    to, back = a.to, a.back
    dims = list(a.dims)
    dims[axis] = n

    def to2(*p):
        p = list(p)
        p[axis] = z3.simplify(p[axis] + lo)
        return to(*p)

    def back2(*p):
        g, q = back(*p)
        q = list(q)
        g = z3.And(g, q[axis] >= lo, q[axis] < lo + n)
        q[axis] = z3.simplify(q[axis] - lo)
        return g, q
    return Nd(a.buf, dims, to2, back2)


def as_nd(ctx, v):
    """An array-like as an array (copying lists)."""
    if isinstance(v, Nd):
        return v
    if hasattr(v, "py_array"):
        return v.py_array(None, {})
    if isinstance(v, SSeq) and v.sort in (RealS, IntS, BoolS):
        arr = v.arr
        return make(ctx, (v.n,), lambda i: z3.Select(arr, i), {RealS: "float", IntS: "int", BoolS: "bool"}[v.sort])
    if isinstance(v, (PList, tuple)):
        items = v.items if isinstance(v, PList) else list(v)
        if all(isinstance(x, (Nd, SSeq)) for x in items) and items:
            rows = [as_nd(ctx, x) for x in items]
            n = rows[0].dims[0]
            if any(r.nd != 1 for r in rows):
                raise Unsupported("array of matrices")
            for r in rows[1:]:
                ctx.need(r.dims[0] == n, "ValueError")
            fs = [r.real_fn() for r in rows]

            def fn(i, j):
                t = fs[-1](j)
                for k in range(len(fs) - 2, -1, -1):
                    t = ite_(i == k, lambda: fs[k](j), lambda: t)
                return t
            return make(ctx, (len(rows), n), fn)
        if all(is_scalar(x) for x in items):
            ts = [term(x) for x in items]
            kind = "bool" if ts and all(t.sort() == BoolS for t in ts) else "int" if ts and all(t.sort() == IntS for t in ts) else "float"
            if kind == "float":
                ts = [to_real(t) for t in ts]

            def fn1(i):
                t = ts[-1]
                for k in range(len(ts) - 2, -1, -1):
                    t = z3.If(i == k, ts[k], t) if not z3.is_int_value(i) else (ts[k] if i.as_long() == k else t)
                return t
            return make(ctx, (len(ts),), fn1 if ts else (lambda i: z3.RealVal(0)), kind)
    if isinstance(v, Lazy) and isinstance(v.it, SeqIter):
        el = v.it.elem
        t = term(el(IDX[0]))
        return make(ctx, (v.it.n,), lambda i: term(el(i)), {"Real": "float", "Int": "int", "Bool": "bool"}[str(t.sort())])
    raise Unsupported(f"array from {v!r}")


def astype(a, name):
    f = a.frozen()
    if name == a.dt:
        return make(a.ctx, a.dims, f, a.dt, a.arr_term())
    if name == "float":
        return make(a.ctx, a.dims, lambda *p: to_real(f(*p)), "float")
    if name == "int" and a.dt == "bool":
        return make(a.ctx, a.dims, lambda *p: z3.If(f(*p), z3.IntVal(1), z3.IntVal(0)), "int")
    if name == "int" and a.dt == "float":
        tr0 = lambda t: z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        return make(a.ctx, a.dims, lambda *p: tr0(f(*p)), "int")
    raise Unsupported(f"astype {name}")


def pointwise(interp, args, f, dt=None):
    ctx = interp.ctx
    args = [a if is_scalar(a) else as_nd(ctx, a) if not isinstance(a, Masked) else a for a in args]
    nds = [a for a in args if isinstance(a, Nd)]
    nd = max(a.nd for a in nds)
    lead = [a for a in nds if a.nd == nd][0]
    for a in nds:
        for d, e in zip(reversed(lead.dims), reversed(a.dims)):
            if not ctx.branch(d == e):
                if ctx.branch(z3.Or(d == 1, e == 1)):
                    raise Unsupported("broadcasting a dimension of length 1")
                raise PyRaise("ValueError", "shapes", True)
    fs = []
    ints = all((isinstance(a, Nd) and a.dt == "int") or (not isinstance(a, Nd) and is_int(a)) for a in args)
    bools = all((isinstance(a, Nd) and a.dt == "bool") or (not isinstance(a, Nd) and (isinstance(a, bool) or isinstance(a, SV) and a.t.sort() == BoolS)) for a in args)
    conv = (lambda t: t) if ints or bools else to_real
    for a in args:
        if isinstance(a, Nd):
            fs.append((lambda g, k: lambda p: conv(g(*p[len(p) - k:])))(a.frozen(), a.nd))
        else:
            t = conv(term(a))
            fs.append((lambda t: lambda p: t)(t))
    fn = lambda *p: f(*[g(p) for g in fs])
    return make(ctx, lead.dims, fn, dt or ("int" if ints else "bool" if bools else "float"))


def matmul(interp, a, b):
    ctx = interp.ctx
    if not isinstance(a, Nd):
        a = as_nd(ctx, a)
    if not isinstance(b, Nd):
        b = as_nd(ctx, b)
    ctx.need(a.dims[-1] == b.dims[0], "ValueError")
    if a.dt != "float":
        a = astype(a, "float")
    if b.dt != "float":
        b = astype(b, "float")
    if a.nd == 1 and b.nd == 1:
        if "dot_hook" in ctx.ghost:
            ctx.ghost["dot_hook"](ctx, a.arr(), b.arr())
        return SV(la.dot(a.arr(), b.arr()))
    if a.nd == 2 and b.nd == 1:
        return of_term(ctx, la.mv(a.arr(), b.arr()), (a.dims[0],), zero=True)
    if a.nd == 1 and b.nd == 2:
        return of_term(ctx, la.mv(transpose(b).arr(), a.arr()), (b.dims[1],), zero=True)
    return of_term(ctx, la.mm(a.arr(), b.arr()), (a.dims[0], b.dims[1]), zero=True)


def quantify(ctx, dims, fn, exists=False):
    """For all (some) positions inside the bounds; patterns are the entries of named arrays."""
    p = [ctx.fresh("p", IntS) for _ in dims]
    body = z3.simplify(fn(*p))
    if z3.is_true(body) and not exists:
        return z3.BoolVal(True)
    g = inb(p, dims)
    if exists:
        return z3.Exists(p, z3.And(g, body))
    f = z3.Implies(g, body)
    pats = auto_patterns(f, p)
    return z3.ForAll(p, f, patterns=pats, qid="nd_all") if pats else z3.ForAll(p, f, qid="nd_all")


def auto_patterns(f, p):
    """Selects of arrays at the bound positions."""
    full, single = [], {i: [] for i in range(len(p))}
    seen, stack = set(), [f]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.sort() in (RealS, IntS, BoolS, Name) and clean(e):
            has = [B.contains_const(e, x) for x in p]
            if all(has):
                full.append(e)
            else:
                for i, h in enumerate(has):
                    if h and sum(has) == 1:
                        single[i].append(e)
        stack.extend(e.children())
    full.sort(key=lambda e: len(e.sexpr()))
    if full:
        return full[:4]
    if len(p) == 2 and single[0] and single[1]:
        return [z3.MultiPattern(single[0][0], single[1][0])]
    return []


def clean(e):
    """No boolean structure or arithmetic on bound positions inside."""
    if z3.is_app(e):
        if e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return False
        return all(clean(c) for c in e.children())
    return False


def all_any(interp, a, is_any):
    f = a.frozen()
    if a.dt != "bool":
        g = f
        f = lambda *p: g(*p) != 0
    return SV(quantify(a.ctx, a.dims, f, is_any))


# ---------------------------------------------------------------- indexing
class Where:
    """The positions where a mask over the first axis holds (np.where(mask) or the mask itself)."""

    def __init__(self, mask, n):
        self.mask, self.n = mask, n

    def py_getitem(self, interp, k):
        if k == 0:
            return self
        raise Unsupported("np.where")


class Masked:
    """Entries of an array at the positions of a mask, still indexed by the original positions."""

    def __init__(self, src, where, fn):
        self.src, self.where, self.fn = src, where, fn

    def py_inplace(self, interp, o, other):
        return self.py_binop(interp, o, other, False)

    def py_binop(self, interp, o, other, swapped):
        f = ARITH.get(o)
        if f is None or not is_scalar(other):
            raise Unsupported("masked arithmetic")
        t, g = real(other), self.fn
        return Masked(self.src, self.where, (lambda *p: f(t, g(*p))) if swapped else (lambda *p: f(g(*p), t)))

    def py_neg(self, interp):
        g = self.fn
        return Masked(self.src, self.where, lambda *p: -g(*p))


def norm_index(ctx, k, n):
    """A position that may be negative; IndexError outside."""
    t = term(k)
    if isinstance(k, int):
        if k < 0:
            ctx.need(z3.simplify(n >= -k), "IndexError")
            return z3.simplify(n + k)
        ctx.need(z3.simplify(t < n), "IndexError")
        return t
    ctx.need(z3.And(t < n, t >= -n), "IndexError")
    if ctx.holds(t >= 0):
        return t
    return z3.If(t >= 0, t, n + t)


def bounds(ctx, s, n):
    """(start, length) of a slice with step 1 over length n."""
    if s.step not in (None, 1):
        raise Unsupported("slice step")

    def one(v, default):
        if v is None:
            return default
        t = term(v)
        if not ctx.holds(t >= 0):
            t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), t)
            if ctx.holds(term(v) < 0):
                t = n + term(v) if ctx.holds(term(v) + n >= 0) else z3.If(term(v) + n < 0, z3.IntVal(0), term(v) + n)
        if not ctx.holds(t <= n):
            t = z3.If(t > n, n, t)
        return z3.simplify(t)
    lo, hi = one(s.lo, z3.IntVal(0)), one(s.hi, n)
    ln = z3.simplify(hi - lo)
    if not ctx.holds(ln >= 0):
        ln = z3.If(ln >= 0, ln, z3.IntVal(0))
    return lo, ln


def fancy(ctx, v, n):
    """An integer index list: (length, k -> position)."""
    if isinstance(v, Nd) and v.dt == "int" and v.nd == 1:
        m, f = v.dims[0], v.frozen()
    elif isinstance(v, SSeq) and v.sort == IntS:
        arr = v.arr
        m, f = v.n, (lambda k: z3.Select(arr, k))
    elif isinstance(v, PList):
        a = as_nd(ctx, v)
        m, f = a.dims[0], a.frozen()
        if not v.items:
            f = lambda k: z3.IntVal(0)
    elif isinstance(v, Lazy) and isinstance(v.it, SeqIter):
        el = v.it.elem
        m, f = v.it.n, (lambda k: term(el(k)))
    else:
        raise Unsupported(f"index {v!r}")
    p = IDX[0]
    ok = quantify(ctx, (m,), lambda k: z3.And(f(k) < n, f(k) >= -n))
    if not (ctx.holds(ok)):
        ctx.need(ok, "IndexError")
    if not ctx.holds(quantify(ctx, (m,), lambda k: f(k) >= 0)):
        g = f
        f = lambda k: z3.If(g(k) >= 0, g(k), g(k) + n)
    return m, f


def index_array(ctx, k, n):
    """The index list as a z3 array, when none of its positions is negative."""
    if isinstance(k, SSeq) and k.sort == IntS and ctx.holds(quantify(ctx, (k.n,), lambda p: z3.And(z3.Select(k.arr, p) >= 0, z3.Select(k.arr, p) < n))):
        return k.arr
    return None


def _on_sort(ctx, s, r):
    """Choosing columns in another order changes at most the sign of the determinant."""
    if s.sort == IntS and ctx.sub is None:
        M = z3.Const("M_", la.Mat)
        n = num(s.n)
        a, b = la.det(la.selc(M, s.arr, n), n), la.det(la.selc(M, r.arr, n), n)
        ctx.assume(z3.ForAll([M], z3.Or(a == b, a == -b), patterns=[la.selc(M, s.arr, n), la.selc(M, r.arr, n)], qid="nd_sorted"))


B.ON_SORT.append(_on_sort)


def is_mask(k):
    return isinstance(k, Where) or isinstance(k, Nd) and k.dt == "bool"


def as_where(k):
    return k if isinstance(k, Where) else Where(k.frozen(), k.dims[0])


def getitem(interp, a, key):
    ctx = interp.ctx
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if is_mask(key):
        if isinstance(key, Nd) and key.nd != 1:
            raise Unsupported("mask of two dimensions")
        w = as_where(key)
        ctx.need(w.n == a.dims[0], "IndexError")
        return Masked(a, w, a.frozen())
    if not isinstance(key, tuple):
        key = (key,) + (SliceV(None, None, None),) * (a.nd - 1)
    if len(key) != a.nd:
        raise PyRaise("IndexError", "", True) if len(key) > a.nd else Unsupported("index")
    if all(is_int(k) for k in key):
        return from_term(a.at(*[norm_index(ctx, k, d) for k, d in zip(key, a.dims)]))
    r, axis = a, 0
    lists = [k for k in key if not is_int(k) and not isinstance(k, SliceV)]
    if len(lists) > 1 or (lists and any(is_int(k) for k in key)):
        raise Unsupported("several index lists")
    for k in key:
        if is_int(k):
            p = norm_index(ctx, k, r.dims[axis])
            r = row(r, p) if axis == 0 else column(r, p)
        elif isinstance(k, SliceV):
            if not k.full():
                lo, ln = bounds(ctx, k, r.dims[axis])
                r = segment(r, axis, lo, ln)
            axis += 1
        else:
            m, f = fancy(ctx, k, r.dims[axis])
            r = take(ctx, r, axis, m, f, index_array(ctx, k, r.dims[axis]))
            axis += 1
    r.origin = (a, key)
    return r


def take(ctx, r, axis, m, f, arr=None):
    g, dims, ax = r.frozen(), list(r.dims), axis
    dims[ax] = m
    if arr is not None and r.dt == "float" and (r.nd == 1 or axis == 1) and ctx.sub is None:
        t = (la.selv if r.nd == 1 else la.selc)(r.arr(), arr, num(m))
        register(ctx, t, dims)
        return make(ctx, dims, lambda *p: g(*[f(x) if t_ == ax else x for t_, x in enumerate(p)]), r.dt, t)
    return make(ctx, dims, lambda *p: g(*[f(x) if t == ax else x for t, x in enumerate(p)]), r.dt)


def setitem(interp, a, key, v):
    ctx = interp.ctx
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if is_mask(key):
        w = as_where(key)
        ctx.need(w.n == a.dims[0], "IndexError")
        if isinstance(v, Masked):
            x = z3.Int("mask_")
            if v.where is not key and not z3.simplify(v.where.mask(x)).eq(z3.simplify(w.mask(x))):
                raise Unsupported("assignment through another mask")
            g = v.fn
            a.write(lambda *p: w.mask(p[0]), lambda *p: g(*p))
            return
        if is_scalar(v):
            t = coerce(a, v)
            a.write(lambda *p: w.mask(p[0]), lambda *p: t)
            return
        raise Unsupported("masked assignment")
    full = key if isinstance(key, tuple) else (key,) + (SliceV(None, None, None),) * (a.nd - 1)
    if len(full) != a.nd:
        raise PyRaise("IndexError", "", True)
    if isinstance(v, Nd) and v.buf is a.buf and v.origin is not None and v.origin[0] is a and same_key(v.origin[1], full):
        return  # the view written back to itself after an in-place operation
    if all(is_int(k) for k in full):
        pos = [norm_index(ctx, k, d) for k, d in zip(full, a.dims)]
        if isinstance(v, Nd):
            raise Unsupported("array as an entry")
        t = coerce(a, v)
        a.write(lambda *p: z3.And(*[x == y for x, y in zip(p, pos)]), lambda *p: t)
        return
    lists = [k for k in full if not is_int(k) and not isinstance(k, SliceV)]
    if not lists:
        r, axis = a, 0
        for k in full:
            if is_int(k):
                q = norm_index(ctx, k, r.dims[axis])
                r = row(r, q) if axis == 0 else column(r, q)
            else:
                if not k.full():
                    lo, ln = bounds(ctx, k, r.dims[axis])
                    r = segment(r, axis, lo, ln)
                axis += 1
        g = value_fn(ctx, a, v, r.dims)
        r.write(lambda *p: inb(p, r.dims), lambda *p: g(*p))
        return
    if a.nd == 1 and len(lists) == 1:
        m, f = fancy(ctx, full[0], a.dims[0])
        g = value_fn(ctx, a, v, (m,))
        # the last of several equal positions wins
        ctx.fresh_n += 1
        last = z3.Function(f"last!{ctx.fresh_n}", IntS, IntS)
        hit = z3.Function(f"hit!{ctx.fresh_n}", IntS, BoolS)
        k, j = z3.Ints("k_ j_")
        fk = f(k)
        pat = [fk] if B.pattern_ok(fk, k) else []
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(hit(fk), last(fk) >= k)), patterns=pat) if pat else
                   z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(hit(fk), last(fk) >= k))))
        ctx.assume(z3.ForAll([j], z3.Implies(hit(j), z3.And(0 <= last(j), last(j) < m, f(last(j)) == j)), patterns=[hit(j)]))
        a.write(lambda p: hit(p), lambda p: g(last(p)))
        return
    raise Unsupported("assignment through an index list")


def same_key(a, b):
    return len(a) == len(b) and all(x is y or (is_int(x) and is_int(y) and term(x).eq(term(y))) or
                                    (isinstance(x, SliceV) and isinstance(y, SliceV) and x.full() and y.full()) for x, y in zip(a, b))


def coerce(a, v):
    if isinstance(v, Obj) or v is None or isinstance(v, str):
        raise PyRaise("TypeError", "array entry", True)
    t = term(v)
    if a.dt == "float":
        return to_real(t)
    if t.sort() == SORTS[a.dt]:
        return t
    raise Unsupported("entry of another type")


def value_fn(ctx, a, v, dims):
    if is_scalar(v):
        t = coerce(a, v)
        return lambda *p: t
    w = as_nd(ctx, v)
    if w.nd > len(dims):
        raise PyRaise("ValueError", "shapes", True)
    for d, e in zip(reversed(dims), reversed(w.dims)):
        if not ctx.branch(d == e):
            if ctx.branch(e == 1):
                raise Unsupported("broadcasting a dimension of length 1")
            raise PyRaise("ValueError", "shapes", True)
    f = w.real_fn() if a.dt == "float" else w.frozen()
    k = w.nd
    return lambda *p: f(*p[len(p) - k:])


# ---------------------------------------------------------------- numpy functions
def stack(ctx, a, b, axis):
    """b after a along an axis (both of the same number of dimensions)."""
    for t in range(a.nd):
        if t != axis:
            ctx.need(a.dims[t] == b.dims[t], "ValueError")
    f, g = a.real_fn(), b.real_fn()
    if a.dt == b.dt:
        f, g = a.frozen(), b.frozen()
    n = a.dims[axis]
    dims = list(a.dims)
    dims[axis] = z3.simplify(n + b.dims[axis])

    def fn(*p):
        q = list(p)
        q[axis] = z3.simplify(p[axis] - n)
        return ite_(p[axis] < n, lambda: f(*p), lambda: g(*q))
    r = make(ctx, dims, fn, a.dt if a.dt == b.dt else "float")
    return r


class R_:
    py_type = "index"

    def py_getitem(self, interp, key):
        ctx = interp.ctx
        parts = key if isinstance(key, tuple) else (key,)
        nds = []
        for v in parts:
            if is_scalar(v):
                t = v
                nds.append(as_nd(ctx, PList(ctx, [t])))
            else:
                nds.append(as_nd(ctx, v))
        nd = max(x.nd for x in nds)
        out = nds[0]
        if any(x.nd != nd for x in nds):
            raise PyRaise("ValueError", "r_ dimensions", True)
        for x in nds[1:]:
            out = stack(ctx, out, x, 0)
        if len(nds) == 1:
            out = make(ctx, out.dims, out.frozen(), out.dt)
        return out


class C_:
    py_type = "index"

    def py_getitem(self, interp, key):
        ctx = interp.ctx
        parts = key if isinstance(key, tuple) else (key,)
        nds = []
        for v in parts:
            a = as_nd(ctx, PList(ctx, [v])) if is_scalar(v) else as_nd(ctx, v)
            if a.nd == 1:
                f = a.frozen()
                b = make(ctx, (a.dims[0], 1), (lambda f: lambda i, j: f(i))(f), a.dt)
                a = b
            nds.append(a)
        out = nds[0]
        for x in nds[1:]:
            if out.nd == 2 and x.nd == 2 and z3.is_int_value(z3.simplify(x.dims[1])) and z3.simplify(x.dims[1]).as_long() == 1 and out.dt == "float":
                ctx.need(out.dims[0] == x.dims[0], "ValueError")
                f = x.real_fn()
                out = insert_column(ctx, out, out.dims[1], (lambda f: lambda i: f(i, z3.IntVal(0)))(f))
            else:
                out = stack(ctx, out, x, 1)
        return out


def insert_column(ctx, a, t, g):
    """The matrix a with a column inserted at position t: its rows are rows of a with a component inserted."""
    f = a.real_fn()
    dims = (a.dims[0], z3.simplify(a.dims[1] + 1))
    r = make(ctx, dims, lambda i, j: ite_(j < t, lambda: f(i, j), lambda: ite_(j == t, lambda: g(i), lambda: f(i, j - 1))))
    if ctx.sub is None:
        src, R = a.arr(), r.arr()
        i = IDX[0]
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < dims[0]), z3.Select(R, i) == la.ins(z3.Select(src, i), t, g(i))), patterns=[z3.Select(R, i)], qid="nd_ins"))
    return r


def model(*names):
    return builtin(*["numpy." + n for n in names])


NUMPY_VALUES = {"r_": R_, "c_": C_}
_old_getattr = I.Interp.getattr


def _getattr(self, o, a):
    if isinstance(o, Ext) and o.path == "numpy" and a in NUMPY_VALUES:
        return NUMPY_VALUES[a]()
    return _old_getattr(self, o, a)


I.Interp.getattr = _getattr


def dims_of(interp, v):
    items = list(v) if isinstance(v, tuple) else v.items if isinstance(v, PList) else [v]
    out = []
    for x in items:
        if not is_int(x):
            raise Unsupported("shape")
        t = term(x)
        if not interp.ctx.holds(t >= 0):
            interp.ctx.need(t >= 0, "ValueError")
        out.append(t)
    return out


@model("zeros")
def np_zeros(interp, args, kw):
    return make(interp.ctx, dims_of(interp, args[0]), lambda *p: z3.RealVal(0))


@model("ones")
def np_ones(interp, args, kw):
    return make(interp.ctx, dims_of(interp, args[0]), lambda *p: z3.RealVal(1))


@model("full")
def np_full(interp, args, kw):
    t = real(args[1])
    return make(interp.ctx, dims_of(interp, args[0]), lambda *p: t)


@model("zeros_like")
def np_zeros_like(interp, args, kw):
    a = as_nd(interp.ctx, args[0])
    return make(interp.ctx, a.dims, lambda *p: z3.RealVal(0))


@model("empty")
def np_empty(interp, args, kw):
    return fresh(interp.ctx, "empty", dims_of(interp, args[0]))


@model("eye", "identity")
def np_eye(interp, args, kw):
    n = dims_of(interp, args[0])[0]
    t = la.eye(n)
    register(interp.ctx, t, (n, n))
    return make(interp.ctx, (n, n), lambda i, j: ite_(i == j, lambda: z3.RealVal(1), lambda: z3.RealVal(0)), "float", t)


@model("array", "asarray", "copy")
def np_array(interp, args, kw):
    v = args[0]
    if hasattr(v, "py_array"):
        return v.py_array(interp, kw)
    a = as_nd(interp.ctx, v)
    dt = dtype_name(kw["dtype"]) if "dtype" in kw else dtype_name(args[1]) if len(args) > 1 else None
    r = make(interp.ctx, a.dims, a.frozen(), a.dt, a.arr_term())
    return astype(r, dt) if dt else r


@model("where", "nonzero", "flatnonzero")
def np_where(interp, args, kw):
    if len(args) == 3:
        return pointwise(interp, args, None) if False else _where3(interp, args)
    a = args[0]
    if not isinstance(a, Nd) or a.dt != "bool" or a.nd != 1:
        raise Unsupported("np.where")
    return Where(a.frozen(), a.dims[0])


def _where3(interp, args):
    c, a, b = args
    if isinstance(c, SV):
        raise Unsupported("np.where of a scalar")
    fa = a.real_fn() if isinstance(a, Nd) else (lambda *p: real(a))
    fb = b.real_fn() if isinstance(b, Nd) else (lambda *p: real(b))
    g = c.frozen()
    for o in (a, b):
        if isinstance(o, Nd) and (o.nd != c.nd or not interp.ctx.holds(o.dims[0] == c.dims[0])):
            raise Unsupported("np.where shapes")
    return make(interp.ctx, c.dims, lambda *p: ite_(g(*p), lambda: fa(*p), lambda: fb(*p)))


def close(a, b):
    A = lambda t: z3.If(t >= 0, t, -t)
    return A(a - b) <= z3.Q(1, 10**8) + z3.Q(1, 10**5) * A(b)


@model("isclose")
def np_isclose(interp, args, kw):
    if kw or len(args) != 2:
        raise Unsupported("isclose with tolerances")
    a, b = args
    if is_scalar(a) and is_scalar(b):
        return SV(close(real(a), real(b)))
    return pointwise(interp, [a, b], close, "bool")


@model("allclose")
def np_allclose(interp, args, kw):
    r = np_isclose(interp, args, kw)
    return r if isinstance(r, SV) else all_any(interp, r, False)


@model("array_equal")
def np_array_equal(interp, args, kw):
    a, b = args
    a, b = as_nd(interp.ctx, a), as_nd(interp.ctx, b)
    if a.nd != b.nd:
        return False
    f, g = a.frozen(), b.frozen()
    if a.dt != b.dt:
        f, g = a.real_fn(), b.real_fn()
    return SV(z3.And(*[x == y for x, y in zip(a.dims, b.dims)], quantify(interp.ctx, a.dims, lambda *p: f(*p) == g(*p))))


def _logic(f):
    def m(interp, args, kw):
        if all(is_scalar(a) for a in args):
            ts = [term(a) for a in args]
            ts = [t if t.sort() == BoolS else t != 0 for t in ts]
            return from_term(z3.simplify(f(*ts)))
        return pointwise(interp, args, f, "bool")
    return m


I.BUILTINS["numpy.logical_or"] = _logic(lambda a, b: z3.Or(a, b))
I.BUILTINS["numpy.logical_and"] = _logic(lambda a, b: z3.And(a, b))
I.BUILTINS["numpy.logical_not"] = _logic(lambda a: z3.Not(a))


@model("all")
def np_all(interp, args, kw):
    if is_scalar(args[0]):
        return args[0]
    return all_any(interp, as_nd(interp.ctx, args[0]), False)


@model("any")
def np_any(interp, args, kw):
    if is_scalar(args[0]):
        return args[0]
    return all_any(interp, as_nd(interp.ctx, args[0]), True)


def _rounded(f):
    def m(interp, args, kw):
        if is_scalar(args[0]):
            return SV(z3.simplify(f(real(args[0]))), "float")
        return pointwise(interp, args, lambda a: f(to_real(a)))
    return m


I.BUILTINS["numpy.floor"] = _rounded(lambda a: z3.ToReal(z3.ToInt(a)))
I.BUILTINS["numpy.ceil"] = _rounded(lambda a: -z3.ToReal(z3.ToInt(-a)))


@model("abs", "absolute", "fabs")
def np_abs(interp, args, kw):
    return B.b_abs(interp, args, kw)


@model("dot", "matmul")
def np_dot(interp, args, kw):
    if any(is_scalar(a) for a in args):
        return interp.binop(I.ast.Mult(), *args)
    return matmul(interp, *args)


@model("transpose")
def np_transpose(interp, args, kw):
    return transpose(as_nd(interp.ctx, args[0]))


@model("insert")
def np_insert(interp, args, kw):
    ctx = interp.ctx
    a, k, v = args[0], args[1], args[2]
    axis = args[3] if len(args) > 3 else kw.get("axis")
    a = as_nd(ctx, a)
    if not is_int(k):
        raise Unsupported("np.insert at several positions")
    if a.nd == 2 and axis is None:
        raise Unsupported("flattening insert")
    ax = axis if a.nd == 2 else 0
    n = a.dims[ax]
    t = term(k)
    ctx.need(z3.And(t <= n, t >= -n), "IndexError")
    if not ctx.holds(t >= 0):
        t = z3.If(t < 0, t + n, t)
    f = a.real_fn()
    dims = list(a.dims)
    dims[ax] = z3.simplify(n + 1)
    if a.nd == 1:
        val = coerce(a, v)
        term_ = la.ins(a.arr(), t, val)
        return of_term(ctx, term_, dims, zero=True)
    g = value_fn(ctx, a, v, (a.dims[1 - ax],))
    if ax == 1:
        return insert_column(ctx, a, t, g)

    def fn(*p):
        o = p[1 - ax]
        q = list(p)
        q[ax] = p[ax] - 1
        return ite_(p[ax] < t, lambda: f(*p), lambda: ite_(p[ax] == t, lambda: g(o), lambda: f(*q)))
    return make(ctx, dims, fn)


@model("delete")
def np_delete(interp, args, kw):
    ctx = interp.ctx
    a = as_nd(ctx, args[0])
    k = args[1]
    axis = args[2] if len(args) > 2 else kw.get("axis")
    if not is_int(k) or (a.nd == 2 and axis is None):
        raise Unsupported("np.delete")
    ax = axis if a.nd == 2 else 0
    n = a.dims[ax]
    t = norm_index(ctx, k, n)
    f = a.frozen()
    dims = list(a.dims)
    dims[ax] = z3.simplify(n - 1)
    if a.nd == 1 and a.dt == "float":
        return of_term(ctx, la.rem(a.arr(), t), dims, zero=True)

    def fn(*p):
        q = list(p)
        q[ax] = p[ax] + 1
        return ite_(p[ax] < t, lambda: f(*p), lambda: f(*q))
    return make(ctx, dims, fn, a.dt)


@model("append", "concatenate", "hstack", "vstack", "column_stack")
def np_concat(interp, args, kw):
    raise Unsupported("concatenation")


@builtin("numpy.append")
def np_append(interp, args, kw):
    ctx = interp.ctx
    a, v = as_nd(ctx, args[0]), args[1]
    axis = args[2] if len(args) > 2 else kw.get("axis")
    b = as_nd(ctx, PList(ctx, [v])) if is_scalar(v) else as_nd(ctx, v)
    if axis is None and a.nd == 1 and b.nd == 1:
        return stack(ctx, a, b, 0)
    if axis in (0, 1) and a.nd == b.nd:
        return stack(ctx, a, b, axis)
    raise Unsupported("np.append")


@builtin("numpy.concatenate")
def np_concatenate(interp, args, kw):
    ctx = interp.ctx
    parts = args[0].items if isinstance(args[0], PList) else list(args[0])
    nds = [as_nd(ctx, v) for v in parts]
    axis = args[1] if len(args) > 1 else kw.get("axis", 0)
    if any(x.nd != nds[0].nd for x in nds):
        raise PyRaise("ValueError", "dimensions", True)
    out = nds[0]
    for x in nds[1:]:
        out = stack(ctx, out, x, axis)
    return out


def _stacker(axis):
    def m(interp, args, kw):
        ctx = interp.ctx
        parts = args[0].items if isinstance(args[0], PList) else list(args[0])
        nds = []
        for v in parts:
            a = as_nd(ctx, PList(ctx, [v]) if is_scalar(v) else v)  # atleast_1d
            if a.nd == 1 and axis == "v":
                f = a.frozen()
                a = make(ctx, (1, a.dims[0]), (lambda f: lambda i, j: f(j))(f), a.dt)
            elif a.nd == 1 and axis == "c":
                f = a.frozen()
                a = make(ctx, (a.dims[0], 1), (lambda f: lambda i, j: f(i))(f), a.dt)
            nds.append(a)
        if any(x.nd != nds[0].nd for x in nds):
            raise PyRaise("ValueError", "dimensions", True)
        ax = 0 if axis == "v" or nds[0].nd == 1 else 1
        out = nds[0]
        for x in nds[1:]:
            out = stack(ctx, out, x, ax)
        return out
    return m


I.BUILTINS["numpy.vstack"] = _stacker("v")
I.BUILTINS["numpy.hstack"] = _stacker("h")
I.BUILTINS["numpy.column_stack"] = _stacker("c")


@model("argmax")
def np_argmax(interp, args, kw):
    ctx = interp.ctx
    a = as_nd(ctx, args[0])
    if a.nd != 1 or kw or len(args) > 1:
        raise Unsupported("argmax")
    ctx.need(a.dims[0] > 0, "ValueError")
    k = ctx.fresh("argmax", IntS)
    f = a.frozen()
    ctx.ghost["argmax"] = (k, f)
    ctx.assume(z3.And(0 <= k, k < a.dims[0]))
    val = (lambda t: f(t)) if a.dt != "bool" else (lambda t: z3.If(f(t), z3.IntVal(1), z3.IntVal(0)))
    ctx.assume(quantify(ctx, a.dims, lambda p: z3.And(val(p) <= val(k), z3.Implies(p < k, val(p) < val(k)))))
    return SV(k)


@model("argmin")
def np_argmin(interp, args, kw):
    ctx = interp.ctx
    a = as_nd(ctx, args[0])
    if a.nd != 1 or kw or len(args) > 1 or a.dt == "bool":
        raise Unsupported("argmin")
    ctx.need(a.dims[0] > 0, "ValueError")
    k = ctx.fresh("argmin", IntS)
    f = a.frozen()
    ctx.assume(z3.And(0 <= k, k < a.dims[0]))
    ctx.assume(quantify(ctx, a.dims, lambda p: z3.And(f(p) >= f(k), z3.Implies(p < k, f(p) > f(k)))))
    return SV(k)


@model("issubdtype")
def np_issubdtype(interp, args, kw):
    d, c = args
    n = dtype_name(d)
    p = c.path.split(".")[-1] if isinstance(c, Ext) else None
    if p in ("number",):
        return n in ("float", "int")
    if p in ("floating", "inexact", "float64"):
        return n == "float"
    if p in ("integer", "signedinteger"):
        return n == "int"
    raise Unsupported("issubdtype")


def square_of(ctx, a):
    """The named content of a matrix that must be square."""
    if not isinstance(a, Nd):
        a = as_nd(ctx, a)
    if a.nd != 2:
        raise PyRaise("LinAlgError", "", True)
    ctx.need(a.dims[0] == a.dims[1], "LinAlgError")
    t = (a if a.dt == "float" else astype(a, "float")).arr()
    n = a.dims[0]
    ctx.assume(la.square(t, n))
    return t, n


@builtin("numpy.linalg.det")
def np_det(interp, args, kw):
    t, n = square_of(interp.ctx, args[0])
    return SV(la.det(t, n))


@builtin("numpy.linalg.inv")
def np_inv(interp, args, kw):
    t, n = square_of(interp.ctx, args[0])
    interp.ctx.need(la.det(t, n) != 0, "LinAlgError")
    return of_term(interp.ctx, la.inv(t, n), (n, n), zero=True)


@builtin("numpy.linalg.solve")
def np_solve(interp, args, kw):
    ctx = interp.ctx
    t, n = square_of(ctx, args[0])
    b = as_nd(ctx, args[1])
    ctx.need(b.dims[0] == n, "ValueError")
    ctx.need(la.det(t, n) != 0, "LinAlgError")
    if b.nd != 1:
        raise Unsupported("solve with several right-hand sides")
    ctx.ghost.setdefault("systems", []).append((t, n, b.arr()))
    return of_term(ctx, la.mv(la.inv(t, n), b.arr()), (n,), zero=True)


@builtin("numpy.linalg.norm")
def np_norm(interp, args, kw):
    a = as_nd(interp.ctx, args[0])
    if a.nd != 1 or kw or len(args) > 1:
        raise Unsupported("norm")
    t = la.norm(a.arr())
    interp.ctx.assume(t >= 0)
    interp.ctx.ghost.setdefault("normed", []).append(a.arr())
    return SV(t)
