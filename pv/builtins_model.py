"""Models of the built-in functions and container methods the program uses. Each states what CPython documents:
these are the trusted contracts on the language's own library."""
import z3
from core import *
import interp as I
from interp import builtin, method, SymIter, SeqIter, ConcIter, PList, SKIP, Unsupported, Lazy, Native, Opaque, Ext, CopySet


# ---------------------------------------------------------------- sums over sets
_sums = {}


def sum_fn(ks):
    """Sum over the (finite) set S of the map f."""
    if ks not in _sums:
        _sums[ks] = z3.Function(f"sum_{ks}", z3.ArraySort(ks, BoolS), z3.ArraySort(ks, RealS), RealS)
    return _sums[ks]


sumseq_fn = z3.Function("sum_seq", IntS, z3.ArraySort(IntS, RealS), RealS)


def sum_iter(interp, it):
    ctx = interp.ctx
    if isinstance(it, ConcIter):
        t = 0
        for x in it.items:
            t = interp.binop(I.ast.Add(), t, x)
        return t
    if isinstance(it, SymIter):
        k = ctx.fresh("k", it.ks)
        t = real(it.elem(k))
        S = it.S
        # canonical form: a filter of a named set is turned into a named characteristic function
        m = None
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(k) and not contains_const(t.arg(0), k):
            m = t.arg(0)
        if m is None:
            m = ctx.fresh("summand", z3.ArraySort(it.ks, RealS))
            q = z3.Const("q_", it.ks)
            ctx.assume(z3.ForAll([q], z3.Select(m, q) == z3.substitute(t, (k, q)), patterns=[z3.Select(m, q)]))
        r = sum_fn(it.ks)(S, m)
        ctx.ghost.setdefault("sums", []).append((it.ks, S, m))
        return SV(r)
    if isinstance(it, SeqIter):
        k = ctx.fresh("k", IntS)
        t = real(it.elem(k))
        m = ctx.fresh("summand", z3.ArraySort(IntS, RealS))
        q = z3.Const("q_", IntS)
        ctx.assume(z3.ForAll([q], z3.Select(m, q) == z3.substitute(t, (k, q)), patterns=[z3.Select(m, q)]))
        return SV(sumseq_fn(it.n, m))
    raise Unsupported("sum")


def contains_const(t, k):
    stack, seen = [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(k):
            return True
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    return False


@builtin("sum")
def b_sum(interp, args, kw):
    v = args[0]
    if hasattr(v, "py_sum"):
        return v.py_sum(interp)
    r = sum_iter(interp, interp.iterate(v))
    if len(args) > 1:
        r = interp.binop(I.ast.Add(), args[1], r)
    return r


@builtin("len")
def b_len(interp, args, kw):
    return interp.length(args[0])


@builtin("set", "frozenset")
def b_set(interp, args, kw):
    ctx = interp.ctx
    if not args:
        return HSet(ctx)
    v = args[0]
    if isinstance(v, HSet) and v.ks is not None:
        return HSet(ctx, v.ks, v.t)
    return interp.to_set(v)


@builtin("list")
def b_list(interp, args, kw):
    ctx = interp.ctx
    if not args:
        return PList(ctx, [])
    v = args[0]
    if isinstance(v, SSeq):
        return SSeq(ctx, v.n, v.arr, v.sort)
    return interp.to_list(v)


@builtin("tuple")
def b_tuple(interp, args, kw):
    if not args:
        return ()
    v = args[0]
    it = interp.iterate(v)
    if isinstance(it, ConcIter):
        return tuple(it.items)
    return interp.to_list(it)


@builtin("dict")
def b_dict(interp, args, kw):
    if kw:
        raise Unsupported("dict with keywords")
    if not args:
        return LazyDict(interp.ctx)
    v = args[0]
    if isinstance(v, (HDict, LazyDict)):
        return interp.call_method(v, "copy", [], {})
    return interp.to_dict(interp.iterate(v))


@builtin("sorted")
def b_sorted(interp, args, kw):
    ctx = interp.ctx
    v = args[0]
    key = kw.get("key")
    it = v if isinstance(v, SymIter) else interp.iterate(v)
    if isinstance(it, ConcIter):
        items = list(it.items)
        if key is not None:
            if not all(isinstance(interp.call(key, [x]), (int, float, str, Fraction)) for x in items):
                raise Unsupported("sorting by a symbolic key")
            return PList(ctx, sorted(items, key=lambda x: interp.call(key, [x]), reverse=bool(kw.get("reverse", False))))
        if kw.get("reverse"):
            raise Unsupported("reverse sort")
        return PList(ctx, sort_concrete(interp, items))
    if isinstance(it, SymIter) and it.identity:
        # some enumeration of the set; the order is not tracked
        return HSet(ctx, it.ks, it.S, kind="enum")
    if isinstance(v, SSeq) or isinstance(it, SeqIter):
        return sort_seq(interp, interp.to_list(it))
    raise Unsupported("sorted")


def sort_concrete(interp, items):
    out = []
    for x in items:
        pos = len(out)
        for j, y in enumerate(out):
            if interp.truth(interp.compare("Lt", x, y)):
                pos = j
                break
        out.insert(pos, x)
    return out


def sort_seq(interp, s):
    """A sorted rearrangement: a permutation of positions and the order of the results."""
    ctx = interp.ctx
    n = z3.simplify(s.n) if isinstance(s.n, z3.ExprRef) else z3.IntVal(s.n)
    cache = ctx.ghost.setdefault("sorted", {})
    hit = cache.get((s.arr.get_id(), n.get_id()))
    if hit is not None and s.sort in (IntS, RealS):
        r = SSeq(ctx, s.n, hit[0], s.sort)
        r.perm = hit[1]
        return r
    arr = ctx.fresh("sorted", s.arr.sort())
    ctx.fresh_n += 1
    p = z3.Function(f"perm!{ctx.fresh_n}", IntS, IntS)
    q = z3.Function(f"permi!{ctx.fresh_n}", IntS, IntS)
    i, j = z3.Ints("i_ j_")
    n = s.n
    # a permutation of all integers that is the identity outside the list: no guards, so instances do not multiply
    ctx.assume(z3.ForAll([i], z3.And(q(p(i)) == i, z3.Select(arr, i) == z3.Select(s.arr, p(i)), z3.And(0 <= i, i < n) == z3.And(0 <= p(i), p(i) < n)), patterns=[z3.Select(arr, i)], qid="sorted_perm"))
    ctx.assume(z3.ForAll([i], z3.And(p(q(i)) == i, z3.Select(arr, q(i)) == z3.Select(s.arr, i), z3.And(0 <= i, i < n) == z3.And(0 <= q(i), q(i) < n)), patterns=[z3.Select(s.arr, i)], qid="sorted_permi"))
    if s.sort in (IntS, RealS):
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(arr, i) <= z3.Select(arr, j)), patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))], qid="sorted_order"))
    elif s.sort == Name:
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(name_lt(z3.Select(arr, j), z3.Select(arr, i)))), patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))]))
    else:
        raise Unsupported("sorting")
    r = SSeq(ctx, n, arr, s.sort)
    r.perm = (p, q, s)
    if ctx.sub is None:
        cache[(s.arr.get_id(), z3.simplify(n).get_id() if isinstance(n, z3.ExprRef) else z3.IntVal(n).get_id())] = (arr, r.perm, s.arr, n)
    for f in ON_SORT:
        f(ctx, s, r)
    return r


ON_SORT = []


def minmax(interp, args, kw, small):
    ctx = interp.ctx
    if len(args) == 1:
        v = args[0]
        if hasattr(v, "py_minmax"):
            return v.py_minmax(interp, small)
        it = interp.iterate(v)
        if isinstance(it, ConcIter):
            args = it.items
            if not args:
                if "default" in kw:
                    return kw["default"]
                raise PyRaise("ValueError", "min/max of nothing", True)
        else:
            if "key" in kw:
                raise Unsupported("min with key")
            n = it.n if isinstance(it, SeqIter) else None
            if n is not None:
                nonempty, k, guard = n > 0, ctx.fresh("k", IntS), None
                guard = lambda q: z3.And(0 <= q, q < n)
                ks = IntS
            else:
                ks = it.ks
                k = ctx.fresh("k", ks)
                guard = lambda q: z3.Select(it.S, q)
                nonempty = z3.Not(it.S == z3.K(ks, z3.BoolVal(False)))
            if "default" in kw:
                raise Unsupported("min with default")
            ctx.need(nonempty, "ValueError")
            t = term(it.elem(k))
            if t.sort() not in (IntS, RealS):
                raise Unsupported("min of non numbers")
            m = ctx.fresh("m", t.sort())
            w = ctx.fresh("w", ks)
            q = z3.Const("q_", ks)
            tw, tq = z3.substitute(t, (k, w)), z3.substitute(t, (k, q))
            ctx.assume(z3.And(guard(w), m == tw))
            body = z3.Implies(guard(q), m <= tq if small else m >= tq)
            ctx.assume(z3.ForAll([q], body, patterns=[tq]) if pattern_ok(tq, q) else z3.ForAll([q], body))
            return SV(m)
    if kw:
        raise Unsupported("min/max keywords")
    v = args[0]
    for w in args[1:]:
        if isinstance(v, float) and v in (INF, -INF) or isinstance(w, float) and w in (INF, -INF):
            less = interp.compare("Lt", w, v) if small else interp.compare("Gt", w, v)
            v = w if less is True else v
            continue
        if not isinstance(v, SV) and not isinstance(w, SV):
            v = min(v, w) if small else max(v, w)
            continue
        ints = is_int(v) and is_int(w)
        x, y = (term(v), term(w)) if ints else (real(v), real(w))
        v = SV(z3.If(y < x, y, x) if small else z3.If(y > x, y, x))
    return v


def pattern_ok(t, q):
    return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and contains_const(t, q) and not has_interpreted(t)


def has_interpreted(t):
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
        return True
    return any(has_interpreted(c) for c in t.children())


@builtin("min")
def b_min(interp, args, kw):
    return minmax(interp, args, kw, True)


@builtin("max")
def b_max(interp, args, kw):
    return minmax(interp, args, kw, False)


def anyall(interp, args, is_any):
    ctx = interp.ctx
    it = interp.iterate(args[0])
    if isinstance(it, ConcIter):
        for x in it.items:
            if interp.truth(x) == is_any:
                return is_any
        return not is_any
    ks = it.ks if isinstance(it, SymIter) else IntS
    k = ctx.fresh("k", ks)
    g = z3.Select(it.S, k) if isinstance(it, SymIter) else z3.And(0 <= k, k < it.n)
    v = it.elem(k)
    t = term(v) if not isinstance(v, bool) else z3.BoolVal(v)
    if t.sort() in (IntS, RealS):
        t = t != 0
    if t.sort() != BoolS:
        raise Unsupported("any/all of non booleans")
    q = z3.Const("q_", ks)
    body = z3.substitute(z3.And(g, t) if is_any else z3.Implies(g, t), (k, q))
    return SV(z3.Exists([q], body) if is_any else z3.ForAll([q], body))


@builtin("any")
def b_any(interp, args, kw):
    return anyall(interp, args, True)


@builtin("all")
def b_all(interp, args, kw):
    return anyall(interp, args, False)


@builtin("filter")
def b_filter(interp, args, kw):
    f, v = args
    it = interp.iterate(v)

    def fn(x):
        ok = interp.truth(interp.call(f, [x]) if f is not None else x)
        return x if ok else SKIP
    return interp.map_iter(it, fn, True, ident=not isinstance(it, SeqIter))


@builtin("map")
def b_map(interp, args, kw):
    if len(args) != 2:
        raise Unsupported("map of several")
    f, v = args
    return interp.map_iter(interp.iterate(v), lambda x: interp.call(f, [x]), False)


@builtin("zip")
def b_zip(interp, args, kw):
    its = [interp.iterate(a) for a in args]
    if all(isinstance(i, ConcIter) for i in its):
        return ConcIter([tuple(x) for x in zip(*[i.items for i in its])])
    if all(isinstance(i, SeqIter) for i in its):
        n = its[0].n
        for i in its[1:]:
            n = z3.simplify(z3.If(i.n < n, i.n, n)) if not (isinstance(n, z3.ExprRef) and n.eq(i.n)) else n
        return SeqIter(n, lambda t: tuple(i.elem(t) for i in its))
    raise Unsupported("zip")


@builtin("enumerate")
def b_enumerate(interp, args, kw):
    it = interp.iterate(args[0])
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    if isinstance(it, ConcIter):
        return ConcIter([(interp.binop(I.ast.Add(), start, i) if not isinstance(start, int) else start + i, x) for i, x in enumerate(it.items)])
    if isinstance(it, SeqIter):
        s = term(start)
        return SeqIter(it.n, lambda t: (from_term(z3.simplify(t + s)), it.elem(t)))
    if isinstance(it, SymIter):
        # positions: an unknown bijection between the set and 0..card-1
        ctx = interp.ctx
        n = interp.card(it.ks, it.S)
        ctx.fresh_n += 1
        at = z3.Function(f"enum!{ctx.fresh_n}", IntS, it.ks)
        pos = z3.Function(f"enumi!{ctx.fresh_n}", it.ks, IntS)
        i, k = z3.Int("i_"), z3.Const("k_", it.ks)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(it.S, at(i)), pos(at(i)) == i)), patterns=[at(i)]))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.Select(it.S, k), z3.And(0 <= pos(k), pos(k) < n, at(pos(k)) == k)), patterns=[pos(k)]))
        s = term(start)
        r = SymIter(it.ks, it.S, lambda t: (from_term(z3.simplify(pos(t) + s)), it.elem(t)))
        r.enum = (n, at, pos)
        return r
    raise Unsupported("enumerate")


@builtin("range")
def b_range(interp, args, kw):
    lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
    step = args[2] if len(args) > 2 else 1
    if not (is_int(lo) and is_int(hi)):
        raise Unsupported("range of non integers")
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(step, int):
        return ConcIter(list(range(lo, hi, step)))
    if step not in (1, -1):
        raise Unsupported("range step")
    a, b = term(lo), term(hi)
    n = b - a if step == 1 else a - b
    n = z3.simplify(n)
    if not interp.ctx.holds(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    return SeqIter(n, lambda t: from_term(z3.simplify(a + t if step == 1 else a - t)))


@builtin("reversed")
def b_reversed(interp, args, kw):
    it = interp.iterate(args[0])
    if isinstance(it, ConcIter):
        return ConcIter(list(reversed(it.items)))
    if isinstance(it, SeqIter):
        return SeqIter(it.n, lambda t: it.elem(z3.simplify(it.n - 1 - t)))
    raise Unsupported("reversed")


def pytype(v):
    if v is None:
        return "NoneType"
    if isinstance(v, bool) or isinstance(v, SV) and v.t.sort() == BoolS:
        return "bool"
    if isinstance(v, SV):
        if v.tag:
            return v.tag
        return {"Int": "int", "Real": "number", "Name": "str", "Pair": "tuple"}[str(v.t.sort())]
    if isinstance(v, int):
        return "int"
    if isinstance(v, (Fraction, float)):
        return "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, HSet):
        return "list" if v.kind == "enum" else "set"
    if isinstance(v, (PDict, HDict, LazyDict)):
        return "dict"
    if isinstance(v, (PList, SSeq, Lazy)):
        return getattr(v, "kind", "list") if isinstance(v, SSeq) else "list"
    if isinstance(v, (I.PyFunc, I.Bound, Native)):
        return "function"
    if hasattr(v, "py_type"):
        return v.py_type
    return None


def isinstance_(interp, v, c):
    if isinstance(c, tuple):
        r = False
        for x in c:
            y = isinstance_(interp, v, x)
            if y is True:
                return True
            if y is not False:
                raise Unsupported("isinstance")
        return r
    if isinstance(v, Obj):
        if isinstance(c, I.PyClass):
            return v.cls.derives(c)
        return isinstance(c, Ext) and c.path == "object"
    if isinstance(c, I.PyClass):
        return False
    if not isinstance(c, Ext):
        raise Unsupported("isinstance")
    t = pytype(v)
    p = c.path
    if t is None:
        raise Unsupported(f"type of {v!r}")
    if p in ("int", "float") and t == "number":
        raise Unsupported("int or float")
    if p == "int":
        return t in ("int", "bool")
    if p in ("float", "str", "list", "tuple", "dict", "set", "bool"):
        return t == p
    if p == "numpy.ndarray":
        return t == "ndarray"
    if p in ("numbers.Number", "numbers.Real", "numbers.Complex"):
        return t in ("int", "float", "number", "bool")
    if p in ("typing.Callable", "collections.abc.Callable"):
        return t == "function"
    raise Unsupported(f"isinstance of {p}")


@builtin("isinstance")
def b_isinstance(interp, args, kw):
    v, c = args
    if isinstance(v, SV) and v.t.sort() == RealS and not v.tag and isinstance(c, tuple):
        ps = {x.path for x in c if isinstance(x, Ext)}
        if {"int", "float"} <= ps:
            return True
    return isinstance_(interp, v, c)


@builtin("type")
def b_type(interp, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        return v.cls
    t = pytype(v)
    if t is None or t == "number":
        if t == "number":
            return NumType(v)
        raise Unsupported(f"type of {v!r}")
    return Ext("numpy.ndarray" if t == "ndarray" else t)


class NumType:
    """The type of a number that is an int or a float."""

    def __init__(self, v):
        self.v = v

    def py_compare(self, interp, o, other, swapped):
        if isinstance(other, Ext):
            if other.path in ("int", "float"):
                raise Unsupported("int or float")
            return o in ("NotEq", "IsNot")
        if isinstance(other, (PList, tuple)) and o in ("In", "NotIn"):
            return self.py_in(other) == (o == "In")
        raise Unsupported("type comparison")

    def py_in(self, c):
        ps = {x.path for x in (c.items if isinstance(c, PList) else c) if isinstance(x, Ext)}
        if {"int", "float"} <= ps:
            return True
        if not ps & {"int", "float"}:
            return False
        raise Unsupported("int or float")


@builtin("callable")
def b_callable(interp, args, kw):
    return isinstance(args[0], (I.PyFunc, I.Bound, Native, I.PyClass, I.BMethod))


@builtin("hasattr")
def b_hasattr(interp, args, kw):
    v, a = args
    if isinstance(v, Obj):
        return a in v.attrs or v.cls.lookup(a)[0] is not None
    t = pytype(v)
    table = {"list": list, "set": set, "dict": dict, "str": str, "tuple": tuple, "int": int, "float": float, "number": float, "bool": bool}
    if t in table:
        return hasattr(table[t], a)
    raise Unsupported("hasattr")


@builtin("abs", "math.fabs")
def b_abs(interp, args, kw):
    v = args[0]
    if hasattr(v, "py_abs"):
        return v.py_abs(interp)
    if isinstance(v, SV):
        return SV(z3.If(v.t >= 0, v.t, -v.t), v.tag)
    if is_num(v):
        return abs(v)
    raise Unsupported("abs")


@builtin("int")
def b_int(interp, args, kw):
    v = args[0]
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, (Fraction,)):
        return int(v)
    if isinstance(v, SV):
        if v.t.sort() == IntS:
            return v
        if v.t.sort() == RealS:  # truncation
            return SV(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.t.sort() == BoolS:
            return SV(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if v.tag == "digits":
            import text
            return SV(text.whole_of(v.t))
    raise Unsupported("int()")


@builtin("float")
def b_float(interp, args, kw):
    v = args[0]
    if isinstance(v, SV) and v.t.sort() in (IntS, RealS):
        return SV(real(v), "float")
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, str) and v in ("inf", "-inf"):
        return INF if v == "inf" else -INF
    if isinstance(v, SV) and v.tag in ("decimal", "digits", "signed"):
        import text
        return SV(text.number_of(v.t), "float")
    raise Unsupported("float()")


@builtin("bool")
def b_bool(interp, args, kw):
    v = args[0]
    if isinstance(v, SV) and v.t.sort() == BoolS:
        return v
    return interp.truth(v)


@builtin("str", "repr")
def b_str(interp, args, kw):
    if args and isinstance(args[0], str):
        return args[0]
    return Opaque("text")


@builtin("print")
def b_print(interp, args, kw):
    return None


@builtin("iter")
def b_iter(interp, args, kw):
    return interp.iterate(args[0])


@builtin("next")
def b_next(interp, args, kw):
    it = args[0]
    ctx = interp.ctx
    if not isinstance(it, (ConcIter, SymIter, SeqIter)):
        raise Unsupported("next")
    if isinstance(it, ConcIter):
        if not it.items:
            if len(args) > 1:
                return args[1]
            raise PyRaise("StopIteration", "", True)
        return it.items[0]
    some = it.n > 0 if isinstance(it, SeqIter) else z3.Not(it.S == z3.K(it.ks, z3.BoolVal(False)))
    if len(args) > 1:
        if not ctx.branch(some):
            return args[1]
    else:
        ctx.need(some, "StopIteration")
    if isinstance(it, SeqIter):
        v = it.elem(z3.IntVal(0))
        if isinstance(v, SV):  # a name of its own
            x = ctx.fresh("first", v.t.sort())
            ctx.assume(x == v.t)
            ctx.ghost["first"] = x
            return SV(x, v.tag)
        return v
    x = ctx.fresh("first", it.ks)
    ctx.assume(z3.Select(it.S, x))
    return it.elem(x)


@builtin("dict.fromkeys")
def b_fromkeys(interp, args, kw):
    v = args[1] if len(args) > 1 else None
    return interp.to_dict(interp.map_iter(interp.iterate(args[0]), lambda k: (k, v), False))


@builtin("math.floor")
def b_floor(interp, args, kw):
    v = args[0]
    if isinstance(v, SV):
        return v if v.t.sort() == IntS else SV(z3.ToInt(v.t))
    import math
    return math.floor(v)


@builtin("math.ceil")
def b_ceil(interp, args, kw):
    v = args[0]
    if isinstance(v, SV):
        return v if v.t.sort() == IntS else SV(-z3.ToInt(-v.t))
    import math
    return math.ceil(v)


@builtin("math.trunc")
def b_trunc(interp, args, kw):
    return b_int(interp, args, kw)


@builtin("math.isinf")
def b_isinf(interp, args, kw):
    return isinstance(args[0], float) and args[0] in (INF, -INF)


@builtin("math.isclose")
def b_isclose(interp, args, kw):
    if kw or len(args) != 2:
        raise Unsupported("isclose with tolerances")
    a, b = real(args[0]), real(args[1])
    A = lambda t: z3.If(t >= 0, t, -t)
    m = z3.If(A(a) >= A(b), A(a), A(b))
    return SV(A(a - b) <= z3.Q(1, 10**9) * m)


@builtin("copy.copy", "copy.deepcopy")
def b_copy(interp, args, kw):
    v = args[0]
    if isinstance(v, (HDict, HSet, PList, SSeq, LazyDict)):
        if isinstance(v, HDict) and isinstance(v.vk, tuple):
            raise Unsupported("deep copy")
        return interp.call_method(v, "copy", [], {})
    if hasattr(v, "py_method"):
        return v.py_method(interp, "copy", [], {})
    raise Unsupported("copy")


@builtin("random.shuffle")
def b_shuffle(interp, args, kw):
    if isinstance(args[0], HSet) and args[0].kind == "enum":
        return None
    raise Unsupported("shuffle")


# ---------------------------------------------------------------- sets
def as_set(interp, v):
    """The (sort, characteristic array) of an iterable of scalars; (None, None) when it is empty and untyped."""
    if isinstance(v, HSet):
        return v.ks, (None if v.ks is None else v.t)
    if isinstance(v, LazyDict):
        v = v.real
        if v is None:
            return None, None
    if isinstance(v, HDict):
        return v.ks, v.dom
    s = interp.to_set(interp.iterate(v))
    return s.ks, (None if s.ks is None else s.t)


def setop(interp, a, b, op):
    """A fresh named array for the pointwise combination."""
    ks, t = as_set(interp, b)
    ctx = interp.ctx
    if a.ks is None and ks is None:
        return None, None
    if a.ks is None:
        a.fix(ks)
    if ks is None:
        t = z3.K(a.ks, z3.BoolVal(False))
        ks = a.ks
    if ks != a.ks:
        raise Unsupported("sets of different kinds")
    r = ctx.fresh("set", z3.ArraySort(ks, BoolS))
    q = z3.Const("q_", ks)
    x, y = z3.Select(a.t, q), z3.Select(t, q)
    f = {"or": z3.Or(x, y), "and": z3.And(x, y), "minus": z3.And(x, z3.Not(y)), "xor": z3.Xor(x, y)}[op]
    body = z3.Select(r, q) == f
    ctx.assume(z3.ForAll([q], body, patterns=[z3.Select(r, q)]))
    for p in (a.t, t):
        if I.can_pattern(p):
            ctx.assume(z3.ForAll([q], body, patterns=[z3.Select(p, q)]))
    return ks, r


@method("HSet", "add")
def set_add(interp, s, x):
    if s.kind != "set":
        raise PyRaise("AttributeError", "add", True)
    interp.set_add(s, x)


@method("HSet", "append")
def enum_append(interp, s, x):
    raise Unsupported("append to an enumeration")


@method("HSet", "remove")
def set_remove(interp, s, x):
    if s.ks is None:
        raise PyRaise("KeyError", "", True)
    t = as_sort(x, s.ks)
    interp.ctx.need(z3.Select(s.t, t), "KeyError" if s.kind == "set" else "ValueError")
    s.t = z3.Store(s.t, t, z3.BoolVal(False))


@method("HSet", "discard")
def set_discard(interp, s, x):
    if s.ks is not None:
        s.t = z3.Store(s.t, as_sort(x, s.ks), z3.BoolVal(False))


@method("HSet", "copy")
def set_copy(interp, s):
    return HSet(interp.ctx, s.ks, s.t if s.ks is not None else None, kind=s.kind)


@method("HSet", "clear")
def set_clear(interp, s):
    if s.ks is not None:
        s.t = z3.K(s.ks, z3.BoolVal(False))


@method("HSet", "pop")
def set_pop(interp, s):
    ctx = interp.ctx
    if s.ks is None:
        raise PyRaise("KeyError", "", True)
    ctx.need(z3.Not(s.t == z3.K(s.ks, z3.BoolVal(False))), "KeyError")
    x = ctx.fresh("popped", s.ks)
    ctx.assume(z3.Select(s.t, x))
    s.t = z3.Store(s.t, x, z3.BoolVal(False))
    return from_term(x)


def _binary(op):
    def f(interp, s, *others):
        r = s
        for o in others:
            ks, t = setop(interp, r, o, op)
            r = HSet(interp.ctx, ks, t)
        return r if others else set_copy(interp, s)
    return f


METHODS = I.METHODS
METHODS[("HSet", "difference")] = _binary("minus")
METHODS[("HSet", "union")] = _binary("or")
METHODS[("HSet", "intersection")] = _binary("and")
METHODS[("HSet", "symmetric_difference")] = _binary("xor")


def _update(op):
    def f(interp, s, *others):
        for o in others:
            ks, t = setop(interp, s, o, op)
            if ks is not None:
                s.t = t
    return f


METHODS[("HSet", "update")] = _update("or")
METHODS[("HSet", "difference_update")] = _update("minus")
METHODS[("HSet", "intersection_update")] = _update("and")


@method("HSet", "issubset")
def set_issubset(interp, s, o):
    ks, t = as_set(interp, o)
    if s.ks is None:
        return True
    q = z3.Const("q_", s.ks)
    if ks is None:
        return SV(s.t == z3.K(s.ks, z3.BoolVal(False)))
    return SV(z3.ForAll([q], z3.Implies(z3.Select(s.t, q), z3.Select(t, q)), patterns=[z3.Select(s.t, q)]))


@method("HSet", "isdisjoint")
def set_isdisjoint(interp, s, o):
    ks, t = as_set(interp, o)
    if s.ks is None or ks is None:
        return True
    q = z3.Const("q_", s.ks)
    return SV(z3.ForAll([q], z3.Not(z3.And(z3.Select(s.t, q), z3.Select(t, q)))))


@method("HSet", "sort")
def enum_sort(interp, s, key=None, reverse=False):
    if s.kind != "enum":
        raise PyRaise("AttributeError", "sort", True)


# ---------------------------------------------------------------- dicts
@method("HDict", "get")
def dict_get(interp, d, k, default=None):
    ctx = interp.ctx
    if k is None:
        return default
    t = as_sort(k, d.ks)
    has = z3.Select(d.dom, t)
    if default is None or not is_num(default):
        if ctx.branch(has):
            return d.get(k)
        return default
    v = d.get(k)
    if isinstance(v, SV) and v.t.sort() == RealS:
        return from_term(z3.If(has, v.t, real(default)))
    if isinstance(v, SV) and v.t.sort() == IntS and is_int(default):
        return from_term(z3.If(has, v.t, term(default)))
    if ctx.branch(has):
        return v
    return default


@method("HDict", "setdefault")
def dict_setdefault(interp, d, k, default=None):
    ctx = interp.ctx
    t = as_sort(k, d.ks)
    if ctx.branch(z3.Select(d.dom, t)):
        return d.get(k)
    interp.setitem(d, k, default)
    return d.get(k)


@method("HDict", "items")
def dict_items(interp, d):
    val = d.val
    return SymIter(d.ks, d.dom, lambda k: (from_term(k), d.wrap(z3.Select(val, k))))


@method("HDict", "keys")
def dict_keys(interp, d):
    return KeysView(d)


class KeysView:
    def __init__(self, d):
        self.d = d

    def py_iter(self, interp):
        return interp.iterate(self.d)

    def py_len(self, interp):
        return interp.length(self.d)

    def py_contains(self, interp, x):
        return interp.contains(self.d, x)


@method("HDict", "values")
def dict_values(interp, d):
    val = d.val
    return SymIter(d.ks, d.dom, lambda k: d.wrap(z3.Select(val, k)))


@method("HDict", "copy")
def dict_copy(interp, d):
    return HDict(interp.ctx, d.ks, d.vk, d.dom, d.val)


@method("HDict", "pop")
def dict_pop(interp, d, k, *default):
    t = as_sort(k, d.ks)
    if default:
        if not interp.ctx.branch(z3.Select(d.dom, t)):
            return default[0]
    else:
        interp.ctx.need(z3.Select(d.dom, t), "KeyError")
    v = d.get(k)
    d.put(z3.Store(d.dom, t, z3.BoolVal(False)), d.val)
    return v


@method("HDict", "clear")
def dict_clear(interp, d):
    d.put(z3.K(d.ks, z3.BoolVal(False)), d.val)


@method("HDict", "update")
def dict_update(interp, d, o):
    ctx = interp.ctx
    if isinstance(o, LazyDict):
        if o.real is None:
            return
        o = o.real
    if not isinstance(o, HDict) or (o.ks, o.vk) != (d.ks, d.vk) or isinstance(d.vk, tuple):
        raise Unsupported("dict.update")
    dom, val = ctx.fresh("dom", d.dom.sort()), ctx.fresh("val", d.val.sort())
    q = z3.Const("q_", d.ks)
    for p in (dom, val):
        ctx.assume(z3.ForAll([q], z3.And(z3.Select(dom, q) == z3.Or(z3.Select(d.dom, q), z3.Select(o.dom, q)),
                                         z3.Select(val, q) == z3.If(z3.Select(o.dom, q), z3.Select(o.val, q), z3.Select(d.val, q))), patterns=[z3.Select(p, q)]))
    d.put(dom, val)


@method("PDict", "get")
def pdict_get(interp, d, k, default=None):
    if isinstance(k, str):
        return d.items.get(k, default)
    raise Unsupported("PDict.get")


@method("PDict", "copy")
def pdict_copy(interp, d):
    return PDict(interp.ctx, d.items)


@method("PDict", "items")
def pdict_items(interp, d):
    return ConcIter(list(d.items.items()))


@method("PDict", "keys")
def pdict_keys(interp, d):
    return ConcIter(list(d.items.keys()))


@method("PDict", "values")
def pdict_values(interp, d):
    return ConcIter(list(d.items.values()))


# ---------------------------------------------------------------- lists
@method("PList", "append")
def l_append(interp, l, x):
    l.items.append(x)
    l.touch()


@method("PList", "extend")
def l_extend(interp, l, v):
    it = interp.iterate(v)
    if not isinstance(it, ConcIter):
        q = v if isinstance(v, SSeq) else interp.to_list(it)
        if not isinstance(q, SSeq):
            raise Unsupported("extending by a symbolic list")
        r = interp.concat(l, q)
        l.__class__, l.sort, l.kind = SSeq, q.sort, "list"
        l.n, l.arr = r.n, r.arr
        l.touch()
        return
    l.items.extend(it.items)
    l.touch()


@method("PList", "insert")
def l_insert(interp, l, i, x):
    if not isinstance(i, int):
        raise Unsupported("insert")
    l.items.insert(i, x)
    l.touch()


@method("PList", "copy")
def l_copy(interp, l):
    return PList(interp.ctx, l.items)


@method("PList", "pop")
def l_pop(interp, l, i=-1):
    if not l.items:
        raise PyRaise("IndexError", "", True)
    l.touch()
    return l.items.pop(i)


@method("PList", "popleft")
def l_popleft(interp, l):
    return l_pop(interp, l, 0)


@method("PList", "index")
def l_index(interp, l, x):
    for i, y in enumerate(l.items):
        if interp.truth(interp.equal(x, y)):
            return i
    raise PyRaise("ValueError", "index", True)


@method("PList", "remove")
def l_remove(interp, l, x):
    i = l_index(interp, l, x)
    del l.items[i]
    l.touch()


@method("PList", "reverse")
def l_reverse(interp, l):
    l.items.reverse()
    l.touch()


@method("PList", "sort")
def l_sort(interp, l, key=None, reverse=False):
    if key is not None or reverse:
        raise Unsupported("sort with key")
    l.items = sort_concrete(interp, l.items)
    l.touch()


@method("SSeq", "append")
def s_append(interp, s, x):
    n = s.n
    s.arr = z3.Store(s.arr, n, as_sort(x, s.sort))
    s.n = z3.simplify(n + 1)
    s.touch()


@method("SSeq", "extend")
def s_extend(interp, s, other):
    r = interp.concat(SSeq(interp.ctx, s.n, s.arr, s.sort), other if isinstance(other, (SSeq, PList)) else interp.to_list(other))
    s.n, s.arr = r.n, r.arr
    s.touch()


@method("SSeq", "copy")
def s_copy(interp, s):
    return SSeq(interp.ctx, s.n, s.arr, s.sort)


@method("SSeq", "sort")
def s_sort(interp, s, key=None, reverse=False):
    if key is not None or reverse:
        raise Unsupported("sort with key")
    r = sort_seq(interp, SSeq(interp.ctx, s.n, s.arr, s.sort))
    s.arr = r.arr
    s.perm = r.perm
    s.touch()


@method("SSeq", "remove")
def s_remove(interp, s, x):
    """The first occurrence goes, the entries behind it move up."""
    ctx = interp.ctx
    x = as_sort(x, s.sort)
    arr, n = s.arr, s.n
    p = ctx.fresh("removed", IntS)
    i = z3.Int("i_")
    here = z3.And(0 <= p, p < n, z3.Select(arr, p) == x)
    ctx.assume(z3.Or(here, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr, i) != x), patterns=[z3.Select(arr, i)])))
    ctx.need(here, "ValueError")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), z3.Select(arr, i) != x), patterns=[z3.Select(arr, i)]))
    new = ctx.fresh("shorter", arr.sort())
    ctx.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(i < p, z3.Select(arr, i), z3.Select(arr, i + 1)), patterns=[z3.Select(new, i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(i != p, z3.Select(new, z3.If(i < p, i, i - 1)) == z3.Select(arr, i)), patterns=[z3.Select(arr, i)]))
    s.arr, s.n = new, z3.simplify(n - 1)
    s.touch()


@method("SSeq", "tolist")
def s_tolist(interp, s):
    return s_copy(interp, s)


@method("SVName", "join")
def n_join(interp, s, x):
    return Opaque("text")


@builtin("numpy.ndarray", "typing.Union")
def _never(interp, args, kw):
    raise Unsupported("constructor")


# ---------------------------------------------------------------- bags: deques and lists whose order is not tracked
_bags = {}


class Bag(HObj):
    """A deque or list known by how often each element occurs (cnt), its length n and its first element."""

    def __init__(self, ctx, ks=None, cnt=None, n=None, first=None, kind="deque"):
        HObj.__init__(self, ctx)
        self.ks, self.cnt, self.n, self.first, self.kind = ks, cnt, n, first, kind
        self.py_type = kind

    def fix(self, ks):
        if self.ks is None:
            self.ks = ks
            self.cnt = z3.K(ks, z3.IntVal(0))
            self.n = z3.IntVal(0)
            self.first = self.ctx.fresh("first", ks)
        elif self.ks != ks:
            raise Unsupported("bag of mixed kinds")

    def facts(self):
        """Counts are not negative; the length is zero exactly when nothing occurs."""
        ctx = self.ctx
        q = z3.Const("q_", self.ks)
        w = ctx.fresh("w", self.ks)
        ctx.assume(z3.ForAll([q], z3.Select(self.cnt, q) >= 0, patterns=[z3.Select(self.cnt, q)]))
        ctx.assume(z3.And(self.n >= 0, z3.Implies(self.n > 0, z3.Select(self.cnt, w) > 0)))
        ctx.assume(z3.Implies(self.n > 0, z3.Select(self.cnt, self.first) > 0))
        ctx.assume(z3.ForAll([q], z3.Implies(z3.Select(self.cnt, q) > 0, self.n > 0), patterns=[z3.Select(self.cnt, q)]))

    def py_havoc(self, interp):
        ctx = self.ctx
        if self.ks is None:
            self.fix(Name)
        self.cnt, self.n = ctx.fresh("cnt", self.cnt.sort()), ctx.fresh("n", IntS)
        self.first = ctx.fresh("first", self.ks)
        self.touch()
        self.facts()

    def py_len(self, interp):
        return 0 if self.ks is None else from_term(z3.simplify(self.n))

    def py_truth(self, interp):
        return False if self.ks is None else interp.ctx.branch(self.n > 0)

    def py_contains(self, interp, x):
        if self.ks is None:
            return False
        return SV(z3.Select(self.cnt, as_sort(x, self.ks)) > 0)

    def add(self, x):
        t = term(x)
        self.fix(t.sort())
        self.first = z3.If(self.n == 0, t, self.first)
        self.cnt = z3.Store(self.cnt, t, z3.Select(self.cnt, t) + 1)
        self.n = self.n + 1
        self.touch()

    def py_getitem(self, interp, k):
        if k == 0 and self.ks is not None:
            interp.ctx.need(self.n > 0, "IndexError")
            return from_term(self.first)
        raise Unsupported("bag element")

    def py_iter(self, interp):
        raise Unsupported("iteration over a bag")

    def py_method(self, interp, name, args, kw):
        ctx = self.ctx
        if kw:
            raise Unsupported("keywords")
        if name in ("append", "appendleft"):
            if name == "appendleft":
                f = term(args[0])
                self.add(args[0])
                self.first = f
            else:
                self.add(args[0])
            return None
        if name in ("popleft", "pop"):
            if self.ks is None:
                raise PyRaise("IndexError", "", True)
            if args:
                raise Unsupported("pop from a position")
            ctx.need(self.n > 0, "IndexError")
            x = self.first if name == "popleft" else ctx.fresh("last", self.ks)
            ctx.assume(z3.Select(self.cnt, x) > 0)
            self.cnt = z3.Store(self.cnt, x, z3.Select(self.cnt, x) - 1)
            self.n = self.n - 1
            self.first = ctx.fresh("first", self.ks)
            self.touch()
            self.facts()
            return from_term(x)
        if name in ("extend", "extendleft"):
            v = args[0]
            if isinstance(v, HSet) and v.ks is None:
                return None
            it = v if isinstance(v, SymIter) else interp.iterate(v)
            if isinstance(it, ConcIter):
                for x in it.items:
                    self.add(x)
                return None
            if not (isinstance(it, SymIter) and it.identity):
                raise Unsupported("extending a bag")
            self.fix(it.ks)
            old, oldn, oldf = self.cnt, self.n, self.first
            self.cnt, self.n = ctx.fresh("cnt", old.sort()), ctx.fresh("n", IntS)
            q = z3.Const("q_", self.ks)
            body = z3.Select(self.cnt, q) == z3.Select(old, q) + z3.If(z3.Select(it.S, q), z3.IntVal(1), z3.IntVal(0))
            ctx.assume(z3.ForAll([q], body, patterns=[z3.Select(self.cnt, q)]))
            ctx.assume(z3.ForAll([q], body, patterns=[z3.Select(old, q)]))
            if I.can_pattern(it.S):
                ctx.assume(z3.ForAll([q], body, patterns=[z3.Select(it.S, q)]))
            ctx.assume(self.n == oldn + interp.card(it.ks, it.S))
            self.first = ctx.fresh("first", self.ks)
            ctx.assume(z3.Implies(oldn > 0, self.first == oldf) if name == "extend" else z3.BoolVal(True))
            self.touch()
            self.facts()
            return None
        if name == "copy":
            b = Bag(ctx, self.ks, self.cnt, self.n, self.first, self.kind)
            return b
        if name == "clear":
            if self.ks is not None:
                self.cnt, self.n = z3.K(self.ks, z3.IntVal(0)), z3.IntVal(0)
                self.touch()
            return None
        raise Unsupported(f"{self.kind}.{name}")


@builtin("collections.deque")
def b_deque(interp, args, kw):
    b = Bag(interp.ctx)
    if args:
        b.py_method(interp, "extend", [args[0]], {})
    return b
