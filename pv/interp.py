"""The Python subset: evaluation of the real ASTs of /repo over symbolic state."""
import ast
import os
from fractions import Fraction
import z3
from core import *
from prints import loop_numbers

BUILTINS = {}


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


class PyClass:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods, self.bases, self.kinds = {}, [], {}

    def __repr__(self):
        return f"<class {self.name}>"

    def lookup(self, name):
        if name in self.methods:
            return self.methods[name], self
        for b in self.bases:
            if isinstance(b, PyClass):
                r = b.lookup(name)
                if r[0] is not None:
                    return r
        return None, None

    def kind(self, name):
        m, c = self.lookup(name)
        return c.kinds.get(name) if c else None

    def derives(self, other):
        return self is other or any(isinstance(b, PyClass) and b.derives(other) for b in self.bases)


class PyFunc:
    def __init__(self, node, module, cls=None, closure=None, name=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = name or getattr(node, "name", "<lambda>")
        self.qual = f"{cls.name}.{self.name}" if cls else self.name

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Ext:
    """Something external, known by its dotted path."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<{self.path}>"


class Opaque:
    """A value the proof never looks into (formatted text and the like)."""

    def __init__(self, what):
        self.what = what


class BMethod:
    """A method of a built-in type bound to a value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Native:
    """A Python callable of the verifier, callable from the program."""

    def __init__(self, fn, name="native"):
        self.fn, self.name = fn, name


class SymIter:
    """Iteration, in unknown order and once each, over keys k with S[k]; elem(k) is the element."""

    def __init__(self, ks, S, elem, identity=False):
        self.ks, self.S, self.elem, self.identity = ks, S, elem, identity


class SeqIter:
    """Iteration over positions 0..n-1; elem(i) for a term i."""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


class ConcIter:
    def __init__(self, items):
        self.items = items


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Module:
    def __init__(self, name, path):
        self.name, self.path, self.env = name, path, {}


class Program:
    """All modules of the package under verification, parsed from the working tree."""

    def __init__(self, root, package="pytimize"):
        self.root, self.package = root, package
        self.modules, self.classes, self.functions = {}, {}, {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split("."))
        path = os.path.join(base, "__init__.py") if os.path.isdir(base) else base + ".py"
        if not os.path.exists(path):
            return None
        m = Module(name, path)
        m.is_pkg = os.path.isdir(base)
        self.modules[name] = m
        tree = ast.parse(open(path).read(), path)
        for st in tree.body:
            self.top(m, st)
        return m

    def top(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                m.env[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            if st.level:
                parts = m.name.split(".")
                parts = parts[:len(parts) - st.level + (1 if m.is_pkg else 0)]
                target = ".".join(parts + ([st.module] if st.module else []))
            else:
                target = st.module
            for a in st.names:
                nm = a.asname or a.name
                if target.split(".")[0] == self.package:
                    src = self.module(target)
                    if src is not None and a.name in src.env:
                        m.env[nm] = src.env[a.name]
                    else:
                        sm = self.module(target + "." + a.name)
                        m.env[nm] = sm if sm else Ext(target + "." + a.name)
                else:
                    m.env[nm] = Ext(f"{target}.{a.name}")
        elif isinstance(st, ast.FunctionDef):
            f = PyFunc(st, m)
            m.env[st.name] = f
            self.functions[f.qual] = f
        elif isinstance(st, ast.ClassDef):
            c = PyClass(st.name, m, st)
            for b in st.bases:
                if isinstance(b, ast.Name) and b.id in m.env:
                    c.bases.append(m.env[b.id])
                elif isinstance(b, ast.Name):
                    c.bases.append(b.id)
            c.meta = None
            for kw in st.keywords:
                if kw.arg == "metaclass" and isinstance(kw.value, ast.Name):
                    c.meta = m.env.get(kw.value.id)
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    kind = None
                    nm = s.name
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
                            kind = d.id
                        else:
                            kind = "decorated"
                    f = PyFunc(s, m, c)
                    c.methods[nm] = f
                    c.kinds[nm] = kind
                    self.functions[f.qual] = f
            m.env[st.name] = c
            self.classes[st.name] = c
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    m.env[t.id] = Ext(f"{m.name}.{t.id}")


class LoopSpec:
    """Invariant of one loop. inv(L) -> [(name, formula)]; enter(L) runs once before the loop (ghost state,
    types), mods(L) lists heap objects the loop may change, types gives the sorts of assigned locals, havoc(L) may
    replace further state, last(L) lists what an iteration that ends the loop with break may change too, step(L) runs at the end of each iteration before the invariant is checked, done(L) after
    the loop."""

    def __init__(self, inv, enter=None, mods=None, types=None, havoc=None, step=None, head=None, done=None, kind=None, begin=None, last=None):
        self.inv, self.enter, self.mods, self.types = inv, enter, mods, types or {}
        self.havoc, self.step, self.head, self.done, self.kind, self.begin = havoc, step, head, done, kind, begin
        self.last = last


class L:
    """What a loop specification sees: locals by name, ghosts, the iteration state."""

    def __init__(self, ctx, frame):
        self.ctx, self.frame, self.g = ctx, frame, frame.ghost

    def __getitem__(self, n):
        if n not in self.frame.vars:
            raise Unsupported(f"the loop contract refers to a variable {n!r} that does not exist")
        v = self.frame.vars[n]
        if isinstance(v, LazyDict) and v.real is not None:
            return v.real
        return v

    def has(self, n):
        return n in self.frame.vars

    def __setitem__(self, n, v):
        self.frame.vars[n] = v


class Frame:
    def __init__(self, func, vars_, closure=None):
        self.func, self.vars, self.closure, self.ghost = func, vars_, closure, {}
        self.loop_ids = None


POISON = object()


class Interp:
    def __init__(self, ctx, program, loops=None, contracts=None, models=None):
        self.ctx, self.program = ctx, program
        self.loops, self.contracts, self.models = loops or {}, contracts or {}, models or {}
        self.frames = []

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, PyClass):
            return self.construct(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, BMethod):
            return self.call_method(f.obj, f.name, args, kw)
        if isinstance(f, Ext):
            m = self.models.get(f.path) or BUILTINS.get(f.path)
            if m is None:
                raise Unsupported(f"call of {f.path}")
            return m(self, args, kw)
        if isinstance(f, Obj):
            m, c = f.cls.lookup("__call__")
            if m:
                return self.call_func(m, [f] + args, kw)
        raise Unsupported(f"call of {f!r}")

    def construct(self, cls, args, kw):
        q = cls.name + ".__init__"
        if any(isinstance(b, Ext) or isinstance(b, str) for b in cls.bases) and not any(isinstance(b, PyClass) for b in cls.bases) \
                and cls.bases not in ([], ["object"]):
            raise Unsupported(f"instances of {cls.name}")
        o = Obj(self.ctx, cls)
        init, _ = cls.lookup("__init__")
        if init:
            self.call_func(init, [o] + args, kw)
        return o

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None and not getattr(c, "off", False):
            return c.apply(self, self.bind(f, args, kw))
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        return self.run_body(f, self.bind(f, args, kw))

    def run_body(self, f, vars_):
        self.ctx.result.functions.add(f.qual)
        fr = Frame(f, vars_, f.closure)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            fr.loop_ids = loop_numbers(f.node, f.qual)
            gen = is_generator(f.node)
            outer_y = self.ctx.yields
            if gen:
                self.ctx.yields = self.ctx.ghost.get("yield_factory", lambda: PList(self.ctx, []))()
            try:
                self.block(f.node.body)
                r = None
            except _Return as e:
                r = e.v
            if gen:
                r, self.ctx.yields = self.ctx.yields, outer_y
            return r
        finally:
            self.frames.pop()

    def bind(self, f, args, kw):
        a = f.node.args
        if a.kwonlyargs or a.kwarg or a.posonlyargs:
            raise Unsupported("signature of " + f.qual)
        names = [x.arg for x in a.args]
        vars_ = {}
        if a.vararg:
            rest = args[len(names):]
            vars_[a.vararg.arg] = rest[0] if len(rest) == 1 and getattr(rest[0], "star", False) else tuple(rest)  # `star`: any number of arguments
            args = args[:len(names)]
        if len(args) > len(names):
            raise PyRaise("TypeError", f"arguments of {f.qual}", True)
        for n, v in zip(names, args):
            vars_[n] = v
        for n, v in kw.items():
            if n not in names or n in vars_:
                raise PyRaise("TypeError", f"arguments of {f.qual}", True)
            vars_[n] = v
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in vars_:
                k = i - (len(names) - nd)
                if k < 0:
                    raise PyRaise("TypeError", f"missing argument {n} of {f.qual}", True)
                self.frames.append(Frame(f, {}, f.closure))
                try:
                    d = a.defaults[k]
                    if not isinstance(d, (ast.Constant, ast.UnaryOp, ast.Name, ast.Attribute)):
                        raise Unsupported("mutable default argument")
                    vars_[n] = self.eval(d)
                finally:
                    self.frames.pop()
        return vars_

    def run(self, obj, method, *args, **kw):
        """Run a method of the program as the subject of a unit: ('ok', value) or ('raise', PyRaise)."""
        try:
            f = self.getattr(obj, method) if not isinstance(obj, PyFunc) else obj
            return Outcome(value=self.call_raw(f, args, kw))
        except PyRaise as e:
            return Outcome(exc=e)

    def call_raw(self, f, args, kw):
        """Call the body even if the function has a contract."""
        if isinstance(f, Bound):
            return self.call_raw(f.func, [f.self_] + list(args), kw)
        if isinstance(f, PyFunc):
            return self.run_body(f, self.bind(f, list(args), kw))
        return self.call(f, args, kw)

    # ------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    @property
    def fr(self):
        return self.frames[-1]

    def stmt(self, st):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        try:
            return m(st)
        except PyRaise as e:
            if not e.where or e.where.isalnum():
                e.where = f"{e.where} {self.fr.func.qual}:{st.lineno}".strip()
            raise

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            v = self.eval(st.value.value)
            if isinstance(st.value, ast.YieldFrom):
                y = self.ctx.yields
                if isinstance(y, PList) and not y.items:
                    self.ctx.yields = self.to_list(v)
                    return
                if hasattr(y, "py_method"):
                    y.py_method(self, "extend", [v], {})
                    return
                raise Unsupported("yield from after a yield")
            self.call_method(self.ctx.yields, "append", [v], {})
            return
        self.eval(st.value)

    def st_Pass(self, st):
        pass

    def st_Import(self, st):
        for a in st.names:
            self.fr.vars[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])

    def st_Global(self, st):
        raise Unsupported("global")

    def st_FunctionDef(self, st):
        self.fr.vars[st.name] = PyFunc(st, self.fr.func.module, None, self.fr)

    def st_Return(self, st):
        raise _Return(self.eval(st.value) if st.value else None)

    def st_Break(self, st):
        raise _Break()

    def st_Continue(self, st):
        raise _Continue()

    def st_Assert(self, st):
        if not self.truth(self.eval(st.test)):
            raise PyRaise("AssertionError", str(st.lineno))

    def st_Raise(self, st):
        e = st.exc
        if e is None:
            raise Unsupported("re-raise")
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Attribute):
            raise PyRaise(e.attr, f"{self.fr.func.qual}:{st.lineno}")
        if isinstance(e, ast.Name):
            raise PyRaise(e.id, f"{self.fr.func.qual}:{st.lineno}")
        raise Unsupported("raise")

    def st_Try(self, st):
        try:
            self.block(st.body)
        except PyRaise as e:
            for h in st.handlers:
                names = [None] if h.type is None else [x for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts)]
                for n in names:
                    nm = None if n is None else n.id if isinstance(n, ast.Name) else n.attr
                    if nm is None or exc_matches(e.kind, nm):
                        if h.name:
                            self.fr.vars[h.name] = Opaque("exception")
                        self.block(h.body)
                        self.block(st.finalbody)
                        return
            self.block(st.finalbody)
            raise
        except (_Return, _Break, _Continue):
            self.block(st.finalbody)
            raise
        else:
            self.block(st.orelse)
            self.block(st.finalbody)

    def st_If(self, st):
        if self.truth(self.eval(st.test)):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval(t.slice))
            elif isinstance(t, ast.Name):
                self.fr.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def st_AugAssign(self, st):
        t = st.target
        op = st.op
        if isinstance(t, ast.Name):
            cur = self.load(t.id)
            self.fr.vars[t.id] = self.inplace(op, cur, self.eval(st.value))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, self.mangle(t.attr))
            self.setattr(o, self.mangle(t.attr), self.inplace(op, cur, self.eval(st.value)))
        elif isinstance(t, ast.Subscript):
            o, k = self.eval(t.value), self.index(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.eval(st.value)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            self.call_method(cur, "extend", [v], {})
            return cur
        if isinstance(cur, Obj):
            nm = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(type(op).__name__)
            if nm and cur.cls.lookup(nm)[0]:
                return self.call(self.getattr(cur, nm), [v])
        m = getattr(cur, "py_inplace", None)
        if m:
            return m(self, type(op).__name__, v)
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.index(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PList):
            items = list(v.items)
        elif isinstance(v, SV) and v.t.sort() == Pair:
            items = [from_term(sel_pair(v.t, 0)), from_term(sel_pair(v.t, 1))]
        else:
            raise Unsupported(f"unpacking {v!r}")
        if len(items) != n:
            raise PyRaise("ValueError", "unpack", True)
        return items

    # ------------------------------------------------------------ loops
    def loop_spec(self, st):
        q = self.fr.func.qual
        k = self.fr.loop_ids.get(id(st)) if self.fr.loop_ids else None
        return self.loops.get((q, k)), (q, k)

    def st_For(self, st):
        it = self.iterate(self.eval(st.iter))
        if isinstance(it, ConcIter):
            try:
                for x in list(it.items):
                    self.assign(st.target, x)
                    try:
                        self.block(st.body)
                    except _Continue:
                        pass
            except _Break:
                return
            self.block(st.orelse)
            return
        spec, key = self.loop_spec(st)
        if spec is None:
            raise Unsupported(f"loop {key[1]} of {key[0]} has no invariant")
        if spec.kind and spec.kind != "for":
            raise Unsupported(f"loop {key[1]} of {key[0]} is not the loop the contract was written for")
        self.cut_loop(st, spec, key, it)

    def st_While(self, st):
        spec, key = self.loop_spec(st)
        if spec is None:
            # concrete loops may be unrolled
            n = 0
            try:
                while True:
                    c = self.eval(st.test)
                    if isinstance(c, SV):
                        raise Unsupported(f"loop {key[1]} of {key[0]} has no invariant")
                    if not self.truth(c):
                        break
                    n += 1
                    if n > 50:
                        raise Unsupported("unrolling")
                    try:
                        self.block(st.body)
                    except _Continue:
                        pass
            except _Break:
                return
            self.block(st.orelse)
            return
        if spec.kind and spec.kind != "while":
            raise Unsupported(f"loop {key[1]} of {key[0]} is not the loop the contract was written for")
        self.cut_loop(st, spec, key, None)

    def cut_loop(self, st, spec, key, it):
        ctx, fr = self.ctx, self.fr
        tag = f"{key[0]}#loop{key[1]}"
        lv = L(ctx, fr)
        lv.it = it
        lv.interp = self
        if isinstance(it, SymIter):
            lv.S = it.S
            lv.done = z3.K(it.ks, z3.BoolVal(False))
        elif isinstance(it, SeqIter):
            lv.n = it.n
            lv.i = z3.IntVal(0)
        if spec.enter:
            spec.enter(lv)
        for n, f in spec.inv(lv):
            ctx.ensure(f"{tag}: {n} holds on entry", f)
        iterate = ctx.choose(2) == 0
        # ---- havoc
        names = assigned(st)
        pre_mods = spec.mods(lv) if spec.mods else []
        for n in sorted(names):
            if n in spec.types:
                fr.vars[n] = self.fresh_of(n, spec.types[n], fr.vars.get(n))
            elif n in fr.vars:
                fr.vars[n] = self.fresh_like(n, fr.vars[n])
        for o in pre_mods:
            self.havoc_obj(o)
        if ctx.yields is not None and contains_yield(st):
            self.havoc_obj(ctx.yields)
        p2 = ctx.fresh("heap_ptr", IntS)
        ctx.assume(p2 >= ctx.ptr)
        ctx.ptr = p2
        if isinstance(it, SymIter):
            if iterate:
                lv.done = ctx.fresh("done", z3.ArraySort(it.ks, BoolS))
                k = z3.Const("k_", it.ks)
                ctx.assume(z3.ForAll([k], z3.Implies(z3.Select(lv.done, k), z3.Select(it.S, k)), patterns=[z3.Select(lv.done, k)]))
            else:
                lv.done = it.S
        elif isinstance(it, SeqIter):
            if iterate:
                lv.i = ctx.fresh("i", IntS)
                ctx.assume(lv.i >= 0)
                ctx.assume(lv.i < it.n)
            else:
                lv.i = z3.If(it.n >= 0, it.n, z3.IntVal(0))
        if spec.havoc:
            spec.havoc(lv)
            if spec.mods:
                pre_mods = list(pre_mods) + list(spec.mods(lv))
        for n, f in spec.inv(lv):
            ctx.assume(f)
        serial0, mut0 = ctx.serial, len(ctx.mutlog)
        if spec.head:
            spec.head(lv)
        if it is None:
            c = self.truth(self.eval(st.test))
            if c != iterate:
                raise PathEnd()
        if not iterate:
            if not any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(st)):
                ctx.reach(f"{tag} exit")
            if spec.done:
                spec.done(lv)
            self.block(st.orelse)
            return
        ctx.reach(f"{tag} body")
        if isinstance(it, SymIter):
            x = ctx.fresh("x", it.ks)
            lv.x = x
            ctx.assume(z3.Select(it.S, x))
            ctx.assume(z3.Not(z3.Select(lv.done, x)))
            self.assign(st.target, it.elem(x))
        elif isinstance(it, SeqIter):
            self.assign(st.target, it.elem(lv.i))
        if spec.begin:
            spec.begin(lv)
        try:
            self.block(st.body)
        except _Continue:
            pass
        except _Break:
            self.frame_check(pre_mods + (spec.last(lv) if spec.last else []), serial0, mut0, tag)
            return
        self.frame_check(pre_mods, serial0, mut0, tag)
        if isinstance(it, SymIter):
            lv.done = z3.Store(lv.done, lv.x, z3.BoolVal(True))
        elif isinstance(it, SeqIter):
            lv.i = lv.i + 1
        if spec.step:
            spec.step(lv)
        for n, f in spec.inv(lv):
            ctx.ensure(f"{tag}: {n} is preserved", f)
        ctx.reach(f"{tag} end of body")
        raise PathEnd()

    def frame_check(self, mods, serial0, mut0, tag):
        ok_ids = set()
        stores = set()
        attrs = set()
        for o in mods:
            if isinstance(o, tuple) and o[0] == "store":
                stores.add(o[1])
            elif isinstance(o, tuple) and o[0] == "attr":
                attrs.add((id(o[1]), o[2]))
            else:
                ok_ids.add(id(o))
                ok_ids.add(id(getattr(o, "buf", o)))
                if isinstance(o, LazyDict) and o.real is not None:
                    ok_ids.add(id(o.real))
                if getattr(o, "handle", None) is not None:
                    pass
        for o, part in self.ctx.mutlog[mut0:]:
            if isinstance(o, str):
                if part not in stores:
                    raise Unsupported(f"{tag} changes nested containers its contract does not mention")
            elif o.serial <= serial0 and id(o) not in ok_ids and (id(o), part) not in attrs and o is not self.ctx.yields:
                raise Unsupported(f"{tag} changes an object its contract does not mention ({o!r} {part})")

    def fresh_like(self, n, v):
        ctx = self.ctx
        if isinstance(v, SV):
            return SV(ctx.fresh(n, v.t.sort()), v.tag)
        if isinstance(v, bool):
            return SV(ctx.fresh(n, BoolS))
        if isinstance(v, int):
            return SV(ctx.fresh(n, IntS))
        if isinstance(v, Fraction):
            return SV(ctx.fresh(n, RealS))
        if isinstance(v, str):
            return SV(ctx.fresh(n, Name))
        if isinstance(v, tuple):
            return tuple(self.fresh_like(n, x) for x in v)
        if v is POISON:
            return POISON
        return POISON  # read before being assigned in the loop: unsupported, detected on use

    def fresh_of(self, n, ty, old):
        """ty: a z3 sort, ('opt', ty), ('inf', sort), 'same', or a callable (interp, old) -> value."""
        if callable(ty) and not isinstance(ty, z3.SortRef):
            return ty(self, old)
        if isinstance(ty, tuple) and ty[0] == "opt":
            return None if self.ctx.choose(2) == 1 else self.fresh_of(n, ty[1], old)
        if isinstance(ty, tuple) and ty[0] == "inf":
            return INF if self.ctx.choose(2) == 1 else self.fresh_of(n, ty[1], old)
        if isinstance(ty, str) and ty == "same":
            return old
        if ty == Pair:
            return from_term(self.ctx.fresh(n, Pair))
        return SV(self.ctx.fresh(n, ty))

    def havoc_obj(self, o):
        ctx = self.ctx
        if isinstance(o, tuple) and o[0] == "store":
            cur = ctx.stores.get(o[1])
            if cur is None:
                raise Unsupported(f"store {o[1]} unknown")
            ctx.stores[o[1]] = ctx.fresh("store", cur.sort())
            return
        if isinstance(o, tuple) and o[0] == "attr":
            o[1].attrs[o[2]] = self.fresh_like(o[2], o[1].attrs[o[2]])
            return
        if isinstance(o, LazyDict):
            o = o.real
        if isinstance(o, HSet):
            o.t = ctx.fresh("set", o.t.sort())
        elif isinstance(o, HDict):
            o.put(ctx.fresh("dom", o.dom.sort()), ctx.fresh("val", o.val.sort()))
        elif isinstance(o, SSeq):
            o.n, o.arr = ctx.fresh("len", IntS), ctx.fresh("seq", o.arr.sort())
            ctx.assume(o.n >= 0)
        elif hasattr(o, "py_havoc"):
            o.py_havoc(self)
        elif isinstance(o, PList):
            raise Unsupported("a list of concrete length changes in a loop")
        elif o is not None:
            raise Unsupported(f"havoc of {o!r}")

    # ------------------------------------------------------------ names
    def load(self, n):
        fr = self.fr
        while fr is not None:
            if n in fr.vars:
                v = fr.vars[n]
                if v is POISON:
                    raise Unsupported(f"variable {n!r} carries unspecified state across loop iterations")
                return v
            fr = fr.closure
        env = self.fr.func.module.env
        if n in env:
            return env[n]
        if n in self.models or n in BUILTINS:
            return Ext(n)
        if n in ("str", "int", "float", "bool", "set", "list", "dict", "tuple", "object", "type", "frozenset"):
            return Ext(n)
        if n in assigned(self.fr.func.node) if not isinstance(self.fr.func.node, ast.Lambda) else False:
            raise PyRaise("UnboundLocalError", n, True)
        raise Unsupported(f"name {n}")

    def mangle(self, attr):
        f = self.fr.func
        fr = self.fr
        cls = f.cls
        while cls is None and fr.closure is not None:
            fr = fr.closure
            cls = fr.func.cls
        if attr.startswith("__") and not attr.endswith("__") and cls:
            return f"_{cls.name.lstrip('_')}{attr}"
        return attr

    def getattr(self, o, a):
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            m, c = o.cls.lookup(a)
            if m is None and a.startswith("_") and "__" in a[1:]:
                for k in self.mro(o.cls):
                    pre = f"_{k.name.lstrip('_')}__"
                    if a.startswith(pre):
                        m, c = k.methods.get("__" + a[len(pre):]), k
                        if m:
                            a = "__" + a[len(pre):]
                            break
            if m is not None:
                kind = c.kinds.get(a)
                if kind == "property":
                    return self.call_func(m, [o], {})
                if kind == "staticmethod":
                    return m
                if kind in ("classmethod", "decorated"):
                    raise Unsupported(f"decorated method {a}")
                return Bound(m, o)
            g, _ = o.cls.lookup("__getattr__")
            if g:
                return self.call_func(g, [o, a], {})
            raise PyRaise("AttributeError", a, True)
        if isinstance(o, PyClass):
            m, c = o.lookup(a)
            if m is not None:
                return m
            raise Unsupported(f"class attribute {a}")
        if isinstance(o, Module):
            if a in o.env:
                return o.env[a]
        if isinstance(o, Ext):
            if o.path == "math" and a == "inf":
                return INF
            return Ext(o.path + "." + a)
        if hasattr(o, "py_getattr"):
            return o.py_getattr(self, a)
        return BMethod(o, a)

    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            if isinstance(b, PyClass):
                out += self.mro(b)
        return out

    def setattr(self, o, a, v):
        if not isinstance(o, Obj):
            raise Unsupported("attribute assignment")
        o.attrs[a] = v
        o.touch(a)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return INF if v == INF else Fraction(repr(v))
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            raise Unsupported("constant")
        return v

    def ex_Name(self, e):
        return self.load(e.id)

    def ex_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, self.mangle(e.attr))

    def ex_Tuple(self, e):
        return tuple(self.elements(e.elts))

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value))
                if not isinstance(it, ConcIter):
                    raise Unsupported("star of symbolic length")
                out += it.items
            else:
                out.append(self.eval(x))
        return out

    def ex_List(self, e):
        return PList(self.ctx, self.elements(e.elts))

    def ex_Set(self, e):
        items = self.elements(e.elts)
        s = HSet(self.ctx)
        for x in items:
            self.set_add(s, x)
        return s

    def ex_Dict(self, e):
        if not e.keys:
            return LazyDict(self.ctx)
        d = LazyDict(self.ctx)
        ks = [self.eval(k) if k is not None else None for k in e.keys]
        vs = [self.eval(v) for v in e.values]
        if all(isinstance(k, str) for k in ks) and not all(isinstance(v, SV) for v in vs) and not all(is_num(v) for v in vs):
            return PDict(self.ctx, zip(ks, vs))
        for k, v in zip(ks, vs):
            self.setitem(d, k, v)
        return d

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None and v.conversion == -1:
                    parts.append(str(x))
                else:
                    return Opaque("text")
        return "".join(parts)

    def ex_Lambda(self, e):
        return PyFunc(e, self.fr.func.module, self.fr.func.cls, self.fr, "<lambda>")

    def ex_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)

    def ex_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def ex_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.eval(x)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, SV) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, SV) and v.t.sort() == BoolS) else True
        return v

    def ex_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SV) and v.t.sort() == BoolS:
                return from_term(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            if isinstance(v, Obj):
                return self.call(self.getattr(v, "__pos__"), [])
            return v
        raise Unsupported("operator ~")

    def neg(self, v):
        if isinstance(v, SV):
            return SV(-v.t, v.tag)
        if isinstance(v, Obj):
            return self.call(self.getattr(v, "__neg__"), [])
        if hasattr(v, "py_neg"):
            return v.py_neg(self)
        if isinstance(v, (int, Fraction, float)):
            return -v
        raise Unsupported(f"negation of {v!r}")

    def ex_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def concat(self, a, b):
        """The list a + b when one of them has a symbolic length."""
        ctx = self.ctx
        so = a.sort if isinstance(a, SSeq) else b.sort

        def parts(v):
            if isinstance(v, SSeq):
                if v.sort != so or getattr(v, "kind", "list") != "list":
                    raise Unsupported("joining lists of different kinds")
                return v.n, (lambda i: z3.Select(v.arr, i))
            arr = ctx.fresh("items", z3.ArraySort(IntS, so))
            for k, x in enumerate(v.items):
                arr = z3.Store(arr, k, as_sort(x, so))
            return z3.IntVal(len(v.items)), (lambda i: z3.Select(arr, i))
        (n, f), (m, g) = parts(a), parts(b)
        arr, i = ctx.fresh("joined", z3.ArraySort(IntS, so)), z3.Int("i_")
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n + m), z3.Select(arr, i) == z3.If(i < n, f(i), g(i - n))), patterns=[z3.Select(arr, i)], qid="joined"))
        if ctx.ghost.get("seq_both"):
            for v, at, k in ((a, i, n), (b, n + i, m)):
                if isinstance(v, SSeq):
                    src, dst = z3.Select(v.arr, i), z3.Select(arr, at)
                    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), dst == src), patterns=[src], qid="joins"))
        return SSeq(ctx, z3.simplify(n + m), arr, so)

    def binop(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.obj_binop(o, a, b)
        for x, y, r in ((a, b, False), (b, a, True)):
            if hasattr(x, "py_binop"):
                return x.py_binop(self, o, y, r)
        if o not in ("BitAnd", "BitOr", "BitXor"):
            a, b = bool_number(a), bool_number(b)
        if is_num(a) and is_num(b):
            return self.arith(o, a, b)
        if isinstance(a, str) and isinstance(b, str) and o == "Add":
            return a + b
        if o == "Add" and any(isinstance(v, SV) and v.t.sort() == Name and v.tag for v in (a, b)):
            import text
            r = text.join(self.ctx, a, b)
            if r is not None:
                return r
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            return Opaque("text")
        if isinstance(a, PList) and isinstance(b, PList) and o == "Add":
            return PList(self.ctx, a.items + b.items)
        if o == "Add" and isinstance(a, (SSeq, PList)) and isinstance(b, (SSeq, PList)):
            return self.concat(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == "Add":
            return a + b
        if isinstance(a, HSet) and isinstance(b, HSet) and o in ("Sub", "BitOr", "BitAnd"):
            return self.call_method(a, {"Sub": "difference", "BitOr": "union", "BitAnd": "intersection"}[o], [b], {})
        if o == "Mult" and isinstance(a, PList) and is_int(b):
            return self.repeat(a, b)
        raise Unsupported(f"{o} of {a!r} and {b!r}")

    def repeat(self, a, n):
        if isinstance(n, int):
            return PList(self.ctx, a.items * n)
        if len(a.items) == 1:
            t = term(a.items[0])
            n = z3.If(term(n) >= 0, term(n), z3.IntVal(0))
            return SSeq(self.ctx, n, z3.K(IntS, t), t.sort())
        raise Unsupported("repeating a list a symbolic number of times")

    def obj_binop(self, o, a, b):
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul"}.get(o)
        if nm is None:
            raise Unsupported(f"{o} on objects")
        if isinstance(a, Obj) and a.cls.lookup(f"__{nm}__")[0]:
            return self.call(self.getattr(a, f"__{nm}__"), [b])
        if isinstance(b, Obj) and b.cls.lookup(f"__r{nm}__")[0]:
            return self.call(self.getattr(b, f"__r{nm}__"), [a])
        raise PyRaise("TypeError", "operands", True)

    def arith(self, o, a, b):
        conc = not isinstance(a, SV) and not isinstance(b, SV)
        if INF in (a, b) or -INF in (a, b):
            if o == "Add":
                return INF if INF in (a, b) else -INF
            if o == "Sub" and a in (INF, -INF):
                return a
            raise Unsupported("arithmetic with infinity")
        if conc:
            if o == "Add":
                return a + b
            if o == "Sub":
                return a - b
            if o == "Mult":
                return a * b
            if o == "Div":
                if b == 0:
                    raise PyRaise("ZeroDivisionError", "", True)
                return Fraction(a) / Fraction(b)
            if o == "FloorDiv" and isinstance(a, int) and isinstance(b, int) and b:
                return a // b
            if o == "Mod" and isinstance(a, int) and isinstance(b, int) and b:
                return a % b
            if o == "Pow" and isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            raise Unsupported(o)
        ints = is_int(a) and is_int(b)
        x, y = (term(a), term(b)) if ints else (real(a), real(b))
        tag = None
        if o == "Add":
            return SV(x + y, tag)
        if o == "Sub":
            return SV(x - y, tag)
        if o == "Mult":
            return SV(x * y, tag)
        if o == "Div":
            x, y = real(a), real(b)
            if not getattr(self, "numpy_division", False):
                self.ctx.need(y != 0, "ZeroDivisionError")
            return SV(x / y)
        if o in ("FloorDiv", "Mod") and ints and isinstance(b, int) and b > 0:
            return SV(x / y if o == "FloorDiv" else x % y)
        raise Unsupported(f"symbolic {o}")

    def ex_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                if not self.truth(res):
                    return False
                res = r
            left = right
        return res

    def compare(self, o, a, b):
        if o in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if o == "Is" else (from_term(z3.Not(r.t)) if isinstance(r, SV) else not r)
        if o in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if o == "In" else (from_term(z3.Not(r.t)) if isinstance(r, SV) else not r)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.obj_compare(o, a, b)
        for x, y, rr in ((a, b, False), (b, a, True)):
            if hasattr(x, "py_compare"):
                return x.py_compare(self, o, y, rr)
        if o in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return r if o == "Eq" else (from_term(z3.Not(r.t)) if isinstance(r, SV) else not r)
        a, b = bool_number(a), bool_number(b)
        if is_num(a) and is_num(b):
            if not isinstance(a, SV) and not isinstance(b, SV):
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
            for v, w, flip in ((a, b, False), (b, a, True)):
                if isinstance(v, float) and v in (INF, -INF):
                    less = (v == -INF) != flip  # a < b ?
                    return less if o in ("Lt", "LtE") else not less
            x, y = (term(a), term(b)) if is_int(a) and is_int(b) else (real(a), real(b))
            return from_term(z3.simplify({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[o]))
        if self.is_name(a) and self.is_name(b):
            x, y = term(a), term(b)
            return from_term({"Lt": name_lt(x, y), "Gt": name_lt(y, x), "LtE": z3.Not(name_lt(y, x)), "GtE": z3.Not(name_lt(x, y))}[o])
        if a is None or b is None or type(a) != type(b):
            raise PyRaise("TypeError", "comparison", True) if (a is None or b is None) else Unsupported(f"{o} of {a!r} and {b!r}")
        raise Unsupported(f"{o} of {a!r} and {b!r}")

    def is_name(self, v):
        return isinstance(v, str) or (isinstance(v, SV) and v.t.sort() == Name)

    def obj_compare(self, o, a, b):
        nm = {"Eq": "__eq__", "LtE": "__le__", "GtE": "__ge__", "Lt": "__lt__", "Gt": "__gt__", "NotEq": "__ne__"}[o]
        rv = {"__eq__": "__eq__", "__le__": "__ge__", "__ge__": "__le__", "__lt__": "__gt__", "__gt__": "__lt__", "__ne__": "__ne__"}[nm]
        if isinstance(a, Obj) and a.cls.lookup(nm)[0]:
            return self.call(self.getattr(a, nm), [b])
        if isinstance(b, Obj) and b.cls.lookup(rv)[0]:
            return self.call(self.getattr(b, rv), [a])
        if nm == "__eq__":
            return a is b
        if nm == "__ne__":
            r = self.obj_compare("Eq", a, b)
            return from_term(z3.Not(r.t)) if isinstance(r, SV) else not self.truth(r)
        raise PyRaise("TypeError", "comparison", True)

    def is_same(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if (isinstance(a, SV) or isinstance(b, SV)) and (isinstance(a, bool) or isinstance(b, bool)):
                raise Unsupported("identity of truth values")
            return a is b
        if isinstance(a, (HObj, PyClass)) or isinstance(b, (HObj, PyClass)):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        raise Unsupported("identity of values")

    def equal(self, a, b):
        if isinstance(a, LazyDict):
            a = a.real or a
        if isinstance(b, LazyDict):
            b = b.real or b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, LazyDict):
                if isinstance(y, LazyDict):
                    return True
                if isinstance(y, HDict):
                    k = z3.Const("k_", y.ks)
                    return SV(z3.ForAll([k], z3.Not(z3.Select(y.dom, k)), patterns=[z3.Select(y.dom, k)]))
        if isinstance(a, SSeq) and isinstance(b, SSeq) and a.sort == b.sort:
            k = z3.Int("k_")
            return SV(z3.And(a.n == b.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.n), z3.Select(a.arr, k) == z3.Select(b.arr, k)), patterns=[z3.Select(a.arr, k)] if a.arr.decl().arity() == 0 else [])))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SSeq) and isinstance(y, PList):
                fs = [x.n == len(y.items)]
                for k, e in enumerate(y.items):
                    fs.append(term(self.equal(from_term(z3.Select(x.arr, k)), e)))
                return SV(z3.And(*fs))
        if isinstance(a, HDict) and isinstance(b, HDict) and (a.ks, a.vk) == (b.ks, b.vk) and not isinstance(a.vk, tuple):
            k = z3.Const("k_", a.ks)
            return SV(z3.And(a.dom == b.dom, z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), z3.Select(a.val, k) == z3.Select(b.val, k)))))
        if isinstance(a, HDict) and isinstance(b, HDict) and (a.ks, a.vk) == (b.ks, b.vk):
            k = z3.Const("k_", a.ks)
            x, y = a.wrap(z3.Select(a.val, k)), b.wrap(z3.Select(b.val, k))
            return SV(z3.And(a.dom == b.dom, z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), term(self.equal(x, y))))))
        if isinstance(a, HSet) and isinstance(b, HSet) and a.ks == b.ks:
            return SV(a.t == b.t)
        if isinstance(a, (Ext, PyClass, PyFunc)) or isinstance(b, (Ext, PyClass, PyFunc)):
            return isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path or a is b
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            fs = [self.equal(x, y) for x, y in zip(a, b)]
            return from_term(z3.simplify(z3.And(*[term(f) for f in fs]))) if fs else True
        if isinstance(a, PList) and isinstance(b, PList):
            return self.equal(tuple(a.items), tuple(b.items))
        na, nb = is_num(a) or isinstance(a, bool), is_num(b) or isinstance(b, bool)
        if na and nb:
            if not isinstance(a, SV) and not isinstance(b, SV):
                return a == b
            if INF in (a, b) or -INF in (a, b):
                return False
            x, y = (term(a), term(b)) if is_int(a) and is_int(b) else (real(a), real(b))
            return from_term(z3.simplify(x == y))
        if self.is_name(a) and self.is_name(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return from_term(z3.simplify(term(a) == term(b)))
        if (na and self.is_name(b)) or (nb and self.is_name(a)):
            return False
        if isinstance(a, SV) and isinstance(b, SV) and a.t.sort() == b.t.sort():
            return from_term(z3.simplify(a.t == b.t))
        if isinstance(a, SV) and a.t.sort() == BoolS and isinstance(b, bool):
            return from_term(a.t == b)
        if isinstance(a, SV) and isinstance(b, tuple) or isinstance(b, SV) and isinstance(a, tuple):
            x, y = term(a), term(b)
            if x.sort() == y.sort():
                return from_term(x == y)
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SV):
            s = v.t.sort()
            if s == BoolS:
                return self.ctx.branch(v.t)
            if s == IntS or s == RealS:
                return self.ctx.branch(v.t != 0)
            if s == Name:
                return self.ctx.branch(z3.Not(name_empty(v.t)))
            raise Unsupported("truth value")
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, PList):
            return len(v.items) > 0
        if isinstance(v, (HSet, HDict, LazyDict, SSeq, PDict)):
            n = self.length(v)
            return n > 0 if isinstance(n, int) else self.ctx.branch(term(n) > 0)
        if isinstance(v, (Obj, PyFunc, PyClass, Bound)):
            return True
        if hasattr(v, "py_truth"):
            return v.py_truth(self)
        raise Unsupported(f"truth of {v!r}")

    def ex_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            raise Unsupported("bare super()")
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            cls = self.fr.func.cls
            me = self.fr.vars[self.fr.func.node.args.args[0].arg]
            for b in cls.bases:
                if isinstance(b, PyClass):
                    m, _ = b.lookup(e.func.attr)
                    if m:
                        return self.call(m, [me] + self.elements(e.args), {k.arg: self.eval(k.value) for k in e.keywords})
            raise Unsupported("super")
        f = self.eval(e.func)
        args = self.elements(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        return self.eval(s)

    def ex_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.index(e.slice))

    # ------------------------------------------------------------ comprehensions
    def ex_GeneratorExp(self, e):
        return self.comp(e, lambda: self.eval(e.elt))

    def ex_ListComp(self, e):
        it = self.comp(e, lambda: self.eval(e.elt))
        return self.to_list(it)

    def ex_SetComp(self, e):
        return self.to_set(self.comp(e, lambda: self.eval(e.elt)))

    def ex_DictComp(self, e):
        it = self.comp(e, lambda: (self.eval(e.key), self.eval(e.value)))
        return self.to_dict(it)

    def comp(self, e, body):
        if len(e.generators) != 1:
            it0 = self.iterate(self.eval(e.generators[0].iter))
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.iterate(self.eval(g.iter))
        saved = dict(self.fr.vars)
        try:
            if isinstance(it, ConcIter):
                out = []
                for x in it.items:
                    self.assign(g.target, x)
                    if all(self.truth(self.eval(c)) for c in g.ifs):
                        out.append(body())
                return ConcIter(out)
            return self.map_iter(it, lambda x: self._bind_eval(g, x, body), bool(g.ifs), ident=self._is_ident(e, g))
        finally:
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for n in names:
                if n in saved:
                    self.fr.vars[n] = saved[n]
                else:
                    self.fr.vars.pop(n, None)

    def _is_ident(self, e, g):
        return not isinstance(e, ast.DictComp) and ast.dump(e.elt).replace("Store()", "Load()") == ast.dump(g.target).replace("Store()", "Load()")

    def _bind_eval(self, g, x, body):
        self.assign(g.target, x)
        for c in g.ifs:
            if not self.truth(self.eval(c)):
                return SKIP
        return body()

    def map_iter(self, it, fn, filtered, ident=False):
        """The iteration x -> fn(x) over `it`; fn may return SKIP."""
        ctx = self.ctx
        if isinstance(it, ConcIter):
            out = [fn(x) for x in it.items]
            return ConcIter([x for x in out if x is not SKIP])
        if isinstance(it, SymIter):
            k = ctx.fresh("k", it.ks)
            cases = ctx.summarize(lambda: fn(it.elem(k)), [k], z3.Select(it.S, k))
            keep = [(c, v) for c, v in cases if v is not SKIP]
            S = it.S
            if len(keep) != len(cases):
                S = ctx.fresh("S", z3.ArraySort(it.ks, BoolS))
                q = z3.Const("q_", it.ks)
                cond = z3.Or(*[c for c, _ in keep]) if keep else z3.BoolVal(False)
                ctx.assume(z3.ForAll([q], z3.Select(S, q) == z3.And(z3.Select(it.S, q), z3.substitute(cond, (k, q))), patterns=[z3.Select(S, q)]))
                S0 = it.S
                if not can_pattern(S0):
                    S0 = ctx.fresh("S", S0.sort())
                    ctx.assume(S0 == it.S)
                ctx.assume(z3.ForAll([q], z3.Select(S, q) == z3.And(z3.Select(S0, q), z3.substitute(cond, (k, q))), patterns=[z3.Select(S0, q)]))
            if ident:
                return SymIter(it.ks, S, it.elem, it.identity)
            v = merge(keep)
            return SymIter(it.ks, S, lambda t: subst_value(v, k, t))
        if isinstance(it, SeqIter):
            k = ctx.fresh("k", IntS)
            cases = ctx.summarize(lambda: fn(it.elem(k)), [k], z3.And(k >= 0, k < it.n))
            keep = [(c, v) for c, v in cases if v is not SKIP]
            if len(keep) != len(cases):
                cond = z3.Or(*[c for c, _ in keep]) if keep else z3.BoolVal(False)
                m, pos = self.filter_seq(it.n, lambda q: z3.substitute(cond, (k, q)))
                v = merge(keep)
                return SeqIter(m, lambda j: subst_value(v, k, pos(j)))
            v = merge(keep)
            return SeqIter(it.n, lambda t: subst_value(v, k, t))
        raise Unsupported("comprehension")

    def filter_seq(self, n, cond):
        """Positions q in 0..n-1 with cond(q), in order: length m and pos(j) with an inverse."""
        ctx = self.ctx
        m = ctx.fresh("m", IntS)
        ctx.fresh_n += 1
        pos = z3.Function(f"pos!{ctx.fresh_n}", IntS, IntS)
        rank = z3.Function(f"rank!{ctx.fresh_n}", IntS, IntS)
        j, j2, q = z3.Ints("j_ j2_ q_")
        ctx.assume(z3.And(m >= 0, m <= n) if True else None)
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= pos(j), pos(j) < n, cond(pos(j)), rank(pos(j)) == j)), patterns=[pos(j)]))
        pats, stack, seen = [rank(q)], [cond(q)], set()
        while stack and len(pats) < 3:
            e = stack.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if e.decl().kind() == z3.Z3_OP_SELECT and e.arg(1).eq(q) and can_pattern(e.arg(0)):
                pats.append(e)
            stack.extend(e.children())
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n, cond(q)), z3.And(0 <= rank(q), rank(q) < m, pos(rank(q)) == q)), patterns=pats, qid="filter_all"))
        ctx.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), pos(j) < pos(j2)), patterns=[z3.MultiPattern(pos(j), pos(j2))]))
        ctx.ghost.setdefault("filters", []).append((n, m, pos, rank, cond))
        return m, lambda t: pos(t)

    # ------------------------------------------------------------ containers
    def iterate(self, v):
        ctx = self.ctx
        if isinstance(v, (SymIter, SeqIter, ConcIter)):
            return v
        if isinstance(v, PList):
            return ConcIter(v.items)
        if isinstance(v, tuple):
            return ConcIter(list(v))
        if isinstance(v, str):
            return ConcIter(list(v))
        if isinstance(v, LazyDict):
            if v.real is None:
                return ConcIter([])
            v = v.real
        if isinstance(v, HSet):
            if v.ks is None:
                return ConcIter([])
            return SymIter(v.ks, v.t, from_term, True)
        if isinstance(v, HDict):
            return SymIter(v.ks, v.dom, from_term, True)
        if isinstance(v, SSeq):
            n, arr = v.n, v.arr
            return SeqIter(n, lambda i: from_term(z3.Select(arr, i)))
        if isinstance(v, PDict):
            return ConcIter(list(v.items))
        if hasattr(v, "py_iter"):
            return v.py_iter(self)
        if isinstance(v, SV) and v.t.sort() == Name:
            raise Unsupported("iterating the characters of a name")
        if v is None or is_num(v):
            raise PyRaise("TypeError", "not iterable", True)
        raise Unsupported(f"iteration over {v!r}")

    def to_list(self, it):
        it = self.iterate(it)
        if isinstance(it, ConcIter):
            return PList(self.ctx, it.items)
        if isinstance(it, SymIter):
            if it.identity:
                return HSet(self.ctx, it.ks, it.S, kind="enum")
            return Lazy(self.ctx, it)
        v = it.elem(z3.Int("i_"))
        try:
            t = term(v)
        except Unsupported:
            return Lazy(self.ctx, it)
        i = z3.Int("i_")
        nt = z3.simplify(it.n) if isinstance(it.n, z3.ExprRef) else z3.IntVal(it.n)
        t = z3.simplify(t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(i) and z3.is_const(t.arg(0)):
            return SSeq(self.ctx, it.n, t.arg(0), t.sort())
        cache = self.ctx.ghost.setdefault("seqs", {})
        hit = cache.get((t.get_id(), nt.get_id()))
        if hit is not None:
            return SSeq(self.ctx, it.n, hit[0], t.sort())
        arr = self.ctx.fresh("seq", z3.ArraySort(IntS, t.sort()))
        if self.ctx.sub is None:
            cache[(t.get_id(), nt.get_id())] = (arr, t, nt)
        own = [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(i) for a in t.children()) else []
        if self.ctx.ghost.get("seq_both") and not own:
            own = [x for x in subterms(t) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.num_args() == 2 and x.arg(1).eq(i) and z3.is_const(x.arg(0))][:1]
        self.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.n), z3.Select(arr, i) == t), patterns=[z3.Select(arr, i)] + own, qid="to_list"))
        s = SSeq(self.ctx, it.n, arr, t.sort())
        return s

    def to_set(self, it):
        ctx = self.ctx
        if isinstance(it, SV) and it.t.sort() == Name:
            return HSet(ctx, Name, ctx.fresh("chars", z3.ArraySort(Name, BoolS)))  # the characters: unknown names
        it = self.iterate(it)
        if isinstance(it, ConcIter):
            s = HSet(ctx)
            for x in it.items:
                self.set_add(s, x)
            return s
        if isinstance(it, SymIter):
            if it.identity:
                return HSet(ctx, it.ks, it.S)
            k = ctx.fresh("k", it.ks)
            ks, guard = it.ks, z3.Select(it.S, k)
        else:
            k = ctx.fresh("k", IntS)
            ks, guard = IntS, z3.And(k >= 0, k < it.n)
        t = term(it.elem(k))
        R = ctx.fresh("img", z3.ArraySort(t.sort(), BoolS))
        ctx.fresh_n += 1
        pre = z3.Function(f"pre!{ctx.fresh_n}", t.sort(), ks)
        y = z3.Const("y_", t.sort())
        ctx.assume(z3.ForAll([k], z3.Implies(guard, z3.Select(R, t))))
        ctx.assume(z3.ForAll([y], z3.Implies(z3.Select(R, y), z3.And(z3.substitute(guard, (k, pre(y))), z3.substitute(t, (k, pre(y))) == y)), patterns=[z3.Select(R, y)]))
        if ks == IntS and not isinstance(it, SymIter):
            ctx.ghost.setdefault("images", {})[R.get_id()] = (k, t, it.n, R)
        return HSet(ctx, t.sort(), R)

    def to_dict(self, it):
        ctx = self.ctx
        if isinstance(it, ConcIter):
            d = LazyDict(ctx)
            for k, v in it.items:
                self.setitem(d, k, v)
            return d
        if isinstance(it, SymIter):
            k = ctx.fresh("k", it.ks)
            kk, vv = it.elem(k)
            if not z3.simplify(term(kk)).eq(z3.simplify(k)) and not (k.sort() == Pair and z3.simplify(term(kk) == mkpair(fst(k), snd(k))).eq(z3.BoolVal(True))):
                raise Unsupported("dict comprehension with computed keys")
            q = z3.Const("q_", it.ks)
            if isinstance(vv, CopySet):
                # a new container for every key
                base = ctx.ptr
                ref = ctx.fresh("refs", z3.ArraySort(it.ks, Ref))
                p2 = ctx.fresh("heap_ptr", IntS)
                q2 = z3.Const("q2_", it.ks)
                ctx.assume(p2 >= base)
                ctx.assume(z3.ForAll([q], z3.Implies(z3.Select(it.S, q), z3.And(z3.Select(ref, q) >= base, z3.Select(ref, q) < p2)), patterns=[z3.Select(ref, q)]))
                ctx.assume(z3.ForAll([q, q2], z3.Implies(z3.And(z3.Select(it.S, q), z3.Select(it.S, q2), z3.Select(ref, q) == z3.Select(ref, q2)), q == q2),
                                     patterns=[z3.MultiPattern(z3.Select(ref, q), z3.Select(ref, q2))]))
                key = ("set", str(vv.ks))
                old = ctx.store(key, vv.ks)
                new = ctx.fresh("store", old.sort())
                r = z3.Int("r_")
                ctx.assume(z3.ForAll([r], z3.Implies(r < base, z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r)]))
                src = z3.substitute(vv.src, (k, q))
                ctx.assume(z3.ForAll([q], z3.Implies(z3.Select(it.S, q), z3.Select(new, z3.Select(ref, q)) == src), patterns=[z3.Select(ref, q)]))
                ctx.ptr = p2
                ctx.set_store(key, new)
                return HDict(ctx, it.ks, ("set", vv.ks), it.S, ref)
            t = term(vv)
            if t.sort() == IntS and isinstance(vv, int):
                t = real(vv)
            val = ctx.fresh("val", z3.ArraySort(it.ks, t.sort()))
            ctx.assume(z3.ForAll([q], z3.Implies(z3.Select(it.S, q), z3.Select(val, q) == z3.substitute(t, (k, q))), patterns=[z3.Select(val, q)]))
            return HDict(ctx, it.ks, t.sort(), it.S, val)
        raise Unsupported("dict comprehension over a sequence")

    def set_add(self, s, x):
        t = term(x)
        s.fix(t.sort())
        s.t = z3.Store(s.t, t, z3.BoolVal(True))

    def contains(self, c, x):
        ctx = self.ctx
        if isinstance(c, LazyDict):
            if c.real is None:
                return False
            c = c.real
        if isinstance(c, HSet):
            if c.ks is None:
                return False
            if x is None:
                return False
            t = term(x)
            if t.sort() != c.ks:
                return False
            return from_term(z3.simplify(z3.Select(c.t, t)))
        if isinstance(c, HDict):
            if x is None:
                return False
            t = term(x)
            if t.sort() != c.ks:
                if {t.sort(), c.ks} == {IntS, RealS}:
                    raise Unsupported("numeric key sort")
                return False
            return from_term(z3.simplify(z3.Select(c.dom, t)))
        if isinstance(c, PDict):
            if isinstance(x, str):
                return x in c.items
        if isinstance(c, (PList, tuple)):
            items = c.items if isinstance(c, PList) else list(c)
            fs = [self.equal(x, y) for y in items]
            if all(isinstance(f, bool) for f in fs):
                return any(fs)
            return from_term(z3.simplify(z3.Or(*[term(f) for f in fs])))
        if isinstance(c, SSeq):
            i = z3.Int("i_")
            t = term(x)
            if t.sort() != c.sort:
                return False
            m = self.ctx.ghost.get("members", {}).get(c.arr.get_id())
            if m is not None and z3.simplify(c.n == m[1]).eq(z3.BoolVal(True)):
                return from_term(z3.Select(m[0], t))
            return SV(z3.Exists([i], z3.And(0 <= i, i < c.n, z3.Select(c.arr, i) == t)))
        if isinstance(c, Native) or hasattr(c, "py_contains"):
            return c.py_contains(self, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        raise Unsupported(f"membership in {c!r}")

    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, LazyDict):
            if o.real is None:
                raise PyRaise("KeyError", "", True)
            o = o.real
        if isinstance(o, HDict):
            t = as_sort(k, o.ks)
            ctx.need(z3.Select(o.dom, t), "KeyError")
            return o.get(k)
        if isinstance(o, PDict):
            if isinstance(k, str):
                if k not in o.items:
                    raise PyRaise("KeyError", "", True)
                return o.items[k]
        if isinstance(o, (tuple, PList)):
            items = list(o) if isinstance(o, tuple) else o.items
            if isinstance(k, int):
                if not -len(items) <= k < len(items):
                    raise PyRaise("IndexError", "", True)
                return items[k]
            if isinstance(k, SliceV) and k.concrete():
                r = items[k.py()]
                return tuple(r) if isinstance(o, tuple) else PList(ctx, r)
        if isinstance(o, SV) and o.t.sort() == Pair and isinstance(k, int):
            if k not in (0, 1, -1, -2):
                raise PyRaise("IndexError", "", True)
            return from_term(sel_pair(o.t, k % 2))
        if isinstance(o, (SSeq, tuple, PList)) and k is None:
            raise PyRaise("TypeError", "list indices must be integers or slices, not NoneType", True)
        if isinstance(o, HSet) and o.kind == "enum" and is_int(k) and o.ks is not None:
            arr, n = self.enumeration(o)
            t = term(k)
            ctx.need(z3.And(t < n, t >= -n), "IndexError")
            return from_term(z3.Select(arr, t if ctx.holds(t >= 0) else z3.If(t >= 0, t, n + t)))
        if isinstance(o, SSeq) and is_int(k):
            t = term(k)
            if isinstance(k, int) and k < 0:
                ctx.need(-t <= o.n, "IndexError")
                return o.at(o.n + t)
            ctx.need(z3.And(t < o.n, t >= -o.n), "IndexError")
            if ctx.holds(t >= 0):
                return o.at(t)
            return o.at(z3.If(t >= 0, t, o.n + t))
        if isinstance(o, PyClass) and o.meta is not None:
            m, _ = o.meta.lookup("__getitem__")
            if m:
                return self.call(m, [o, k])
        if isinstance(o, Ext):
            return o  # typing expressions
        if hasattr(o, "py_getitem"):
            return o.py_getitem(self, k)
        raise Unsupported(f"subscript of {o!r}")

    def setitem(self, o, k, v):
        ctx = self.ctx
        if isinstance(o, LazyDict):
            if o.real is None:
                o.as_type(*self.infer(k, v))
                o.touch()
            o = o.real
        if isinstance(o, HDict):
            t = as_sort(k, o.ks)
            o.put(z3.Store(o.dom, t, z3.BoolVal(True)), z3.Store(o.val, t, o.unwrap(v)))
            return
        if isinstance(o, PList) and isinstance(k, int):
            if not -len(o.items) <= k < len(o.items):
                raise PyRaise("IndexError", "", True)
            o.items[k] = v
            o.touch()
            return
        if isinstance(o, PDict) and isinstance(k, str):
            o.items[k] = v
            o.touch()
            return
        if isinstance(o, SSeq) and is_int(k):
            t = term(k)
            ctx.need(z3.And(t < o.n, t >= -o.n), "IndexError")
            t = z3.simplify(z3.If(t >= 0, t, o.n + t))
            o.arr = z3.Store(o.arr, t, as_sort(v, o.sort))
            o.touch()
            return
        if hasattr(o, "py_setitem"):
            return o.py_setitem(self, k, v)
        raise Unsupported(f"item assignment on {o!r}")

    def infer(self, k, v):
        ks = term(k).sort()
        if isinstance(v, HSet):
            if v.ks is None:
                v.fix(ks if ks != Pair else Name)
            return ks, ("set", v.ks)
        if isinstance(v, LazyDict):
            if v.real is None:
                v.as_type(Name, RealS)
            v = v.real
        if isinstance(v, HDict):
            return ks, ("dict", v.ks, v.vk)
        t = term(v)
        if t.sort() == IntS and isinstance(v, int):
            return ks, RealS
        return ks, t.sort()

    def delitem(self, o, k):
        if isinstance(o, LazyDict):
            if o.real is None:
                raise PyRaise("KeyError", "", True)
            o = o.real
        if isinstance(o, HDict):
            t = as_sort(k, o.ks)
            self.ctx.need(z3.Select(o.dom, t), "KeyError")
            o.put(z3.Store(o.dom, t, z3.BoolVal(False)), o.val)
            return
        raise Unsupported("del")

    def length(self, v):
        if isinstance(v, LazyDict):
            if v.real is None:
                return 0
            v = v.real
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, (PList, PDict)):
            return len(v.items)
        if isinstance(v, HSet):
            if v.ks is None:
                return 0
            return SV(self.card(v.ks, v.t))
        if isinstance(v, HDict):
            return SV(self.card(v.ks, v.dom))
        if isinstance(v, SSeq):
            return from_term(z3.simplify(v.n)) if isinstance(v.n, z3.ExprRef) else v.n
        if hasattr(v, "py_len"):
            return v.py_len(self)
        if v is None or is_num(v):
            raise PyRaise("TypeError", "len", True)
        raise Unsupported(f"length of {v!r}")

    def enumeration(self, o):
        """The entries of a list that enumerates a set, by position: each element once, in an unknown order."""
        ctx, ks, S = self.ctx, o.ks, o.t
        memo = ctx.ghost.setdefault("enumerations", {})
        if S.get_id() not in memo:
            n = self.card(ks, S)
            arr, at = ctx.fresh("entry", z3.ArraySort(IntS, ks)), ctx.fresh("position", z3.ArraySort(ks, IntS))
            i, x = z3.Int("i_"), z3.Const("x_", ks)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(S, z3.Select(arr, i)), z3.Select(at, z3.Select(arr, i)) == i)), patterns=[z3.Select(arr, i)], qid="enum_at"))
            e = z3.Select(at, x)
            ctx.assume(z3.ForAll([x], z3.Implies(z3.Select(S, x), z3.And(0 <= e, e < n, z3.Select(arr, e) == x)), patterns=[e] + ([z3.Select(S, x)] if can_pattern(S) else []), qid="enum_all"))
            memo[S.get_id()] = (arr, n, at, S)
        return memo[S.get_id()][:2]

    def card(self, ks, S):
        """Number of elements (finite sets). Facts about it are added where it is used."""
        c = card_fn(ks)(S)
        self.ctx.assume(c >= 0)
        self.ctx.assume((c == 0) == (S == z3.K(ks, z3.BoolVal(False))))
        self.ctx.ghost.setdefault("cards", []).append((ks, S))
        im = self.ctx.ghost.get("images", {}).get(S.get_id())
        if im is not None:
            # finite cardinality: the n entries of a list are n different things exactly when nothing repeats
            k, t, n, _ = im
            i, j = z3.Ints("i_ j_")
            a, b = self.ctx.fresh("twice", IntS), self.ctx.fresh("again", IntS)
            at = lambda x: z3.substitute(t, (k, x))
            ti, tj = at(i), at(j)
            pats = [z3.MultiPattern(ti, tj)] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(k) and z3.is_app(t.arg(0)) and t.arg(0).num_args() == 0 else []
            self.ctx.assume(z3.And(c <= n, z3.Or(z3.And(c == n, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), ti != tj), patterns=pats)),
                                                 z3.And(c < n, 0 <= a, a < b, b < n, at(a) == at(b)))))
            self.ctx.result.assumed.add("finite cardinality: the set of the entries of a list of length n has n elements exactly when the entries are distinct")
        return c

    def call_method(self, o, name, args, kw):
        if isinstance(o, LazyDict) and o.real is None:
            if name in ("setdefault",):
                k, v = args[0], args[1] if len(args) > 1 else None
                o.as_type(*self.infer(k, v))
                o.touch()
            elif name == "get":
                return args[1] if len(args) > 1 else None
            elif name in ("items", "keys", "values"):
                return ConcIter([])
            elif name == "copy":
                return LazyDict(self.ctx)
            elif name == "clear":
                return None
            else:
                raise Unsupported(f"dict.{name} on an untyped dict")
        if isinstance(o, LazyDict):
            o = o.real
        key = type(o).__name__
        if isinstance(o, SV):
            key = "SV" + str(o.t.sort())
        m = METHODS.get((key, name))
        if m is None:
            if hasattr(o, "py_method"):
                return o.py_method(self, name, args, kw)
            raise Unsupported(f"{key}.{name}")
        if kw:
            return m(self, o, *args, **kw)
        return m(self, o, *args)


METHODS = {}


def method(cls, *names):
    def deco(f):
        for n in names:
            METHODS[(cls, n)] = f
        return f
    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def raised(self):
        return self.exc is not None


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def concrete(self):
        return all(x is None or isinstance(x, int) for x in (self.lo, self.hi, self.step))

    def py(self):
        return slice(self.lo, self.hi, self.step)

    def full(self):
        return self.lo is None and self.hi is None and self.step is None


class Lazy(HObj):
    """A list produced by a comprehension that is only iterated."""

    def __init__(self, ctx, it):
        HObj.__init__(self, ctx)
        self.it = it

    def py_iter(self, interp):
        return self.it

    def py_len(self, interp):
        if isinstance(self.it, SeqIter):
            return from_term(self.it.n)
        return SV(interp.card(self.it.ks, self.it.S))


class CopySet:
    """The value {set copy of the term src} inside a summarised comprehension."""

    def __init__(self, ks, src):
        self.ks, self.src = ks, src


SKIP = object()
def subterms(t):
    out, todo = [], [t]
    while todo:
        e = todo.pop()
        out.append(e)
        if z3.is_app(e):
            todo.extend(e.children())
    return out


_cards = {}


def card_fn(ks):
    if ks not in _cards:
        _cards[ks] = z3.Function(f"card_{ks}", z3.ArraySort(ks, BoolS), IntS)
    return _cards[ks]


def bool_number(v):
    """A truth value as the number it is in arithmetic."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SV) and v.t.sort() == BoolS:
        return SV(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    return v


def can_pattern(S):
    return z3.is_const(S) and S.decl().kind() == z3.Z3_OP_UNINTERPRETED


def merge(cases):
    """One value from [(condition, value)] (conditions are exhaustive and exclusive)."""
    if not cases:
        return None
    v = cases[-1][1]
    for c, w in reversed(cases[:-1]):
        v = ite(c, w, v)
    return v


def ite(c, a, b):
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (HObj, CopySet)) or isinstance(b, (HObj, CopySet)) or a is None or b is None:
        raise Unsupported("merging of values")
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = real(a), real(b)
    return from_term(z3.If(c, ta, tb))


def subst_value(v, k, t):
    if isinstance(v, SV):
        return from_term(z3.substitute(v.t, (k, t)))
    if isinstance(v, tuple):
        return tuple(subst_value(x, k, t) for x in v)
    if isinstance(v, CopySet):
        return CopySet(v.ks, z3.substitute(v.src, (k, t)))
    if isinstance(v, HSet) and v.handle is not None:
        return HSet(v.ctx, v.ks, handle=z3.substitute(v.handle, (k, t)), kind=v.kind)
    if isinstance(v, HSet) and v._t is not None:
        return CopySet(v.ks, z3.substitute(v._t, (k, t)))
    if hasattr(v, "py_subst"):
        return v.py_subst(k, t)
    return v


_assigned = {}


def assigned(node):
    k = id(node)
    if k in _assigned and _assigned[k][0] is node:
        return _assigned[k][1]
    names = set()
    stack = list(ast.iter_child_nodes(node))
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(x, ast.FunctionDef):
                names.add(x.name)
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    names.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            names.add(x.id)
        stack.extend(ast.iter_child_nodes(x))
    _assigned[k] = (node, names)
    return names


def contains_yield(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))


def is_generator(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(x))
    return False


import builtins_model  # noqa: E402,F401
