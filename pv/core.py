"""Path-wise symbolic execution of Python ASTs with contracts: the verification-condition generator.

A unit (one contract of one function) is executed path by path. Every path is a replay of the unit from the
start along a tape of decisions, so program state is ordinary mutable Python data. Symbolic branches consult
the tape; when it is used up both outcomes are tried (those refuted by the path condition are pruned).
Loops with a symbolic number of iterations are cut by invariants: initiation and preservation are obligations,
the state the loop may change is replaced by fresh unknowns. Obligations go to z3.
"""
import os
import time
from fractions import Fraction
import z3


_forall = z3.ForAll


def forall(vs, body, patterns=(), **kw):
    """z3.ForAll; a pattern z3 does not accept (it holds a conditional, say) is left out."""
    def no_logic(t):
        return not z3.is_app(t) or t.decl().kind() not in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ) and all(map(no_logic, t.children()))
    good = [p for p in patterns if isinstance(p, z3.PatternRef) or no_logic(p)]
    return _forall(vs, body, patterns=good, **kw)


z3.ForAll = forall


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the unit is undecided, nothing is claimed."""


class PathEnd(Exception):
    """This path needs no further exploration (end of an arbitrary loop iteration, infeasible)."""


class PyRaise(Exception):
    """The program under verification raised an exception."""

    def __init__(self, kind, where="", implicit=False):
        Exception.__init__(self, f"{kind} {where}")
        self.kind, self.where, self.implicit = kind, where, implicit


EXC_PARENTS = {
    "KeyError": ["LookupError", "Exception", "BaseException"], "IndexError": ["LookupError", "Exception", "BaseException"],
    "ValueError": ["Exception", "BaseException"], "TypeError": ["Exception", "BaseException"],
    "ArithmeticError": ["Exception", "BaseException"], "ZeroDivisionError": ["ArithmeticError", "Exception", "BaseException"],
    "OverflowError": ["ArithmeticError", "Exception", "BaseException"],
    "LinAlgError": ["ValueError", "Exception", "BaseException"], "StopIteration": ["Exception", "BaseException"],
    "NotImplementedError": ["RuntimeError", "Exception", "BaseException"], "Exception": ["BaseException"],
    "UnboundLocalError": ["NameError", "Exception", "BaseException"], "AttributeError": ["Exception", "BaseException"],
}


def exc_matches(kind, name):
    return kind == name or name in EXC_PARENTS.get(kind, ["Exception", "BaseException"])


DUMP = os.environ.get('PV_DUMP')
SLOW = os.environ.get('PV_SLOW')
WHAT = ['']

# ---------------------------------------------------------------- sorts
Name = z3.DeclareSort("Name")
_pair = z3.Datatype("Pair")
_pair.declare("pair", ("fst", Name), ("snd", Name))
Pair = _pair.create()
mkpair, fst, snd = Pair.pair, Pair.fst, Pair.snd
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_triple = z3.Datatype("Triple")
_triple.declare("triple", ("one", Name), ("two", Name), ("three", RealS))
Triple = _triple.create()
Ref = IntS  # identities of nested containers

_lits = {}
name_lt = z3.Function("name_lt", Name, Name, BoolS)  # the order of strings
name_empty = z3.Function("name_empty", Name, BoolS)


def lit(s):
    """The z3 constant of a string literal used as a name."""
    if s not in _lits:
        _lits[s] = z3.Const(f"lit!{s}", Name)
    return _lits[s]


def name_axioms():
    a, b, c = z3.Consts("a b c", Name)
    out = [
        z3.ForAll([a, b], z3.Implies(name_lt(a, b), z3.Not(name_lt(b, a))), patterns=[name_lt(a, b)]),
        z3.ForAll([a, b], z3.Or(a == b, name_lt(a, b), name_lt(b, a)), patterns=[name_lt(a, b)]),
        z3.ForAll([a, b, c], z3.Implies(z3.And(name_lt(a, b), name_lt(b, c)), name_lt(a, c)),
                  patterns=[z3.MultiPattern(name_lt(a, b), name_lt(b, c))]),
    ]
    if len(_lits) > 1:
        out.append(z3.Distinct(*_lits.values()))
    for s, t in _lits.items():
        out.append(name_empty(t) == z3.BoolVal(s == ""))
    return out


# ---------------------------------------------------------------- scalar values
class SV:
    """A symbolic scalar: a z3 term of sort Int, Real, Bool or Name. `tag` narrows the Python type."""
    __slots__ = ("t", "tag")

    def __init__(self, t, tag=None):
        self.t, self.tag = t, tag

    def __repr__(self):
        return f"<{self.t}>"


INF = float("inf")


def is_num(v):
    return (isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)) or \
        (isinstance(v, SV) and v.t.sort() in (IntS, RealS))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, SV) and v.t.sort() == IntS)


def term(v):
    """The z3 term of a scalar (bool, number, name, tuple of two names)."""
    if isinstance(v, SV):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v in (INF, -INF):
            raise Unsupported("infinity used as a number")
        return z3.RealVal(Fraction(repr(v)))
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, tuple) and len(v) == 2:
        return mkpair(term(v[0]), term(v[1]))
    if isinstance(v, tuple) and len(v) == 3 and is_num(v[2]):
        return Triple.triple(as_sort(v[0], Name), as_sort(v[1], Name), real(v[2]))
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported(f"no term for {type(v).__name__} {v!r}")


def real(v):
    t = term(v)
    if t.sort() == IntS:
        t = z3.IntVal(0) if False else t
        return z3.simplify(z3.ToReal(t)) if z3.is_int_value(t) else z3.ToReal(t)
    if t.sort() == BoolS:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if t.sort() != RealS:
        raise Unsupported(f"not a number: {v!r}")
    return t


def as_sort(v, sort):
    if sort == RealS:
        return real(v)
    t = term(v)
    if t.sort() != sort:
        raise Unsupported(f"value {v!r} of sort {t.sort()} where {sort} is expected")
    return t


def from_term(t):
    """A program value for a z3 term."""
    t2 = t
    if t.sort() == IntS and z3.is_int_value(t):
        return t.as_long()
    if t.sort() == BoolS:
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if t.sort() == Pair:
        return (from_term(sel_pair(t, 0)), from_term(sel_pair(t, 1)))
    if t.sort() == Triple:
        return (SV(Triple.one(t)), SV(Triple.two(t)), SV(Triple.three(t)))
    return SV(t2)


def sel_pair(t, i):
    if z3.is_app(t) and t.decl().eq(mkpair):
        return t.arg(i)
    return fst(t) if i == 0 else snd(t)


# ---------------------------------------------------------------- heap objects
class HObj:
    """Base of heap objects: `serial` orders allocations within a path."""

    def __init__(self, ctx):
        self.serial = ctx.next_serial()
        self.ctx = ctx

    def touch(self, part=None):
        self.ctx.mutated(self, part)


class Obj(HObj):
    def __init__(self, ctx, cls):
        HObj.__init__(self, ctx)
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return f"<{self.cls.name} object>"


class PList(HObj):
    """A list of concrete length."""

    def __init__(self, ctx, items):
        HObj.__init__(self, ctx)
        self.items = list(items)


class PDict(HObj):
    """A dict with concrete keys (or empty and not yet typed)."""

    def __init__(self, ctx, items=()):
        HObj.__init__(self, ctx)
        self.items = dict(items)


class HSet(HObj):
    """A set (kind 'set'), or a list/tuple enumerating the elements of a set once each in unknown order
    (kind 'enum'). Content: Array(ks -> Bool), direct or in the store under a reference."""

    def __init__(self, ctx, ks=None, t=None, handle=None, kind="set"):
        HObj.__init__(self, ctx)
        self.ks, self._t, self.handle, self.kind = ks, t, handle, kind

    @property
    def t(self):
        if self.handle is not None:
            return z3.Select(self.ctx.store(("set", str(self.ks)), self.ks), self.handle)
        if self._t is None:
            raise Unsupported("untyped empty set")
        return self._t

    @t.setter
    def t(self, v):
        if self.handle is not None:
            k = ("set", str(self.ks))
            self.ctx.set_store(k, z3.Store(self.ctx.store(k, self.ks), self.handle, v))
        else:
            self._t = v
            self.touch()

    def fix(self, ks):
        if self.ks is None:
            self.ks, self._t = ks, z3.K(ks, z3.BoolVal(False))
        elif self.ks != ks:
            raise Unsupported(f"set of {self.ks} used with {ks}")

    def promote(self):
        if self.handle is None:
            t = self.t
            self.handle = self.ctx.new_ref()
            self._t = None
            self.t = t
        return self.handle


class HDict(HObj):
    """A dict with symbolic keys. vk is a z3 sort, ('set', ks) or ('dict', ks, vs)."""

    def __init__(self, ctx, ks, vk, dom=None, val=None, handle=None):
        HObj.__init__(self, ctx)
        self.ks, self.vk, self.handle = ks, vk, handle
        self._dom, self._val = dom, val

    @property
    def vs(self):
        return Ref if isinstance(self.vk, tuple) else self.vk

    def _key(self):
        return ("dict", str(self.ks), str(self.vk))

    @property
    def dom(self):
        if self.handle is not None:
            return z3.Select(self.ctx.store(self._key() + ("dom",), z3.ArraySort(self.ks, BoolS), True), self.handle)
        return self._dom

    @property
    def val(self):
        if self.handle is not None:
            return z3.Select(self.ctx.store(self._key() + ("val",), z3.ArraySort(self.ks, self.vs), True), self.handle)
        return self._val

    def put(self, dom, val):
        if self.handle is not None:
            k = self._key() + ("dom",)
            self.ctx.set_store(k, z3.Store(self.ctx.store(k, z3.ArraySort(self.ks, BoolS), True), self.handle, dom))
            k = self._key() + ("val",)
            self.ctx.set_store(k, z3.Store(self.ctx.store(k, z3.ArraySort(self.ks, self.vs), True), self.handle, val))
        else:
            self._dom, self._val = dom, val
            self.touch()

    def promote(self):
        if self.handle is None:
            d, v = self.dom, self.val
            self.handle = self.ctx.new_ref()
            self.put(d, v)
        return self.handle

    def get(self, key):
        """The value under a key known to be present."""
        t = z3.Select(self.val, as_sort(key, self.ks))
        return self.wrap(t)

    def wrap(self, t):
        if isinstance(self.vk, tuple):
            if self.vk[0] == "set":
                return HSet(self.ctx, self.vk[1], handle=t)
            return HDict(self.ctx, self.vk[1], self.vk[2], handle=t)
        return from_term(t)

    def unwrap(self, v):
        """The z3 term stored for a program value."""
        if isinstance(self.vk, tuple):
            if self.vk[0] == "set" and isinstance(v, HSet):
                v.fix(self.vk[1])
                return v.promote()
            if self.vk[0] == "dict":
                if isinstance(v, LazyDict):
                    v = v.as_type(self.vk[1], self.vk[2])
                if isinstance(v, HDict) and (v.ks, v.vk) == (self.vk[1], self.vk[2]):
                    return v.promote()
            raise Unsupported(f"storing {v!r} in a dict of {self.vk}")
        return as_sort(v, self.vk)


class LazyDict(HObj):
    """An empty dict literal whose key and value types are not known yet; forwards to its typed self."""

    def __init__(self, ctx):
        HObj.__init__(self, ctx)
        self.real = None

    def as_type(self, ks, vk):
        if self.real is None:
            vs = Ref if isinstance(vk, tuple) else vk
            self.real = HDict(self.ctx, ks, vk, z3.K(ks, z3.BoolVal(False)), self.ctx.fresh("dv", z3.ArraySort(ks, vs)))
            self.real.serial = self.serial
        elif self.real.ks != ks or self.real.vk != vk:
            raise Unsupported(f"dict of {self.real.ks}->{self.real.vk} used as {ks}->{vk}")
        return self.real


class SSeq(HObj):
    """A list of symbolic length n; at(i) gives the element term (a program value made by wrap)."""

    def __init__(self, ctx, n, arr, sort, kind="list"):
        HObj.__init__(self, ctx)
        self.n, self.arr, self.sort, self.kind = n, arr, sort, kind

    def at(self, i):
        return from_term(z3.Select(self.arr, i))


# ---------------------------------------------------------------- solving
AXIOMS = []      # z3 formulas valid in every query (background theory)
AXIOM_FNS = []   # callables producing axioms at solve time


_LT = {}  # formula -> does the order of names occur in it (the formula is kept so its identity stays taken)


def has_lt(f):
    k = f.get_id()
    if k in _LT:
        return _LT[k][1]
    seen, stack, found = set(), [f], False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _LT:
            if _LT[i][1]:
                found = True
                break
            continue
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            if e.decl().eq(name_lt):
                found = True
                break
            stack.extend(e.children())
    _LT[k] = (f, found)
    return found


def uses_lt(fs):
    return any(has_lt(f) for f in fs)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0


STATS = Stats()
ALGEBRA = []  # tells whether a query contains linear algebra (registered by la)


def background(fs):
    ax = list(AXIOMS)
    for f in AXIOM_FNS:
        ax += f(fs)
    if uses_lt(fs):
        ax += name_axioms()
    elif _lits:
        if len(_lits) > 1:
            ax.append(z3.Distinct(*_lits.values()))
        for s, t in _lits.items():
            ax.append(name_empty(t) == z3.BoolVal(s == ""))
    return ax


SEED = 0


def solve(fs, timeout_ms, seed=0, relevancy=None, extensional=True):
    """'unsat', 'sat', 'timeout' or 'incomplete' (no proof, instantiation saturated) for a conjunction."""
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.set("auto_config", False)
    s.set("smt.solve_eqs", False)  # its substitutions destroy the patterns of quantified facts
    s.set("smt.mbqi", False)
    if seed or SEED:
        s.set("smt.random_seed", seed + SEED)
    if relevancy is not None:
        s.set("smt.relevancy", relevancy)
    if not extensional:
        s.set("smt.array.extensional", False)
    ax = background(fs)
    for f in ax:
        s.add(f)
    for f in fs:
        s.add(f)
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    STATS.queries += 1
    STATS.solver_s += dt
    if SLOW and dt > float(SLOW):
        import traceback
        print(f"slow {dt:.1f}s {r} ", [f"{x.name}:{x.lineno}" for x in traceback.extract_stack()[-7:-1]], WHAT[0])
    if r == z3.unsat:
        return "unsat"
    if r == z3.sat:
        return "sat"
    why = s.reason_unknown()
    if "timeout" in why or "canceled" in why or "max. resource" in why or "memory" in why:
        return "timeout"
    return "incomplete"


def second_opinion(fs, timeout_ms):
    """Other searches for the same refutation: another seed, a fresh context (terms in another order), cvc5."""
    if solve(fs, min(timeout_ms, 5000), relevancy=0) == "unsat":
        return True
    if solve(fs, timeout_ms, seed=7) == "unsat":
        return True
    s = z3.Solver()
    for f in background(fs) + list(fs):
        s.add(f)
    text = s.to_smt2()
    t0 = time.time()
    try:
        for mbqi, ms in ((False, timeout_ms), (True, min(timeout_ms, 4000))):
            c = z3.Context()
            s2 = z3.Solver(ctx=c)
            s2.set("timeout", int(ms))
            s2.set("auto_config", False)
            s2.set("smt.solve_eqs", False)
            s2.set("smt.mbqi", mbqi)
            s2.from_string(text)
            if s2.check() == z3.unsat:
                return True
        import subprocess
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
            f.write("(set-logic ALL)\n" + text)
            f.flush()
            p = subprocess.run(["cvc5", f"--tlimit={int(timeout_ms)}", f.name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 20)
            if p.stdout.strip().startswith("unsat"):
                CVC5[0] += 1
                return True
    except Exception:
        return False
    finally:
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
    return False


CVC5 = [0]


def algebraic(fs):
    return bool(ALGEBRA) and ALGEBRA[0](fs)


class Result:
    """What became of the obligations of one unit."""

    def __init__(self):
        self.discharged = {}    # name -> count
        self.failed = {}        # name -> detail
        self.timeouts = {}      # name -> detail
        self.unsupported = None
        self.reached = {}       # reach point -> bool (not vacuous)
        self.paths = 0
        self.functions = set()
        self.assumed = set()


class Ctx:
    """The state of the exploration of one unit."""
    on_fail = None  # called with the result so far when an obligation fails

    def __init__(self, unit_name, program, timeout_ms=10000, deadline=None):
        self.unit, self.program = unit_name, program
        self.timeout, self.deadline = timeout_ms, deadline
        self.result = Result()
        self.stack = []
        self.fallbacks = 0

    # ---- exploration
    def explore(self, fn):
        self.stack = [[]]
        while self.stack:
            tape = self.stack.pop()
            self.begin(tape)
            self.result.paths += 1
            if self.result.paths > 4000:
                raise Unsupported("too many paths")
            try:
                fn(self)
            except PathEnd:
                pass
            except Unsupported as e:
                if "limit" in str(e) or "budget" in str(e):
                    raise
                if solve(self.pc, self.timeout, extensional=not algebraic(self.pc)) != "unsat":  # the path may be possible: the unit is undecided
                    self.result.unsupported = self.result.unsupported or str(e) or "unsupported"
                    if os.environ.get("PV_TRACE"):
                        import traceback
                        traceback.print_exc()

    def begin(self, tape):
        self.tape, self.pos = tape, 0
        self.new_from = len(tape)
        self.pc = []
        self.serial = 0
        self.fresh_n = 0
        self.mutlog = []
        self.stores = {}
        self.ptr = z3.Int("heap_ptr")
        self.depth = 0
        self.ghost = {}
        self.sub = None
        self.yields = None
        self.decisions = []

    def replaying(self):
        return self.pos < self.new_from

    def choose(self, n, labels=None):
        """A nondeterministic n-way decision."""
        if self.pos < len(self.tape):
            d = self.tape[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.stack.append(self.tape + [k])
            self.tape = self.tape + [0]
        self.pos += 1
        return d

    def branch(self, cond):
        """Decide a symbolic truth value; assumes the outcome."""
        cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.tape):
            d = self.tape[self.pos]
            self.pos += 1
            self.decide(cond if d else z3.Not(cond))
            return bool(d)
        can_t = self.possible(cond)
        can_f = self.possible(z3.Not(cond)) if can_t else True
        if can_t and can_f:
            self.stack.append(self.tape + [0])
        d = 1 if can_t else 0
        self.tape = self.tape + [d]
        self.pos += 1
        self.decide(cond if d else z3.Not(cond))
        return bool(d)

    def decide(self, f):
        self.decisions.append(f)
        self.pc.append(f)

    def possible(self, cond):
        self.check_deadline()
        fs = self.pc + [cond]
        return solve(fs, min(1000, self.timeout), extensional=not algebraic(fs)) != "unsat"

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("unit time limit")

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for g in f:
                self.assume(g)
            return
        if f is True:
            return
        self.pc.append(f)

    def mention(self, t):
        """Put a term in front of the solver without saying anything about it (a predicate that means nothing; an
        equation with a fresh name would be simplified away)."""
        so = t.sort()
        self.pc.append(z3.Function(f"mentioned<{so}>", so, BoolS)(t))

    # ---- obligations
    def prove(self, f, timeout=None):
        self.check_deadline()
        t = timeout or self.timeout
        goal = z3.Not(f)
        # without extensionality first: rows told apart by positions breed rows of rows
        if algebraic(self.pc + [goal]) and solve(self.pc + [goal], min(t, 3000), extensional=False) == "unsat":
            return "unsat"
        r = solve(self.pc + [goal], t)
        if r == "unsat" or self.fallbacks >= 8 or WHAT[0] in self.result.failed or WHAT[0] in self.result.timeouts:
            return r
        t0 = time.time()
        ok = second_opinion(self.pc + [goal], t)
        if not ok or time.time() - t0 > 2:
            self.fallbacks += 1
        return "unsat" if ok else r

    def ensure(self, name, f, hints=()):
        """An obligation: f follows from the path condition. It is assumed afterwards."""
        if isinstance(f, (list, tuple)):
            for k, g in enumerate(f):
                self.ensure(f"{name}" if len(f) == 1 else f"{name} ({k + 1})", g, hints if k == 0 else ())
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_and(f) and f.num_args() > 1:
            return self.ensure(name, list(f.children()), hints)
        if self.sub is not None:
            raise Unsupported("obligation inside a summarised expression")
        if self.replaying():
            self.pc.append(f)
            return
        for h in hints:
            self.assume(h)
        if z3.is_true(z3.simplify(f)) if not z3.is_quantifier(f) else False:
            self.result.discharged[name] = self.result.discharged.get(name, 0) + 1
            return
        WHAT[0] = name
        r = self.prove(f)
        if r != "unsat" and DUMP and DUMP in name and not os.path.exists("/tmp/dump.smt2"):
            sv = z3.Solver()
            for g in background(self.pc + [f]) + self.pc + [z3.Not(f)]:
                sv.add(g)
            open("/tmp/dump.smt2", "w").write(sv.to_smt2())
        if r == "unsat":
            self.result.discharged[name] = self.result.discharged.get(name, 0) + 1
        elif r == "timeout":
            self.result.timeouts[name] = f"solver timeout on path {self.tape}"
        else:
            self.result.failed.setdefault(name, f"{r} on path {self.tape}: " + str(z3.simplify(f) if not z3.is_quantifier(f) else f)[:400])
            if self.on_fail:
                self.on_fail(self.result)
        self.pc.append(f)

    def follows(self, name, facts, f):
        """An obligation proved in two steps: each fact from the path condition, then f from the facts alone (so that
        the rest of the path condition does not distract the solver). It is assumed afterwards."""
        for k, g in enumerate(facts):
            self.ensure(f"{name}: fact {k + 1}", g)
        if self.replaying():
            self.pc.append(f)
            return
        pc, self.pc = self.pc, list(facts)
        try:
            self.ensure(name, f)
        finally:
            self.pc = pc
        self.pc.append(f)

    def holds(self, f, timeout=3000):
        """Try to prove a side condition (no obligation)."""
        if isinstance(f, bool):
            return f
        g = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        fs = self.pc + [z3.Not(f)]
        if algebraic(fs):
            return solve(fs, min(timeout, 1500), extensional=False) == "unsat"
        return solve(fs, timeout) == "unsat"

    def need(self, cond, kind, where=""):
        """The operation raises `kind` unless cond holds."""
        if isinstance(cond, bool):
            if not cond:
                raise PyRaise(kind, where, True)
            return
        if self.pos < len(self.tape):
            ok = self.branch(cond)
        else:
            ok = self.branch(cond)
        if not ok:
            raise PyRaise(kind, where, True)

    def reach(self, point):
        """The path reached this point: remember whether its condition is refutable (vacuity)."""
        if self.replaying() or self.result.reached.get(point):
            return
        r = solve(self.pc, 1500, extensional=not algebraic(self.pc))
        self.result.reached[point] = r != "unsat"

    # ---- state
    def next_serial(self):
        self.serial += 1
        return self.serial

    def fresh(self, hint, sort):
        self.fresh_n += 1
        return z3.Const(f"{hint}!{self.fresh_n}", sort)

    def mutated(self, obj, part=None):
        self.mutlog.append((obj, part))

    def new_ref(self):
        r = self.ptr
        self.ptr = z3.simplify(self.ptr + 1)
        return r

    def store(self, key, sort, is_value_sort=False):
        """The current content of the store of one kind of nested container."""
        if key not in self.stores:
            vs = sort if is_value_sort else z3.ArraySort(sort, BoolS)
            self.stores[key] = z3.Const("store0!" + "!".join(map(str, key)), z3.ArraySort(Ref, vs))
        return self.stores[key]

    def set_store(self, key, v):
        self.stores[key] = v
        self.mutlog.append(("store", key))


    def summarize(self, body, keys, guard):
        """Run `body` for generic values of the constants `keys` (under `guard`) over all its paths.
        Returns [(condition, value)] with every unknown the body introduced turned into a function of the
        keys. The body must not change existing state."""
        outer = (self.tape, self.pos, self.new_from, self.stack, self.pc, self.decisions, self.sub)
        n0, s0, m0 = self.fresh_n, self.serial, len(self.mutlog)
        tapes, done = [[]], []
        try:
            while tapes:
                tape = tapes.pop()
                self.tape, self.pos, self.new_from, self.stack = tape, 0, len(tape), tapes
                self.pc, self.decisions, self.sub = list(outer[4]) + [guard], [], True
                k0 = len(self.pc)
                if len(done) > 64:
                    raise Unsupported("summary with too many paths")
                try:
                    v = ("value", body())
                except PyRaise as e:
                    v = ("raise", e)
                for o, part in self.mutlog[m0:]:
                    if o == "store" or o.serial <= s0:
                        raise Unsupported("a summarised expression has side effects")
                dec = list(self.decisions)
                facts = [f for f in self.pc[k0:] if not any(f is d for d in dec)]
                done.append((dec, facts, v))
        finally:
            (self.tape, self.pos, self.new_from, self.stack, self.pc, self.decisions, self.sub) = outer
        del self.mutlog[m0:]
        out = []
        sub = {}
        for dec, facts, (k, v) in done:
            c = z3.And(*dec) if dec else z3.BoolVal(True)
            c = self._skolem(c, keys, n0, sub)
            for f in facts:
                f = self._skolem(f, keys, n0, sub)
                self.assume(z3.ForAll(keys, z3.Implies(z3.And(guard, c), f)))
            if k == "raise":
                # the expression raises for some element: fork
                if self.choose(2) == 0:
                    self.decide(z3.ForAll(keys, z3.Implies(guard, z3.Not(c))))
                    continue
                self.assume(guard)
                self.decide(c)
                if not self.possible(z3.BoolVal(True)):
                    raise PathEnd()
                raise v
            out.append((c, self._skolem_value(v, keys, n0, sub)))
        return out

    def _skolem(self, t, keys, n0, sub):
        consts = []
        seen = set()
        stack = [t]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                stack.append(e.body())
                continue
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in e.decl().name():
                num = e.decl().name().rsplit("!", 1)[1]
                if num.isdigit() and int(num) > n0 and not any(e.eq(k) for k in keys):
                    consts.append(e)
            stack.extend(e.children())
        pairs = []
        for c in consts:
            nm = c.decl().name()
            if nm not in sub:
                f = z3.Function(nm + "@", *[k.sort() for k in keys], c.sort())
                sub[nm] = f(*keys)
            pairs.append((c, sub[nm]))
        return z3.substitute(t, *pairs) if pairs else t

    def _skolem_value(self, v, keys, n0, sub):
        if isinstance(v, SV):
            return SV(self._skolem(v.t, keys, n0, sub), v.tag)
        if isinstance(v, tuple):
            return tuple(self._skolem_value(x, keys, n0, sub) for x in v)
        return v
