"""Units of verification: one contract (or lemma) each, run path by path over the real code."""
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from core import *
import core
import interp as I
from interp import Interp, Program, LoopSpec, L, Outcome, HObj, Native, Ext, Opaque
from builtins_model import Bag, sum_fn
import builtins_model as B

UNITS = {}


class Unit:
    def __init__(self, name, props, fn, timeout, limit, functions, note, shared=()):
        self.name, self.props, self.fn, self.timeout, self.limit = name, props, fn, timeout, limit
        self.functions, self.note, self.shared = functions, note, shared  # shared: obligations without a tag belong to these properties too


def unit(name, *props, timeout=8, limit=60, functions=(), note="", shared=()):
    def deco(fn):
        UNITS[name] = Unit(name, props, fn, timeout, limit, functions, note, shared)
        return fn
    return deco


def run_unit(u, root, scale=1.0, on_fail=None):
    """A JSON-able verdict of one unit."""
    t0 = time.time()
    core.STATS = core.Stats()
    prog = None
    ctx = Ctx(u.name, prog, int(u.timeout * 1000 * scale), t0 + u.limit * scale)
    ctx.on_fail = on_fail
    out = dict(unit=u.name)
    try:
        prog = Program(root)
        ctx.program = prog
        ctx.explore(u.fn)
    except Unsupported as e:
        ctx.result.unsupported = str(e) or "unsupported"
    except RecursionError:
        ctx.result.unsupported = "recursion depth"
    except SyntaxError as e:
        ctx.result.unsupported = f"syntax: {e}"
    except z3.Z3Exception as e:
        ctx.result.unsupported = f"verifier: {str(e)[:200]}"
        out["trace"] = traceback.format_exc()[-700:]
    except Exception as e:
        ctx.result.unsupported = f"verifier error: {type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-700:]
    r = ctx.result
    vac = sorted(p for p, ok in r.reached.items() if not ok)
    n = sum(r.discharged.values())
    if not r.unsupported and n == 0 and not r.failed and not r.timeouts:
        r.unsupported = "no obligation was generated"
    out.update(discharged=r.discharged, failed=r.failed, timeouts=r.timeouts, unsupported=r.unsupported, paths=r.paths,
               functions=sorted(r.functions), assumed=sorted(r.assumed), vacuous=vac, queries=core.STATS.queries,
               solver_s=round(core.STATS.solver_s, 2), wall_s=round(time.time() - t0, 2))
    return out


# ---------------------------------------------------------------- helpers for contracts
_BAD = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_IMPLIES)


def usable(p):
    """Can the term be an instantiation pattern?"""
    if not z3.is_app(p) and not isinstance(p, z3.PatternRef):
        return False
    stack = [p] if not isinstance(p, z3.PatternRef) else [p.arg(i) for i in range(p.num_args())] if hasattr(p, "arg") else []
    while stack:
        e = stack.pop()
        if z3.is_quantifier(e):
            return False
        if z3.is_app(e):
            if e.decl().kind() in _BAD:
                return False
            stack.extend(e.children())
    return True


def forall(sorts, fn, pats=None, names="abcdefgh"):
    vs = [z3.Const(f"{names[i]}_", s) for i, s in enumerate(sorts)]
    body = fn(*vs)
    at = fn.__code__
    qid = f"{os.path.basename(at.co_filename)[:-3]}_{at.co_firstlineno}"
    if pats:
        p = pats(*vs)
        p = [x for x in (p if isinstance(p, list) else [p]) if usable(x)]
        if p:
            return z3.ForAll(vs, body, patterns=p, qid=qid)
    return z3.ForAll(vs, body, qid=qid)


def sel(a, *k):
    return z3.Select(a, *k)


def new_dict(ctx, hint, ks, vk):
    vs = Ref if isinstance(vk, tuple) else vk
    d = HDict(ctx, ks, vk, ctx.fresh(hint + "_dom", z3.ArraySort(ks, BoolS)), ctx.fresh(hint, z3.ArraySort(ks, vs)))
    return d


def typed(d, ks, vk):
    """The dict d as the typed dict it must be (an empty literal takes the type)."""
    if isinstance(d, LazyDict):
        return d.as_type(ks, vk)
    if not isinstance(d, HDict) or d.ks != ks or d.vk != vk:
        raise Unsupported(f"attribute is {d!r}, expected a dict {ks}->{vk}")
    return d


def attr(o, name):
    if name not in o.attrs:
        raise Unsupported(f"{o!r} has no attribute {name}")
    return o.attrs[name]


class Contract:
    """Base of contracts at call sites."""
    def __init__(self, apply):
        self._apply = apply

    def apply(self, interp, v):
        return self._apply(interp, v)


def cls(ctx, module, name):
    m = ctx.program.module(module)
    if m is None or name not in m.env:
        raise Unsupported(f"{module}.{name} does not exist")
    return m.env[name]


def func(ctx, module, klass, name):
    c = cls(ctx, module, klass)
    m, _ = c.lookup(name)
    if m is None:
        raise Unsupported(f"{klass}.{name} does not exist")
    return m
