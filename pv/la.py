"""Vectors and matrices over the reals as z3 arrays of finite support, and the linear algebra trusted about them.

A vector is an Array(Int, Real) that is zero outside its bounds, a matrix an array of such rows, so sums over all
positions are finite and need no length. Axioms are added to a query only when their symbols occur in it."""
import z3
from core import *
import core

Vec = z3.ArraySort(IntS, RealS)
Mat = z3.ArraySort(IntS, Vec)
IVec = z3.ArraySort(IntS, IntS)

dot = z3.Function("dot", Vec, Vec, RealS)
mv = z3.Function("mv", Mat, Vec, Vec)          # matrix times vector
mm = z3.Function("mm", Mat, Mat, Mat)          # matrix product
mmm = z3.Function("mmm", Mat, Mat, Mat, Mat)   # product of three (mentioned where associativity is wanted)
adj = z3.Function("adj", Mat, Vec, Vec, RealS)  # dot(Ax, y) (mentioned where the transpose should move across)
tr = z3.Function("tr", Mat, Mat)               # transpose
eye = z3.Function("eye", IntS, Mat)
inv = z3.Function("inv", Mat, IntS, Mat)
det = z3.Function("det", Mat, IntS, RealS)
ins = z3.Function("ins", Vec, IntS, RealS, Vec)   # a component inserted at a position
rem = z3.Function("rem", Vec, IntS, Vec)          # the component at a position removed
selc = z3.Function("selc", Mat, IVec, IntS, Mat)  # the columns B[0..m) of a matrix
selv = z3.Function("selv", Vec, IVec, IntS, Vec)  # the components B[0..m) of a vector
scat = z3.Function("scat", Vec, IVec, IntS, Vec)  # the vector with v[k] at B[k] and zero elsewhere
square = z3.Function("square", Mat, IntS, BoolS)  # all entries outside n x n vanish
norm = z3.Function("norm", Vec, RealS)
zvec = z3.Const("zvec", Vec)

flip = z3.Function("flip", Vec, z3.ArraySort(IntS, BoolS), Vec)  # the signs at the marked positions changed
unsp = z3.Function("unsp", Vec, IntS, Vec)        # component k taken off component k - 1 and removed
spl = z3.Function("spl", Vec, IntS, Vec)          # component k - 1 split into positive part and, at k, negative part

u, v, w, x, y = z3.Consts("u_ v_ w_ x_ y_", Vec)
A, B, C = z3.Consts("A_ B_ C_", Mat)
q = z3.Const("q_", IVec)
i, j, k, n = z3.Ints("i_ j_ k_ n_")
r = z3.Const("r_", RealS)
mk = z3.Const("mk_", z3.ArraySort(IntS, BoolS))
S = z3.Select


def FA(vs, body, *pats, qid=""):
    return z3.ForAll(vs, body, patterns=list(pats), qid="la_" + qid)


MP = z3.MultiPattern

LAWS = [
    # name, symbols that must all occur, formula
    ("dot is symmetric", [dot], FA([u, v], dot(u, v) == dot(v, u), dot(u, v), qid="comm")),
    ("dot with the zero vector", [dot, zvec], z3.And(FA([u], dot(zvec, u) == 0, dot(zvec, u), qid="dot0"), FA([i], S(zvec, i) == 0, S(zvec, i), qid="zvec"))),
    ("matrix times vector, by rows", [mv], FA([A, x, i], S(mv(A, x), i) == dot(S(A, i), x), S(mv(A, x), i), MP(dot(S(A, i), x), mv(A, x)), qid="mv")),
    ("transpose, entrywise", [tr], FA([A, i, j], S(S(tr(A), j), i) == S(S(A, i), j), S(S(tr(A), j), i), qid="tr")),
    ("transpose twice", [tr], FA([A], tr(tr(A)) == A, tr(A), qid="trtr")),
    ("transpose moves across dot", [adj], FA([A, x, y], z3.And(adj(A, x, y) == dot(mv(A, x), y), adj(A, x, y) == dot(x, mv(tr(A), y))), adj(A, x, y), qid="adj")),
    ("product applied to a vector", [mm, mv], FA([A, B, x], mv(mm(A, B), x) == mv(A, mv(B, x)), mv(mm(A, B), x), qid="mmv")),
    ("product is associative", [mmm], FA([A, B, C], z3.And(mmm(A, B, C) == mm(mm(A, B), C), mmm(A, B, C) == mm(A, mm(B, C))), mmm(A, B, C), qid="assoc")),
    ("transpose of a product", [mm, tr], FA([A, B], tr(mm(A, B)) == mm(tr(B), tr(A)), tr(mm(A, B)), qid="trmm")),
    ("product, entrywise", [mm, dot], FA([A, B, i, j], S(S(mm(A, B), i), j) == dot(S(A, i), S(tr(B), j)), S(S(mm(A, B), i), j), qid="mm")),
    ("identity, entrywise", [eye], FA([n, i, j], S(S(eye(n), i), j) == z3.If(z3.And(i == j, 0 <= i, i < n), z3.RealVal(1), z3.RealVal(0)), S(S(eye(n), i), j), qid="eye")),
    ("identity times a vector", [eye, dot], FA([n, i, x], dot(S(eye(n), i), x) == z3.If(z3.And(0 <= i, i < n), S(x, i), z3.RealVal(0)), dot(S(eye(n), i), x), qid="eyex")),
    ("identity is symmetric", [eye, tr], FA([n], tr(eye(n)) == eye(n), tr(eye(n)), qid="treye")),
    ("inverse", [inv], FA([A, n], z3.Implies(z3.And(det(A, n) != 0, square(A, n)), z3.And(mm(inv(A, n), A) == eye(n), mm(A, inv(A, n)) == eye(n), square(inv(A, n), n))), inv(A, n), qid="inv")),
    ("determinant of the identity", [det, eye], FA([n], det(eye(n), n) == 1, det(eye(n), n), qid="deteye")),
    ("inverse of the identity", [inv, eye], FA([n], inv(eye(n), n) == eye(n), inv(eye(n), n), qid="inveye")),
    ("inverse of the transpose", [inv, tr], FA([A, n], z3.Implies(z3.And(det(A, n) != 0, square(A, n)), inv(tr(A), n) == tr(inv(A, n))), inv(tr(A), n), qid="invtr")),
    ("determinant of the transpose", [det, tr], FA([A, n], det(tr(A), n) == det(A, n), det(tr(A), n), qid="dettr")),
    ("square matrices, transposed", [square, tr], FA([A, n], square(tr(A), n) == square(A, n), square(tr(A), n), qid="sqtr")),
    ("inserting a component", [ins], FA([u, k, r, j], S(ins(u, k, r), j) == z3.If(j < k, S(u, j), z3.If(j == k, r, S(u, j - 1))), S(ins(u, k, r), j), qid="ins")),
    ("dot with an inserted component", [ins, dot], FA([u, k, r, x], dot(ins(u, k, r), x) == dot(u, rem(x, k)) + r * S(x, k), dot(ins(u, k, r), x), qid="dotins")),
    ("removing a component", [rem], FA([u, k, j], S(rem(u, k), j) == z3.If(j < k, S(u, j), S(u, j + 1)), S(rem(u, k), j), qid="rem")),
    ("inserting and removing again", [ins, rem], FA([u, k, r], rem(ins(u, k, r), k) == u, ins(u, k, r), qid="remins")),
    ("changed signs", [flip], FA([u, mk, j], S(flip(u, mk), j) == z3.If(S(mk, j), -S(u, j), S(u, j)), S(flip(u, mk), j), qid="flip")),
    ("changed signs move across dot", [flip, dot], FA([u, mk, x], dot(flip(u, mk), x) == dot(u, flip(x, mk)), dot(flip(u, mk), x), qid="dotflip")),
    ("signs changed twice", [flip], FA([u, mk], flip(flip(u, mk), mk) == u, flip(u, mk), qid="flipflip")),
    ("a component taken off the one before", [unsp], FA([x, k, j], S(unsp(x, k), j) == z3.If(j < k - 1, S(x, j), z3.If(j == k - 1, S(x, j) - S(x, k), S(x, j + 1))), S(unsp(x, k), j), qid="unsp")),
    ("dot with a component taken off the one before", [unsp, dot], FA([u, x, k], dot(u, unsp(x, k)) == dot(u, rem(x, k)) - S(u, k - 1) * S(x, k), dot(u, unsp(x, k)), qid="dotunsp")),
    ("a component split by sign", [spl], FA([x, k, j], S(spl(x, k), j) == z3.If(j < k - 1, S(x, j), z3.If(j == k - 1, z3.If(S(x, k - 1) >= 0, S(x, k - 1), z3.RealVal(0)), z3.If(j == k, z3.If(S(x, k - 1) >= 0, z3.RealVal(0), -S(x, k - 1)), S(x, j - 1)))), S(spl(x, k), j), qid="spl")),
    ("a split component put together", [spl], FA([x, k], unsp(spl(x, k), k) == x, spl(x, k), qid="unspspl")),
    ("chosen components", [selv], FA([u, q, n, k], S(selv(u, q, n), k) == z3.If(z3.And(0 <= k, k < n), S(u, S(q, k)), z3.RealVal(0)), S(selv(u, q, n), k), qid="selv")),
    ("chosen columns", [selc], FA([A, q, n, i, k], S(S(selc(A, q, n), i), k) == z3.If(z3.And(0 <= k, k < n), S(S(A, i), S(q, k)), z3.RealVal(0)), S(S(selc(A, q, n), i), k), qid="selc")),
    ("rows of chosen columns", [selc], FA([A, q, n, i], S(selc(A, q, n), i) == selv(S(A, i), q, n), S(selc(A, q, n), i), qid="selcrow")),
    ("product with chosen columns", [selc, mm], FA([A, B, q, n], mm(A, selc(B, q, n)) == selc(mm(A, B), q, n), mm(A, selc(B, q, n)), selc(mm(A, B), q, n), qid="mmselc")),
]

USED = set()


def symbols_of(f, memo={}):
    k0 = f.get_id()
    if k0 in memo:
        return memo[k0][1]
    out, seen, stack = set(), set(), [f]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.get_id() in memo:
            out |= memo[e.get_id()][1]
            continue
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if nm in NAMES:
                    out.add(nm)
            stack.extend(e.children())
    memo[k0] = (f, out)
    return out


NAMES = {d.name() if isinstance(d, z3.FuncDeclRef) else str(d) for d in (dot, mv, mm, mmm, adj, tr, eye, inv, det, ins, rem, selc, selv, scat, square, norm, zvec, flip, unsp, spl)}


def laws(fs):
    have = set()
    for f in fs:
        have |= symbols_of(f)
    if not have:
        return []
    out, done = [], set()
    grown = True
    while grown:
        grown = False
        for nm, need, f in LAWS:
            if nm in done:
                continue
            if all((d.name() if isinstance(d, z3.FuncDeclRef) else str(d)) in have for d in need):
                done.add(nm)
                out.append(f)
                have |= symbols_of(f)
                grown = True
                USED.add(nm)
    return out


core.AXIOM_FNS.append(laws)
core.ALGEBRA.append(lambda fs: any(symbols_of(f) - {"dot"} for f in fs))

# ---------------------------------------------------------------- laws used at named instances
class Law:
    """For all arguments: if every premise holds for all values of its witnesses, the conclusion holds (proved in Lean: tools/laws.py)."""
    def __init__(self, text, args, concl, *prem):
        self.text, self.args, self.concl, self.prem = text, args, concl, prem   # prem: (witness variables, formula of args and witnesses)


def one_if(c):
    return z3.If(c, z3.RealVal(1), z3.RealVal(0))


i2, p_ = z3.Ints("i2_ p_")
q2 = z3.Const("q2_", IVec)
s_, t_ = z3.Reals("s_ t_")
inn = lambda a, n: z3.And(0 <= a, a < n)
same_row = lambda A1, A2, a, sg: z3.ForAll([j], S(S(A2, a), j) == sg * S(S(A1, a), j), patterns=[S(S(A2, a), j)])
INST = {
    "support": Law("a dot product depends only on the components where the other vector is not zero", [u, x, y],
                   lambda u, x, y: dot(u, x) == dot(u, y), ([k], lambda u, x, y, k: z3.Or(S(u, k) == 0, S(x, k) == S(y, k)))),
    "summand": Law("a dot product of nonzero value has a nonzero summand", [u, x],
                   lambda u, x: dot(u, x) == 0, ([k], lambda u, x, k: z3.Or(S(u, k) == 0, S(x, k) == 0))),
    "nonneg": Law("the dot product of nonnegative vectors is not negative", [u, x],
                  lambda u, x: dot(u, x) >= 0, ([k], lambda u, x, k: z3.And(z3.Not(z3.And(S(u, k) < 0, S(x, k) > 0)), z3.Not(z3.And(S(u, k) > 0, S(x, k) < 0))))),
    "neg": Law("dot(-u, x) = -dot(u, x)", [u, v, x],
               lambda u, v, x: dot(u, x) == -dot(v, x), ([k], lambda u, v, x, k: S(u, k) == -S(v, k))),
    "one": Law("the dot product with a vector of one one is the component", [u, i, x],
               lambda u, i, x: dot(u, x) == S(x, i), ([k], lambda u, i, x, k: S(u, k) == one_if(k == i))),
    "two": Law("the dot product with a vector of two ones is the sum of the components", [u, i, j, x],
               lambda u, i, j, x: dot(u, x) == S(x, i) + S(x, j), ([], lambda u, i, j, x: i != j), ([k], lambda u, i, j, x, k: S(u, k) == one_if(z3.Or(k == i, k == j)))),
    "scaled": Law("dot(su, tu) = st dot(u, u)", [u, w, v, s_, t_],
                  lambda u, w, g, a, b: dot(u, w) == a * b * dot(g, g), ([k], lambda u, w, g, a, b, k: S(u, k) == a * S(g, k)), ([k], lambda u, w, g, a, b, k: S(w, k) == b * S(g, k))),
    "square": Law("a matrix without entries outside n x n is square", [A, n],
                  lambda A, n: square(A, n), ([i, j], lambda A, n, i, j: z3.Implies(z3.Not(z3.And(inn(i, n), inn(j, n))), S(S(A, i), j) == 0))),
    "agree": Law("lists that agree choose the same columns and components", [A, u, q, q2, n],
                 lambda A, u, q, q2, n: z3.And(selc(A, q, n) == selc(A, q2, n), selv(u, q, n) == selv(u, q2, n)),
                 ([k], lambda A, u, q, q2, n, k: z3.Implies(inn(k, n), S(q, k) == S(q2, k)))),
    "squares": Law("dot(u, u) is not negative", [u], lambda u: dot(u, u) >= 0),
    "columns": Law("a matrix with two equal columns has determinant zero", [A, q, n],
                   lambda A, q, n: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, S(q, i) == S(q, j)), i == j), patterns=[MP(S(q, i), S(q, j))], qid="distinct_cols"),
                   ([], lambda A, q, n: det(selc(A, q, n), n) != 0)),
    "scatter": Law("dot(u, x) = dot(u[B], v) when x holds v at the distinct positions B and zero elsewhere", [x, q, n, v],
                   lambda x, q, n, v: z3.ForAll([u], dot(u, x) == dot(selv(u, q, n), v), patterns=[dot(u, x)], qid="scatter"),
                   ([k], lambda x, q, n, v, k: z3.Implies(inn(k, n), S(x, S(q, k)) == S(v, k))),
                   ([i, j], lambda x, q, n, v, i, j: z3.Implies(z3.And(inn(i, n), inn(j, n), S(q, i) == S(q, j)), i == j)),
                   ([k], lambda x, q, n, v, k: z3.Or(S(x, k) == 0, z3.Exists([p_], z3.And(inn(p_, n), S(q, p_) == k), patterns=[S(q, p_)])))),
    "ray": Law("dot(u, d) = u[k] - dot(u[B], v) when d holds 1 at k, -v at the distinct other positions B and zero elsewhere", [x, q, n, v, i2],
               lambda x, q, n, v, e: z3.ForAll([u], dot(u, x) == S(u, e) - dot(selv(u, q, n), v), patterns=[dot(u, x)], qid="ray"),
               ([], lambda x, q, n, v, e: S(x, e) == 1),
               ([k], lambda x, q, n, v, e, k: z3.Implies(inn(k, n), z3.And(S(q, k) != e, S(x, S(q, k)) == -S(v, k)))),
               ([i, j], lambda x, q, n, v, e, i, j: z3.Implies(z3.And(inn(i, n), inn(j, n), S(q, i) == S(q, j)), i == j)),
               ([k], lambda x, q, n, v, e, k: z3.Or(k == e, S(x, k) == 0, z3.Exists([p_], z3.And(inn(p_, n), S(q, p_) == k), patterns=[S(q, p_)])))),
    "rows": Law("negating equations changes the determinant of chosen columns at most in sign, and not the system multiplied with the inverse of the chosen columns", [A, u, B, v, q, n],
                lambda A, b, A2, b2, q, n: z3.And(z3.Or(det(selc(A2, q, n), n) == det(selc(A, q, n), n), det(selc(A2, q, n), n) == -det(selc(A, q, n), n)),
                                                 z3.Implies(z3.And(square(selc(A, q, n), n), det(selc(A, q, n), n) != 0), z3.And(mm(inv(selc(A2, q, n), n), A2) == mm(inv(selc(A, q, n), n), A),
                                                                                                  mv(inv(selc(A2, q, n), n), b2) == mv(inv(selc(A, q, n), n), b)))),
                ([i], lambda A, b, A2, b2, q, n, i: z3.Or(z3.And(S(b2, i) == S(b, i), same_row(A, A2, i, 1)), z3.And(S(b2, i) == -S(b, i), same_row(A, A2, i, -1))))),
}


def law(ctx, name, *args):
    """The law at these arguments: its conclusion, or a witness against one of its premises."""
    L = INST[name]
    out, wit = [L.concl(*args)], []
    for ws, f in L.prem:
        w = [ctx.fresh("w", v.sort()) for v in ws]
        wit += w
        out.append(z3.Not(f(*args, *w)))
    ctx.assume(z3.Or(*out) if len(out) > 1 else out[0])
    ctx.result.assumed.add("law of linear algebra (proved in Lean): " + L.text)
    return wit


def apply(ctx, name, what, *args):
    """The premises of the law at these arguments are obligations (for arbitrary witnesses); then its conclusion holds."""
    L = INST[name]
    for n, (ws, f) in enumerate(L.prem):
        ctx.ensure(f"{what}: premise {n + 1}", f(*args, *[ctx.fresh("w", v.sort()) for v in ws]))
    ctx.assume(L.concl(*args))
    ctx.result.assumed.add("law of linear algebra (proved in Lean): " + L.text)


def closed(name):
    """The law as a closed formula."""
    L = INST[name]
    prem = [z3.ForAll(ws, f(*L.args, *ws)) if ws else f(*L.args) for ws, f in L.prem]
    return z3.ForAll(L.args, z3.Implies(z3.And(*prem), L.concl(*L.args)) if len(prem) > 1 else z3.Implies(prem[0], L.concl(*L.args)) if prem else L.concl(*L.args))
