"""Regular expressions on an unknown text.

What `re` accepts is decided on languages: a pattern is parsed by Python's own parser, its character classes are read
off Python's own re over all code points, and membership goes to z3 as InRe constraints on one string constant. What
`findall` returns is worked out for a text known to be a sequence of tokens: the pattern is run, with the priorities of
re, along the segments of an arbitrary token; a step whose outcome depends on more than the segments leaves the unit
undecided."""
import functools
import re
import re._parser as sre
import sys
import z3
from core import *
import core
import interp as I
from interp import BMethod
import builtins_model as B

# every ASCII character, and one representative of each other kind of character
CATS = {"w": r"\w", "d": r"\d", "s": r"\s"}


@functools.lru_cache(None)
def alphabet():
    text = "".join(map(chr, range(128, sys.maxunicode + 1)))
    sets = [set(re.findall(p, text)) for p in CATS.values()]
    reps = {}
    for group in sets:
        for ch in group:
            reps.setdefault(tuple(ch in s for s in sets), None)
    for sig in list(reps):
        reps[sig] = min(ch for ch in set.union(*sets) if tuple(ch in s for s in sets) == sig)
    reps[(False,) * 3] = next(ch for ch in text if not any(ch in s for s in sets))
    return tuple(map(chr, range(128))) + tuple(sorted(reps.values()))


def every():
    return frozenset(alphabet())


def category(name, ascii_only):
    p = re.compile(CATS[name], re.A if ascii_only else 0)
    return frozenset(c for c in alphabet() if p.match(c))


W, D, SPACE = category("w", False), category("d", False), category("s", False)


def chars_of(op, av, ascii_only):
    """The symbols one step of a pattern takes, or None when it is not a one-character step."""
    o = str(op)

    def lit_(c):
        if c > 127:
            raise Unsupported("a pattern with other than ASCII characters")
        return frozenset(chr(c))
    if o == "LITERAL":
        return lit_(av)
    if o == "NOT_LITERAL":
        return every() - lit_(av)
    if o == "ANY":
        return every() - frozenset("\n")
    if o == "CATEGORY":
        n = str(av).split("_", 1)[1]
        neg = n.startswith("NOT_")
        k = {"WORD": "w", "DIGIT": "d", "SPACE": "s"}.get(n[4:] if neg else n)
        if k is None:
            raise Unsupported(f"character category {n}")
        c = category(k, ascii_only)
        return every() - c if neg else c
    if o == "IN":
        out, neg = frozenset(), False
        for op2, av2 in av:
            if str(op2) == "NEGATE":
                neg = True
            elif str(op2) == "RANGE":
                if av2[1] > 127:
                    raise Unsupported("a pattern with other than ASCII characters")
                out |= frozenset(map(chr, range(av2[0], av2[1] + 1)))
            else:
                out |= chars_of(op2, av2, ascii_only)
        return every() - out if neg else out
    return None


EPS, NONE = z3.Re(z3.StringVal("")), None


@functools.lru_cache(None)
def re_of_chars(chars):
    cs, out, i = sorted(map(ord, chars)), [], 0
    unit = lambda c: z3.Unit(z3.CharVal(c))
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        out.append(z3.Range(unit(cs[i]), unit(cs[j])) if j > i else z3.Re(unit(cs[i])))
        i = j + 1
    return z3.Union(*out) if len(out) > 1 else out[0] if out else z3.Empty(z3.ReSort(z3.StringSort()))


def cat(*rs):
    rs = [r for r in rs if not r.eq(EPS)]
    return EPS if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)


def alt(*rs):
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def anything():
    return z3.Star(re_of_chars(every()))


class Pattern:
    """A compiled regular expression."""

    def __init__(self, source, flags=0):
        try:
            self.tree = sre.parse(source, flags)
        except re.error:
            raise PyRaise("Exception", "re.error", True)
        f = self.tree.state.flags
        if f & ~(re.A | re.U | re.X):
            raise Unsupported("flags of a regular expression")
        self.source, self.ascii = source, bool(f & re.A)
        self.groups = self.tree.state.groups - 1

    # ---- the language
    def lang(self, items):
        return cat(*[self.step(op, av) for op, av in items])

    def step(self, op, av):
        c = chars_of(op, av, self.ascii)
        if c is not None:
            return re_of_chars(c)
        o = str(op)
        if o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            r = self.lang(sub)
            if str(hi) == "MAXREPEAT":
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else cat(*[r] * lo, z3.Star(r))
            return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
        if o == "SUBPATTERN":
            if av[1] or av[2]:
                raise Unsupported("flags inside a regular expression")
            return self.lang(av[3])
        if o == "BRANCH":
            return alt(*[self.lang(x) for x in av[1]])
        raise Unsupported(f"regular expression step {o}")

    def accepted(self, how):
        """The texts on which match / fullmatch / search finds something."""
        items = list(self.tree)
        pre, post = EPS if how != "search" else anything(), anything()
        while items and str(items[0][0]) == "AT":
            if str(items[0][1]) not in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                raise Unsupported(f"regular expression step {items[0][1]}")
            pre, items = EPS, items[1:]
        if items and str(items[-1][0]) == "AT":
            at = str(items[-1][1])
            if at not in ("AT_END", "AT_END_STRING"):
                raise Unsupported(f"regular expression step {at}")
            post, items = alt(EPS, re_of_chars(frozenset("\n"))) if at == "AT_END" else EPS, items[:-1]
        if how == "fullmatch":
            post = EPS
        return cat(pre, self.lang(items), post)

    # ---- methods
    def py_truth(self, interp):
        return True

    def py_method(self, interp, name, args, kw):
        ctx = interp.ctx
        t = ctx.ghost.get("text")
        if kw or len(args) != 1 or t is None or not isinstance(args[0], SV) or not args[0].t.eq(t.name):
            raise Unsupported(f"Pattern.{name} on something else than the text")
        if name in ("match", "fullmatch", "search"):
            lang = self.accepted(name)
            d = ctx.choose(2)
            t.learn(z3.InRe(t.z, lang) if d == 0 else z3.Not(z3.InRe(t.z, lang)))
            return Match() if d == 0 else None
        if name in ("findall", "finditer"):
            return t.find_all(interp, self, name == "finditer")
        raise Unsupported(f"Pattern.{name}")


class Match:
    """What match returned: only that there is something."""

    def __init__(self, groups=None, whole=None):
        self.groups, self.whole = groups, whole

    def py_truth(self, interp):
        return True

    def py_method(self, interp, name, args, kw):
        if self.groups is not None and not kw:
            if name == "groups" and not args:
                return tuple(self.groups)
            if name == "group" and len(args) == 1 and isinstance(args[0], int) and 1 <= args[0] <= len(self.groups):
                return self.groups[args[0] - 1]
        raise Unsupported(f"Match.{name}")

    def py_getitem(self, interp, k):
        return self.py_method(interp, "group", [k], {})


@B.builtin("re.compile")
def re_compile(interp, args, kw):
    flags = kw.get("flags", args[1] if len(args) > 1 else 0)
    if isinstance(args[0], Pattern):
        return args[0]
    if not isinstance(args[0], str) or not isinstance(flags, int):
        raise Unsupported("re.compile of an unknown pattern")
    return Pattern(args[0], flags)


def direct(name):
    def f(interp, args, kw):
        return re_compile(interp, [args[0]] + list(args[2:]), kw).py_method(interp, name, [args[1]], {})
    B.builtin("re." + name)(f)


for _n in ("match", "fullmatch", "search", "findall", "finditer"):
    direct(_n)


# ---------------------------------------------------------------- texts made of tokens
class Seg:
    """A part of a token: one character of a class, or one or more of them; parts with one label belong together."""

    def __init__(self, chars, many=False, label=None):
        self.chars, self.many, self.label = frozenset(chars), many, label

    def lang(self):
        r = re_of_chars(self.chars)
        return z3.Plus(r) if self.many else r


END, MORE = "end", "more"


class Undecided(Exception):
    pass


class Fail(Exception):
    pass


class Scan:
    """One attempt of a pattern at the start of a list of segments."""

    def __init__(self, pattern, segs):
        self.p, self.segs, self.choice, self.groups = pattern, segs, False, {}

    def attempt(self):
        """The position reached, or None when the pattern does not match here."""
        try:
            return self.run(self.p.tree, 0)
        except Fail:
            if self.choice:
                raise Undecided("a match that needs backtracking")
            return None

    def run(self, items, i):
        for op, av in items:
            i = self.step(op, av, i)
        return i

    def fits(self, c, i):
        s = self.segs[i]
        if s is END:
            return False
        if s is MORE:
            raise Undecided("a match that runs past the token")
        if s.chars <= c:
            return True
        if not s.chars & c:
            return False
        raise Undecided("a class that splits a part of a token")

    def optional(self, sub, i):
        c0, g0 = self.choice, dict(self.groups)
        self.choice = False
        try:
            j = self.run(sub, i)
        except Fail:
            if self.choice:
                raise Undecided("a match that needs backtracking")
            self.choice, self.groups = c0, g0
            return None
        self.choice = True
        return j

    def step(self, op, av, i):
        c = chars_of(op, av, self.p.ascii)
        if c is not None:
            if not self.fits(c, i):
                raise Fail()
            if self.segs[i].many:
                raise Undecided("one character out of many")
            return i + 1
        o = str(op)
        if o == "MAX_REPEAT":
            lo, hi, sub = av
            hi = None if str(hi) == "MAXREPEAT" else hi
            sub = list(sub)
            c = chars_of(*sub[0], self.p.ascii) if len(sub) == 1 else None
            n = 0
            while hi is None or n < hi:
                if c is not None:
                    if not self.fits(c, i):
                        break
                    if self.segs[i].many and hi is not None:
                        raise Undecided("a bounded repetition")
                    if n >= lo or self.segs[i].many:
                        self.choice = True
                    i += 1
                elif n < lo:
                    i = self.run(sub, i)
                else:
                    j = self.optional(sub, i)
                    if j is None:
                        break
                    if j == i:
                        raise Undecided("a repetition of nothing")
                    i = j
                n += 1
            if n < lo:
                if any(s not in (END, MORE) and s.many for s in self.segs[i - n:i]):
                    raise Undecided("a bounded repetition")
                raise Fail()
            return i
        if o == "SUBPATTERN":
            if av[1] or av[2]:
                raise Undecided("flags inside a pattern")
            j = self.run(av[3], i)
            if av[0] is not None:
                self.groups[av[0]] = (i, j)
            return j
        if o == "BRANCH":
            for k, sub in enumerate(av[1]):
                if k == len(av[1]) - 1:
                    return self.run(sub, i)
                j = self.optional(sub, i)
                if j is not None:
                    return j
        raise Undecided(f"step {o}")


class Notation:
    """Texts that are one or more tokens: `first` and `later` list the shapes of the first and the later tokens,
    `between` the segments that separate two. A label names one function of the token number."""

    def __init__(self, name, first, later=None, between=()):
        self.name, self.first, self.later, self.between = name, first, later or first, list(between)

    def language(self):
        shape = lambda ss: alt(*[cat(*[s.lang() for s in q]) for q in ss])
        return cat(shape(self.first), z3.Star(cat(*[s.lang() for s in self.between], shape(self.later))))

    def read(self, pattern):
        """Which labels the groups of the pattern get on every token, provided it takes the tokens one by one."""
        nl = [Seg("\n")]
        tails = [[END], nl + [END]] + [self.between + q + [MORE] for q in self.later]
        out = None
        for q in self.first + self.later:
            for tail in tails:
                s = Scan(pattern, q + tail)
                if s.attempt() != len(q):
                    raise Undecided("the pattern does not take whole tokens")
                g = tuple(self.label(q, s.groups.get(k)) for k in range(1, pattern.groups + 1))
                if out is not None and g != out:
                    raise Undecided("groups that depend on the token")
                out = g
        gaps = [[END], nl + [END]]
        for k in range(len(self.between)):
            gaps += [self.between[k:] + q + [MORE] for q in self.later]
        for tail in gaps:
            if Scan(pattern, tail).attempt() is not None:
                raise Undecided("the pattern matches between tokens")
        return out

    def label(self, q, span):
        if span is None or span[0] == span[1]:
            # nothing: the label of an empty part, if the shapes have one
            have = {s.label for s in q}
            empty = {s.label for r in self.first + self.later for s in r if s.label and s.label.startswith("?")} - have
            if len(empty) == 1:
                return empty.pop()
            return ""
        part = q[span[0]:span[1]]
        names = {s.label for s in part}
        if len(names) != 1 or None in names or any(s.label in names for s in q[:span[0]] + q[span[1]:]):
            raise Undecided("a group that is no part of a token")
        return names.pop()


class Text:
    """The text of a unit: a name for the program, a z3 string for the languages."""

    def __init__(self, ctx, notation, values):
        self.ctx, self.z, self.name = ctx, z3.String("text"), z3.Const("text", Name)
        self.notation, self.values = notation, values
        self.facts = [z3.InRe(self.z, anything())]
        self.n = z3.Int("tokens")
        ctx.ghost["text"] = self
        if notation is not None:
            ctx.assume(self.n >= 1)
            ctx.assume(z3.Not(name_empty(self.name)))

    def learn(self, f):
        """A fact about the text; the path ends when there is no such text."""
        self.facts.append(f)
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*self.facts)
        core.STATS.queries += 1
        t0 = core.time.time()
        r = s.check()
        core.STATS.solver_s += core.time.time() - t0
        if r == z3.unsat:
            raise PathEnd()
        self.ctx.result.assumed.add("z3's decision procedure for regular languages")

    def example(self):
        """A text with the facts, for the report."""
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*self.facts)
        return s.model()[self.z].as_string() if s.check() == z3.sat else "?"

    def find_all(self, interp, pattern, matches):
        if self.notation is None:
            raise Unsupported("findall on a text outside the notation")
        try:
            labels = self.notation.read(pattern)
        except Undecided as e:
            raise Unsupported(f"findall: {e}")
        if not labels:
            raise Unsupported("findall without groups")
        value = lambda l, i: "" if l == "" else self.values[l](i)

        def elem(i):
            g = tuple(value(l, i) for l in labels)
            return Match(g) if matches else g if len(g) > 1 else g[0]
        return I.SeqIter(self.n, elem)


# ---------------------------------------------------------------- numbers written in a text
number_of, whole_of = z3.Function("number_of", Name, RealS), z3.Function("whole_of", Name, IntS)
minus_ = z3.Function("minus_", Name, Name)       # the text with "-" before it
signed_ = z3.Function("signed_", Name, Name, Name)  # a sign (or nothing) and a number


def join(ctx, a, b):
    """a + b for texts one of which belongs to a token; None when the result is nothing to look into."""
    dec = lambda v: isinstance(v, SV) and v.t.sort() == Name and v.tag in ("decimal", "digits")
    if a == "" and isinstance(b, SV):
        return b
    if b == "" and isinstance(a, SV):
        return a
    if not dec(b):
        return None
    if a in ("-", "+"):
        t = minus_(b.t)
        ctx.assume(number_of(t) == (-number_of(b.t) if a == "-" else number_of(b.t)))
        return SV(t, "signed") if a == "-" else b
    if isinstance(a, SV) and a.tag == "sign":
        t = signed_(a.t, b.t)
        ctx.assume(number_of(t) == z3.If(a.t == lit("-"), -number_of(b.t), number_of(b.t)))
        return SV(t, "signed")
    return None
