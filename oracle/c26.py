def isword(s):
    return len(s) > 0 and all(ch.isalnum() and ord(ch) < 128 or ch == "_" for ch in s)


def isnum(s):
    d = lambda q: len(q) > 0 and all(ch in "0123456789" for ch in q)
    if "." in s:
        a, _, b = s.partition(".")
        return d(a) and d(b)
    return d(s)


def graph_truth(text):
    if text == "":
        return None
    terms = text.split(" ")
    kinds, out = set(), []
    for t in terms:
        head, colon, w = t.partition(":")
        if colon and not isnum(w):
            return None
        if "-" in head:
            a, _, b = head.partition("-")
            if not isword(a) or not isword(b):
                return None
            kinds.add(("h", colon))
        else:
            if len(head) != 2 or not isword(head):
                return None
            a, b = head
            kinds.add(("t", colon))
        out.append((a, b, float(w) if colon else 0))
    return out if len(kinds) == 1 else None


def linear_truth(text):
    """{index: coefficient} or None."""
    if not text:
        return None
    if text[0] == "-":
        text, sign = text[1:], -1
    else:
        sign = 1
    data = {}
    while True:
        k = min([i for i in (text.find("+"), text.find("-")) if i >= 0], default=len(text))
        term, rest = text[:k], text[k:]
        co, x, ix = term.partition("x_")
        if not x or not isnum(co) or not ix or not all(ch in "0123456789" for ch in ix):
            return None
        i = int(ix)
        if i == 0 or i in data:
            return None
        data[i] = sign * float(co)
        if not rest:
            return data
        sign, text = (1 if rest[0] == "+" else -1), rest[1:]


def cases(tier, r):
    num = lambda: r.choice(["0", "1", "12", "3.5", "0.25", "10.0", "007", str(r.randint(0, 999))])
    L = "abcXYz"
    word = lambda: "".join(r.choice(L + "_12") for _ in range(r.randint(1, 4)))
    fixed = ["", " ", "ab", "abc", "a", "ab ", " ab", "ab  cd", "ab cd", "a-b", "a-b c-d", "a-", "-b", "a-b-c", "ab:1", "ab:1.5", "ab:", "ab:.5", "ab:1.", "ab:-1", "ab cd:1",
             "ab a-b", "a-b:1 cd:2", "ab:1 cd:2.5", "abc-d:3 e-f:4", "ab,cd", "ab;cd", "a b", "ab:1cd:2", "aa", "a-a:0", "ab:1e5", "ab: 1", "a -b", "ab:1 ", "ab:1:2"]
    for t in fixed:
        yield dict(k="g", t=t)
    for t in ["", "1x_1", "x_1", "-1x_1", "+1x_1", "1x_1+2x_2", "1x_1-2x_2", "2.5x_3", "2.x_3", ".5x_1", "1x_0", "1x_1+1x_1", "1x_01", "1x_1+2x_01", "1x1", "1x_", "1x_1 + 2x_2", "1x_1--2x_2", "1x_1|2x_2",
              "|1x_1", "3x_12", "1x_1+", "--1x_1", "1y_1", "1x_-1", "1x_1.5", "0x_1", "0x_5", "1x_2-3.25x_1", "1 x_1", "1x_1+-2x_2", "1x_12x_2", "1x_1*2", "-0x_2+5x_1"]:
        for size in (None, 12):
            yield dict(k="l", t=t, size=size)
    while True:
        if r.random() < 0.5:
            kind = r.choice(["t", "h"])
            w = r.random() < 0.5
            terms = []
            for _ in range(r.randint(1, 4)):
                h = r.choice(L) + r.choice(L) if kind == "t" else word() + "-" + word()
                terms.append(h + (":" + num() if w else ""))
                if r.random() < 0.03:
                    w = not w
                if r.random() < 0.03:
                    kind = "h" if kind == "t" else "t"
            t = " ".join(terms)
            key = "g"
        else:
            ix = r.sample(range(1, 15), r.randint(1, 4))
            if r.random() < 0.08:
                ix.append(r.choice(ix))
            if r.random() < 0.05:
                ix[-1] = 0
            t = r.choice(["", "", "-"])
            for i, j in enumerate(ix):
                t += ("" if i == 0 else r.choice("+-")) + num() + "x_" + str(j)
            key = "l"
        if r.random() < 0.35:
            i = r.randint(0, len(t))
            ch = r.choice(list("ab1:.-+ x_0|5,"))
            t = r.choice([t[:i] + ch + t[i:], t[:i] + t[i + 1:], t[:i] + ch + t[i + 1:]])
        if key == "g":
            yield dict(k="g", t=t)
        else:
            yield dict(k="l", t=t, size=r.choice([None, None, 14, 20, 3]))


def check(c):
    import numpy as np
    from pytimize.parsers._graph import GraphParser
    from pytimize.parsers._linear import LinearParser
    t = c["t"]
    if c["k"] == "g":
        exp = graph_truth(t)
        try:
            got = GraphParser.parse(t)
        except ValueError:
            return f"{t!r} was rejected" if exp is not None else None
        if exp is None:
            return f"{t!r} was accepted as {got}"
        if [tuple(q) for q in got] != exp:
            return f"{t!r} was read as {got}, expected {exp}"
        return None
    exp = linear_truth(t)
    size = c["size"]
    if exp is not None and size is not None and max(exp) > size:
        exp = None
    if exp is not None and max(exp) > 5000:
        return None
    try:
        got = LinearParser.parse(t, size) if size is not None else LinearParser.parse(t)
    except Exception:
        return f"{t!r} (size {size}) was rejected" if exp is not None else None
    if exp is None:
        return f"{t!r} (size {size}) was accepted as {got}"
    n = size if size is not None else max(exp)
    want = [exp.get(j, 0.0) for j in range(1, n + 1)]
    if got.shape != (1, n) or got[0].tolist() != want:
        return f"{t!r} was read as {got.tolist()}, expected {[want]}"
    return None
