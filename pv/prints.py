"""Fingerprints of functions: their AST without docstrings, annotations and positions."""
import ast, difflib, functools, hashlib, glob, json, os


def strip(n):
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            if x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) and isinstance(x.body[0].value.value, str):
                x.body = x.body[1:] or [ast.Pass()]
            if isinstance(x, ast.FunctionDef):
                x.returns = None
        if isinstance(x, ast.arg):
            x.annotation = None
    return n


def prints_of(root):
    """{Class.function: {fingerprint}} of the package, tests left out."""
    out = {}
    for f in glob.glob(os.path.join(root, "pytimize", "**", "*.py"), recursive=True):
        if "tests" in f.split(os.sep):
            continue
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue

        def add(name, n):
            out.setdefault(name, set()).add(hashlib.sha256(ast.dump(strip(n)).encode()).hexdigest()[:16])
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                add(st.name, st)
            elif isinstance(st, ast.ClassDef):
                for m in st.body:
                    if isinstance(m, ast.FunctionDef):
                        add(f"{st.name}.{m.name}", m)
    return out


def loops(node):
    """The loops of a function body, in source order."""
    out = []

    def visit(body):
        for st in body:
            if isinstance(st, (ast.For, ast.While)):
                out.append(st)
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ("body", "orelse", "finalbody"):
                if hasattr(st, f):
                    visit(getattr(st, f))
            for h in getattr(st, "handlers", []):
                visit(h.body)
    visit(node.body)
    return out


def loops_of(root):
    """{Class.function: [text of each loop]} of the package, tests left out."""
    out = {}
    for f in glob.glob(os.path.join(root, "pytimize", "**", "*.py"), recursive=True):
        if "tests" in f.split(os.sep):
            continue
        for st in ast.parse(open(f).read()).body:
            for name, n in [(st.name, st)] if isinstance(st, ast.FunctionDef) else \
                    [(f"{st.name}.{m.name}", m) for m in st.body if isinstance(m, ast.FunctionDef)] if isinstance(st, ast.ClassDef) else []:
                if loops(n):
                    out[name] = [ast.unparse(x) for x in loops(n)]
    return out


@functools.lru_cache(None)
def recorded():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")
    return json.load(open(p)) if os.path.exists(p) else {}


_matched = {}


def loop_numbers(node, qual):
    """{id(loop): number}: a loop has the number of the recorded loop it is (most like), so that invariants stay with
    their loops when others come, go or change places. A loop like none of the recorded ones has no number."""
    if id(node) in _matched:
        return _matched[id(node)][1]
    now, then = loops(node), recorded().get(qual)
    if then is None or [ast.unparse(x) for x in now] == then:
        out = {id(x): k for k, x in enumerate(now)}
    else:
        words = lambda t: t.replace("(", " ( ").replace(")", " ) ").replace("[", " [ ").replace(".", " . ").split()
        new, old = [words(ast.unparse(x)) for x in now], [words(t) for t in then]
        pairs = sorted((-difflib.SequenceMatcher(None, new[i], old[j], autojunk=False).ratio(), abs(i - j), i, j) for i in range(len(new)) for j in range(len(old)))
        got = {}
        for r, _, i, j in pairs:
            if i not in got and j not in got.values() and -r >= 0.5:
                got[i] = j
        if len(new) == len(old):  # the rest was rewritten in place
            rest = [j for j in range(len(old)) if j not in got.values()]
            for i in range(len(new)):
                if i not in got:
                    got[i] = rest.pop(0)
        out = {id(x): got[i] for i, x in enumerate(now) if i in got}
    _matched[id(node)] = (node, out)
    return out
