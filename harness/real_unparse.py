"""Renders trees with the real unparser, and splits the text into the tokens of Syntax.tla."""
import ast, copy, io, json, re, sys, tokenize, warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(4000)
import trees
from mcpyrate.unparser import unparse, UnparserError
from mcpyrate.colorizer import Fore, Back, Style
from mcpyrate import markers, core, expander

CODES = sorted({v for S in (Fore, Back, Style) for k, v in vars(S).items() if isinstance(v, str) and v.startswith("\x1b")} |
               {v for S in (type(Fore), type(Back), type(Style)) for k, v in vars(S).items() if isinstance(v, str) and v.startswith("\x1b")}, key=len, reverse=True)
SGR = re.compile("|".join(map(re.escape, CODES)) + r"|\x1b\[[0-9;]*m")


class Mine(markers.ASTMarker):
    def __init__(self, body, extra=None):
        super().__init__(body)
        self.extra = extra
        self._fields = self._fields + ["extra"]


def tokens(text):
    out, quote, depth = [], [], 0
    for t in tokenize.generate_tokens(io.StringIO(text + "\n").readline):
        n = tokenize.tok_name[t.type]
        tok = lambda k, s="", v=trees.NIL: out.append({"k": k, "s": s, "v": v})
        const = lambda v, kind=None: trees.enc(ast.Constant(value=v, kind=kind), loc=False)
        if n == "NAME":
            tok("n", trees.asc(t.string))
        elif n == "OP":
            tok("o", t.string)
        elif n in ("NUMBER", "STRING"):
            tok("c", "", const(ast.literal_eval(t.string), "u" if n == "STRING" and t.string[0] in "uU" else None))
        elif n == "FSTRING_START":
            q = t.string.lstrip("fFrR")
            quote.append((t.string[:-len(q)].replace("f", "").replace("F", ""), q))
            tok("fs")
        elif n == "FSTRING_MIDDLE":
            p, q = quote[-1]
            s = t.string
            if len(q) == 1 and "\n" in s:
                s = s.replace("\n", "\\n")
            tok("fm", "", const(ast.literal_eval(p + q + s + q)))
        elif n == "FSTRING_END":
            quote.pop()
            tok("fe")
        elif n == "NEWLINE":
            tok("nl")
        elif n == "INDENT":
            tok("in")
        elif n == "DEDENT":
            tok("out")
        elif n in ("NL", "COMMENT", "ENDMARKER"):
            pass
        else:
            tok("?", t.string)
    return out


def captures():
    """Hygienic captures as macros make them: of a value called val, of a macro called mac (both as code)."""
    from mcpyrate import quotes
    m = expander.MacroExpander({"q": quotes.q, "h": quotes.h, "mac": quotes.s}, "f.py")
    t = m.visit(ast.parse("q[h[val]]", mode="eval"))
    import mcpyrate, mcpyrate.quotes
    val = eval(compile(ast.fix_missing_locations(t), "f.py", "eval"), {"val": 21, "mcpyrate": mcpyrate, "ast": ast})
    t = m.visit(ast.parse("q[h[mac]]", mode="eval"))
    mac = [x for x in ast.walk(t) if quotes.is_captured_macro(x)]
    assert mac and quotes.is_captured_value(val)
    return {"val": val, "mac": mac[0]}


def capture(stmts, rng, caps):
    """Put captures in place of some names in a copy; another copy with names in the same places."""
    plan, out = {}, []
    for which in (0, 1):
        k = [0]
        class C(ast.NodeTransformer):
            def visit_Name(self, t):
                k[0] += 1
                if not isinstance(t.ctx, ast.Load) or plan.setdefault(k[0], next(rng) % 3) == 0:
                    return t
                n = ("", "val", "mac")[plan[k[0]]]
                return ast.copy_location(copy.deepcopy(caps[n]) if which else ast.Name(id="_%s_" % n, ctx=ast.Load()), t)
            def generic_visit(self, t):
                return t if isinstance(t, (ast.JoinedStr, ast.pattern)) else super().generic_visit(t)
        out.append([C().visit(s) for s in copy.deepcopy(stmts)])
    return out[0], out[1], any(plan.values())


def value(code, flat):
    try:
        v = eval(code, {})
        if isinstance(v, complex) or flat:          # no literal has a negative zero as a part
            z = lambda x: x + 0.0 if isinstance(x, float) else x
            return repr(complex(z(v.real), z(v.imag)) if isinstance(v, complex) else z(v))
        return repr(v)
    except Exception as e:
        return type(e).__name__


def mark(stmts, rng):
    """Put markers into a copy; return it and how many."""
    stmts, n = copy.deepcopy(stmts), [0]
    kinds = [lambda b: core.Done(b), lambda b: Mine(b), lambda b: Mine(b, [ast.Name(id="e", ctx=ast.Load())]), lambda b: Mine(b, "text")]
    class M(ast.NodeTransformer):
        def generic_visit(self, t):
            if isinstance(t, (ast.JoinedStr, ast.pattern)):
                return t
            super().generic_visit(t)
            if isinstance(t, ast.expr) and not isinstance(t, (ast.Starred, ast.Slice)) and next(rng) % 6 == 0 or isinstance(t, ast.stmt) and next(rng) % 4 == 0:
                n[0] += 1
                return kinds[next(rng) % 4]([t, ast.Pass()] if isinstance(t, ast.stmt) and next(rng) % 3 == 0 else t)
            return t
    return [M().visit(s) for s in stmts], n[0]


def numbers(seed):
    x = seed * 2654435761 % 2**32 + 1
    while True:
        x = (1103515245 * x + 12345) % 2**31
        yield x >> 8


PARTS = tuple(getattr(ast, k) for k in ("expr", "stmt", "excepthandler", "arguments", "arg", "keyword", "alias", "withitem", "match_case", "pattern", "comprehension", "type_param", "mod"))


def main():
    out = open(sys.argv[2], "a")
    exp = expander.MacroExpander({"a": lambda tree, **kw: tree, "print": lambda tree, **kw: tree}, "f.py")
    caps = captures()
    for line in open(sys.argv[1]):
        job = json.loads(line)
        r = {"_i": job["_i"], "bad": []}
        stmts = trees.dec(job["tree"])
        want = job["tree"]
        if job.get("value"):        # numbers that have no literal of their own: what it computes is what counts
            try:
                t = ast.fix_missing_locations(ast.Expression(body=stmts[0].value))
                text = unparse(stmts)
                r["text"] = text
                flat = any(isinstance(x, ast.Constant) and isinstance(x.value, complex) for x in ast.walk(t))
                a, b = value(compile(t, "f.py", "eval"), flat), value(text, flat)
                if a != b:
                    r["bad"].append("computes %s instead of %s" % (b, a))
            except BaseException as e:
                r["bad"].append("cannot render: %r" % e)
            out.write(json.dumps(r) + "\n")
            out.flush()
            continue
        try:
            text = unparse(stmts)
            r["text"] = text
            if unparse(ast.Module(body=stmts, type_ignores=[])) != text:
                r["bad"].append("a module is rendered unlike the list of its statements")
            if trees.enc(stmts, loc=False) != job["tree"]:
                r["bad"].append("the tree was changed")
        except BaseException as e:
            r["bad"].append("cannot render: %r" % e)
            text = None
        if text is not None:
            try:
                got = trees.enc(ast.parse(text).body, loc=False)
                r["same"] = got == want
                if got != want:
                    r["bad"].append("reads as another tree")
            except BaseException as e:
                r["same"] = False
                r["bad"].append("cannot be parsed: %s" % e)
            try:
                r["toks"] = tokens(text)
            except BaseException as e:
                r["toks"] = [{"k": "?", "s": "", "v": trees.NIL}]
        # the standard renderer's text, to validate the specification
        std = ast.unparse(ast.fix_missing_locations(ast.Module(body=trees.dec(job["tree"]), type_ignores=[])))
        try:
            r["std"] = tokens(std)
        except BaseException as e:
            r["std"] = [{"k": "?", "s": "", "v": trees.NIL}]
        rng = numbers(job["_i"] + job.get("salt", 0))
        marked, n = mark(stmts, rng)
        for what, t, k in (("", stmts, 0), ("with markers ", marked, n)):
            for debug in (False, True):
                for e in (None, exp):
                    try:
                        plain, color = unparse(t, debug=debug, expander=e), unparse(t, debug=debug, color=True, expander=e)
                    except BaseException as err:
                        r["bad"].append("cannot render %s(debug=%s): %r" % (what, debug, err))
                        continue
                    if "\x1b" in plain:
                        r["bad"].append("color codes without color")
                    if SGR.sub("", color) != plain:
                        a, b = SGR.sub("", color), plain
                        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                        r["bad"].append("%scolor changes the text (debug=%s): %r for %r" % (what, debug, a[i:i + 30], b[i:i + 30]))
                    if not debug and e is None and text is not None and not k and plain != text:
                        r["bad"].append("rendered differently the second time")
                    if k and plain.count("$ASTMarker<") != k:
                        r["bad"].append("%d markers, shown %d" % (k, plain.count("$ASTMarker<")))
        named, capt, k = capture(ast.parse(text).body, rng, caps) if job["_i"] % 3 == 0 and r.get("same") else (None, None, False)
        if k:
            try:
                a, b = unparse(named, debug=True).replace("_val_", "$h[val]").replace("_mac_", "$h[mac]"), unparse(capt, debug=True)
                if a != b:
                    r["bad"].append("with captures: %r, not %r" % (b, a))
                if SGR.sub("", unparse(capt, debug=True, color=True)) != a:
                    r["bad"].append("with captures: color changes the text")
                a = ast.parse(unparse(capt)).body
                if trees.enc(a, loc=False) != trees.enc(capt, loc=False):
                    r["bad"].append("the code of captures reads as another tree")
            except BaseException as err:
                r["bad"].append("cannot render captures: %r" % err)
        # parts on their own
        seen = set()
        for s in stmts:
            for t in ast.walk(s):
                if isinstance(t, PARTS) and type(t) not in seen:
                    seen.add(type(t))
                    for debug in (False, True):
                        try:
                            unparse(t, debug=debug)
                        except BaseException as err:
                            r["bad"].append("cannot render a part, %s (debug=%s): %r" % (type(t).__name__, debug, err))
        for s in stmts:
            if isinstance(s, ast.Expr):
                for m in (ast.Expression(body=s.value), ast.Interactive(body=[s])):
                    try:
                        if text is not None and len(stmts) == 1 and unparse(m) != text:
                            r["bad"].append("rendered differently in %s" % type(m).__name__)
                    except BaseException as err:
                        r["bad"].append("cannot render %s: %r" % (type(m).__name__, err))
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
