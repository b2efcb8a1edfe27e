"""Dumps trees, and tells their lines and docstrings."""
import ast, copy, json, re, sys, warnings
warnings.simplefilter("ignore")
import mcpyrate
from mcpyrate.markers import ASTMarker
from mcpyrate.utils import get_lineno, getdocstring, format_location, format_context
from mcpyrate.unparser import unparse_with_fallbacks

SGR = re.compile(r"\x1b\[[0-9;]*m")


class Mark(ASTMarker):
    pass


ENV = dict(vars(ast), Mark=lambda body=None, **kw: Mark(body), Ellipsis=..., inf=float("inf"), nan=float("nan"))


def asc(s):
    s = re.sub("0x[0-9a-f]{6,}", "0x", s)
    return "".join(x if x.isascii() else x.encode("unicode_escape").decode("ascii") for x in s)


def val(x):
    r = repr(x)
    return {"k": "val", "v": asc(r), "n": len(r), "str": isinstance(x, str)}


def enc(t):
    if isinstance(t, ast.AST):
        fs = [f for f in t._fields if hasattr(t, f)]
        at = list(t._attributes)
        return {"k": "node", "v": type(t).__name__, "n": len(type(t).__name__), "f": fs, "fn": [len(f) for f in fs], "c": [enc(getattr(t, f)) for f in fs],
                "a": at, "an": [len(f) for f in at], "d": [val(getattr(t, f, None)) for f in at]}
    if isinstance(t, list):
        return {"k": "list", "c": [enc(x) for x in t]}
    return val(t)


def build(job):
    """The tree of a job: its source parsed, then changed as it says."""
    t = ast.parse(job["src"])
    t = t.body if job["as"] in ("body", "doc") else t.body[0] if job["as"] == "stmt" and t.body else t
    ns = [n for x in (t if isinstance(t, list) else [t]) for n in ast.walk(x)] or [ast.Pass()]
    for i in job["bare"]:
        n = ns[i % len(ns)]
        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            if a in vars(n):
                delattr(n, a)
    for i in job["mark"]:
        n = ns[i % len(ns)]
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.expr):
                setattr(n, f, Mark(v))
                break
            if isinstance(v, list) and v and isinstance(v[0], (ast.stmt, ast.expr)):
                v[0] = Mark(v[0])
                break
    for i in job["gone"]:
        n = ns[i % len(ns)]
        for f in list(n._fields):
            if f in ("type_comment", "kind", "returns", "decorator_list", "ctx") and hasattr(n, f):
                if f in vars(n):
                    delattr(n, f)
                break
    return t


def text(toks):
    out = ""
    for t in toks:
        out += {"open": t["v"] + "(", "lopen": "[", "close": ")", "lclose": "]", "field": t["v"] + "=", "val": t["v"],
                "sep": ",\n" + " " * t["col"] if t["nl"] else ", "}[t["k"]]
    return out


def same(a, b, attrs):
    if isinstance(a, ast.AST):
        return type(a) is type(b) and all(hasattr(a, f) == hasattr(b, f) and same(getattr(a, f, None), getattr(b, f, None), attrs) for f in a._fields) and (
            not attrs or all(getattr(a, f, None) == getattr(b, f, None) for f in a._attributes))
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, attrs) for x, y in zip(a, b))
    return type(a) is type(b) and repr(a) == repr(b)


def run(job, t):
    r = {}
    before = enc(t)
    for attrs in (False, True):
        for lines in (False, True):
            d = mcpyrate.dump(t, include_attributes=attrs, multiline=lines)
            r["%d%d" % (attrs, lines)] = asc(d)
            c = mcpyrate.dump(t, include_attributes=attrs, multiline=lines, color=True)
            if SGR.sub("", c) != d:
                r["flaw"] = "color changes the text"
            try:
                if not same(t, eval(d, ENV), attrs):
                    r["flaw"] = "the dump is of another tree"
            except Exception as e:
                r["flaw"] = "the dump does not evaluate: %r" % e
    r["line"] = str(get_lineno(t) or "")
    doc = getdocstring(t) if isinstance(t, list) else None
    r["doc"] = "" if doc is None else asc(repr(doc))
    for src in ("one line", "two\nlines", "", None):
        l = SGR.sub("", format_location("file.py", t, src))
        want = "file.py:%s:%s" % (r["line"] or None, "" if not src else ("\n" if "\n" in src else " ") + src)
        if l != want:
            r["flaw"] = "location %r, not %r" % (l, want)
    r["shown"] = [asc(x) for x in SGR.sub("", format_context(t, n=job["max"])).split("\n")]
    if enc(t) != before:
        r["flaw"] = "the tree has been changed"
    return r


def main():
    out = open(sys.argv[2], "a")
    for line in open(sys.argv[1]):
        job = json.loads(line)
        t = build(job)
        if job["what"] == "encode":
            r = {"tree": enc(t), "src": [asc(x) for x in unparse_with_fallbacks(t, debug=True, color=False).split("\n")]}
        else:
            r = run(job, t)
        out.write(json.dumps(dict(r, _i=job["_i"])) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
