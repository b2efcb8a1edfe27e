"""Runs programs that quote code and expand it on demand; reports the value they
end with and the macros that were called."""
import ast, copy, io, json, re, sys, types, warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(5000)
import trees, real_expander
from trees import rec
from mcpyrate import astfixers, core, expander as E, markers, metatools, quotes
import mcpyrate

FILENAME = real_expander.FILENAME
COV = re.compile(r"^s:" + re.escape(FILENAME) + r":\d+ invoked macro '(\w+)'$")
QUOTES = {"qq": quotes.q, "uu": quotes.u, "aa": quotes.a, "ss": quotes.s, "tt": quotes.t, "nn": quotes.n, "hh": quotes.h}
TOOLS = ["expandsq", "expand1sq", "expandrq", "expand1rq", "expands", "expand1s", "expandr", "expand1r", "stepr",
         "expand_first", "fill_location", "macro_bindings"]


class Mark(markers.ASTMarker):
    pass


class Other:
    pass


def tidy(r):
    if r["k"] in ("ASTLiteral", "Unquote", "ASTList", "ASTTuple", "LiftSourcecode"):
        return rec("lit", "$" + r["c"][0]["c"][1]["c"][0]["c"][0]["v"][2:])
    if r["k"] == "lit":
        m = COV.match(r["v"])
        return rec("lit", "cov:" + m.group(1)) if m else r
    return dict(r, c=[tidy(x) for x in r["c"]])


class Recorder(real_expander.Recorder):
    def enc(self, t):
        return tidy(trees.enc(t))


def encv(x):
    """A value: trees, constants, containers."""
    if isinstance(x, ast.AST):
        return rec("Mark", c=[encv(x.body)]) if isinstance(x, Mark) else tidy(trees.enc(x))
    if x is None:
        return rec("~")
    if isinstance(x, list):
        return rec("[]", c=[encv(y) for y in x])
    if isinstance(x, tuple):
        return rec("$tuple", c=[encv(y) for y in x])
    if isinstance(x, dict):
        return rec("$dict", c=[rec("$pair", c=[encv(k), encv(v)]) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return rec("$set" if isinstance(x, set) else "$other", c=sorted((encv(y) for y in x), key=json.dumps))
    if isinstance(x, Other):
        return rec("$other")
    return rec("$const", c=[rec("lit", trees.lit(x))])


def decv(r):
    k = r["k"]
    if k == "$tuple":
        return tuple(decv(x) for x in r["c"])
    if k == "$dict":
        return {decv(p["c"][0]): decv(p["c"][1]) for p in r["c"]}
    if k == "$set":
        return {decv(x) for x in r["c"]}
    if k == "$other":
        return {"": Other, "frozenset": lambda: frozenset([1]), "marker": lambda: Mark(ast.Name(id="x", ctx=ast.Load())),
                "gen": lambda: (x for x in ()), "func": lambda: decv, "sub": lambda: type("S", (str,), {})("s"),
                "bytearray": lambda: bytearray(b"x"), "range": lambda: range(3)}[r["v"]]()
    if k == "$const":
        return trees.dec(r["c"][0])
    if k == "[]":
        return [decv(x) for x in r["c"]]
    return trees.dec(r)


def heads(inv, syntax, par):
    """The candidates in an invocation, in the order they are to be looked at."""
    if syntax == "expr":
        es = [inv.value]
    elif syntax == "name":
        es = [inv]
    elif syntax == "block":
        es = [i.context_expr for i in inv.items]
    else:
        es = inv.decorator_list[::-1]
    for e in es:
        if not par and syntax in ("block", "decorator") and isinstance(e, (ast.Subscript, ast.Call)):
            continue
        e = e.value if isinstance(e, ast.Subscript) else e.func if isinstance(e, ast.Call) else e
        if isinstance(e, ast.Name):
            yield e.id


def make_macros(job, R, mod):
    """name -> function; two names with the same "fn" are bound to the same function."""
    binds = job["binds"]
    per = {n: real_expander.make_macro(n, info, binds, R, E) for n, info in binds.items()}
    out = {}
    for n, info in binds.items():
        same = [k for k in binds if binds[k].get("fn", k) == info.get("fn", n)]
        if len(same) == 1:
            f = per[n]
        elif same[0] in out:
            f = out[same[0]]
        else:
            def f(tree, *, syntax, invocation, _same=same, _par=info["par"], **kw):
                w = [h for h in heads(invocation, syntax, _par) if h in _same]
                return per[w[0]](tree, syntax=syntax, invocation=invocation, **kw)
            if info["par"]:
                f = E.parametricmacro(f)
            if info["nam"]:
                f = E.namemacro(f)
        name = info.get("fn", n)
        f.__name__ = f.__qualname__ = name
        f.__module__ = mod.__name__
        setattr(mod, name, f)
        out[n] = f
    return out


def root(e):
    while e.__cause__ and not isinstance(e, real_expander.Boom):
        e = e.__cause__
    return e


def why(e):
    c = root(e)
    if isinstance(c, real_expander.Boom):
        return str(c)
    if isinstance(c, core.MacroExpansionError) and "expected macro to return" in str(c):
        return "badoutput"
    if type(c) in (SyntaxError, TypeError, ValueError):
        return type(c).__name__
    return "other:" + trees.asc(repr(c)[:300])


def run_code(tree, ns):
    tree = core.global_postprocess(ast.Expression(body=copy.deepcopy(tree)))
    astfixers.fix_locations(tree, ast.Constant(value=0, lineno=1, col_offset=0, end_lineno=1, end_col_offset=0), mode="reference")
    return eval(compile(tree, "<code>", "eval"), ns)


def lift(x, n=1):
    """The value of code that makes x; the code of that code, and so on."""
    t = x
    for _ in range(n):
        t = quotes.astify(t)
    for _ in range(n):
        t = run_code(t, {"mcpyrate": mcpyrate})
    return t


def unlift(x, n=1):
    t = x
    for _ in range(n):
        t = quotes.astify(t)
    for _ in range(n):
        t = quotes.unastify(t)
    return t


def mixed(x):
    """Twice code, then one of each: the positions end with the code of the code that is run."""
    return quotes.unastify(run_code(quotes.astify(quotes.astify(x)), {"mcpyrate": mcpyrate}))


def run(code):
    return run_code(code, {"mcpyrate": mcpyrate})


def main(fin, fout):
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        res = {"_i": job["_i"], "log": [], "flaws": []}
        R = Recorder()
        mod = types.ModuleType("vmeta_macros_%d" % job["_i"])
        sys.modules[mod.__name__] = mod
        macros = make_macros(job, R, mod)
        allbinds = dict(macros, **QUOTES, **{t: getattr(metatools, t) for t in TOOLS})
        exp = E.MacroExpander(dict(allbinds), FILENAME)
        values = {k: decv(v) for k, v in job["values"]}   # each use has its own
        sys.stderr = io.StringIO()
        try:
            ns = {"val": lambda n: copy.deepcopy(values[n]), "mcpyrate": mcpyrate, "lift": lift, "unlift": unlift, "mixed": mixed, "run": run,
                  "runtime_expand": metatools.runtime_expand, "runtime_expand1": metatools.runtime_expand1, "FILENAME": FILENAME, "ast": ast}
            tree = ast.parse(job["src"], FILENAME)
            tree = exp.visit(tree)
            if job["kind"] == "first":
                v = core.global_postprocess(tree)
                res["log"] = R.events + [{"e": "val", "m": "", "s": "", "r": True, "t": rec("[]", c=[R.enc(x) for x in v.body]), "a": trees.NIL, "o": trees.NIL, "i": trees.NIL}]
            else:
                tree = core.global_postprocess(tree)
                for x in list(macros):          # what is bound at run time doesn't matter
                    exp.bindings.pop(x, None)
                code = compile(tree, FILENAME, "exec")
                exec(code, ns)
                R.add("val", t=encv(ns["z"]))
                res["log"] = R.events
                if "mb" in ns:
                    mb = ns["mb"]
                    if not isinstance(mb, dict) or {k: v for k, v in mb.items() if k in allbinds} != allbinds:
                        res["flaws"].append("macro_bindings: %r" % (sorted(mb) if isinstance(mb, dict) else mb))
        except RecursionError:
            res["log"] = R.events + [{"e": "err", "m": "recursion"}]
        except Exception as e:
            res["log"] = R.events + [{"e": "err", "m": why(e)}]
            res["msg"] = str(root(e))[:300]
        finally:
            sys.stderr = sys.__stderr__
            del sys.modules[mod.__name__]
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main(*sys.argv[1:])
