"""Runs programs with quasiquotes; reports the trees they make."""
import ast, copy, json, re, sys, types, warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(4000)
import trees
from mcpyrate import compiler, markers
import mcpyrate.quotes

COVER = re.compile(r"^s:.* invoked macro '(\w+)'$")


class Mark(markers.ASTMarker):
    pass


class Other:
    def __repr__(self):
        return "<other>"


class Iter:
    """An iterable that is no list."""
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


def dec(r):
    if r["k"] == "Mark":
        return Mark(dec(r["c"][0]))
    if r["k"] in ("~", "id", "lit"):
        return trees.dec(r)
    if r["k"] == "[]":
        return [dec(x) for x in r["c"]]
    cls = getattr(ast, r["k"])
    n = cls(**{f: dec(x) for f, x in zip([f for f in cls._fields if f != "ctx"], r["c"])})
    if "ctx" in cls._fields:
        n.ctx = ast.Load()
    if r["p"] not in ("", "?"):
        for a, x in zip(trees.LOC, r["p"].split(":")):
            setattr(n, a, int(x))
    return n


def value(v):
    """The object that a value of the specification stands for."""
    k = v["k"]
    if k == "$ast":
        return dec(v["c"][0])
    if k == "$marker":
        return Mark(dec(v["c"][0]))
    if k == "$seq":
        return {"list": list, "tuple": tuple, "iter": Iter}[v["v"]]([value(x) for x in v["c"]])
    if k in ("$py", "$str"):
        return eval(compile(ast.fix_missing_locations(ast.Expression(body=dec(v["c"][0]))), "<value>", "eval"), {})
    return Other()


def nodes(t):
    if isinstance(t, (list, tuple, Iter)):
        for x in t:
            yield from nodes(x)
    elif isinstance(t, ast.AST):
        if t._fields:           # the parser has each operator just once
            yield t
        for f in t._fields:
            if f != "ctx":
                yield from nodes(getattr(t, f, None))


def tidy(r):
    if r["k"] == "Done" and r["c"][0]["k"] == "Assign":
        a = r["c"][0]
        m = a["c"][1]["k"] == "Constant" and COVER.match(a["c"][1]["c"][0]["v"])
        if m and [x["c"][0]["v"] for x in a["c"][0]["c"]] == ["_mcpyrate_coverage"]:
            return trees.rec("cov", c=[trees.rec("lit", m.group(1))])
    if r["k"] in ("id", "lit", "~"):
        return r
    return dict(r, c=[tidy(x) for x in r["c"]])


def enc(t, ctx=False):
    return tidy(trees.enc(t, ctx=ctx))


def encvalue(v):
    """The value as the specification has it; trees are told apart from lists of them."""
    if isinstance(v, (ast.AST, list)) and not (isinstance(v, list) and not all(isinstance(x, ast.stmt) or isinstance(x, markers.ASTMarker) for x in v)):
        return trees.rec("$ast", c=[enc(v)])
    return trees.rec("$other")


def root(e):
    while e.__cause__:
        e = e.__cause__
    return e


COUNT = [0]


def m(tree, *, syntax, **kw):
    """An ordinary macro."""
    COUNT[0] += 1
    return tree


fake = types.ModuleType("vfake_macros")
fake.m = m
sys.modules["vfake_macros"] = fake


def program(job, tree):
    """The module that has the program; `tree` is an expression, or a list of statements."""
    imps = [ast.ImportFrom(module="mcpyrate.quotes", names=[ast.alias(name="macros")] + [ast.alias(name=o, asname=b if b != o else None) for b, o in job["ops"] if o != "m"], level=0)]
    if any(o == "m" for _, o in job["ops"]):
        imps.append(ast.ImportFrom(module="vfake_macros", names=[ast.alias(name="macros")] + [ast.alias(name="m", asname=b if b != "m" else None) for b, o in job["ops"] if o == "m"], level=0))
    if job["block"]:
        qname = [b for b, o in job["ops"] if o == "q"][0]
        body = [ast.With(items=[ast.withitem(context_expr=ast.Name(id=qname, ctx=ast.Load()), optional_vars=ast.Name(id="_out", ctx=ast.Store()))], body=tree),
                ast.Return(value=ast.Name(id="_out", ctx=ast.Load()))]
    else:
        body = [ast.Return(value=tree)]
    fn = ast.parse("def _run(): pass").body[0]
    fn.body = body
    t = ast.parse("'''doc'''")
    t.body += imps + [fn]
    return ast.fix_missing_locations(t)


def main(fin, fout):
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        res = {"_i": job["_i"], "outs": [], "err": "", "flaws": [], "log": [], "ms": 0}
        flaws = res["flaws"]
        COUNT[0] = 0
        log = []
        env = {k: value(v) for k, v in job["env"]}
        def val(name):
            log.append("s:" + name)
            return env["s:" + name]
        theirs = {id(n) for v in env.values() for n in nodes(v)}
        before = {k: [trees.enc(n) for n in nodes(v)] for k, v in env.items()}
        tree = dec(job["tree"])
        if job.get("src"):
            tree = ast.parse(job["src"]).body if job["block"] else ast.parse(job["src"], mode="eval").body
        try:
            for stage in range(job["stages"]):
                exp = compiler.expand(program(job, tree), "vquote_%d.py" % job["_i"])
                mod = types.ModuleType("vquote")
                mod.__dict__.update({k: v for k, v in env.items() if not k.startswith("s:")}, val=val)
                exec(compile(exp, "vquote.py", "exec"), mod.__dict__)
                names = set(mod.__dict__)
                r = mod._run()
                n1 = len(log)
                keep = list(log)
                r2 = mod._run()
                if len(log) - n1 != n1 - len(res["log"]):
                    flaws.append("run again, other code was run")
                log[:] = keep
                res["log"] = list(keep)
                v, v2 = encvalue(r), encvalue(r2)
                if v != v2:
                    flaws.append("run again, the result is another")
                mine = [n for n in nodes(r) if id(n) not in theirs]
                ids = {id(n) for n in mine}
                if len(ids) != len(mine):
                    flaws.append("a node is twice in the result")
                if any(id(n) in ids for n in nodes(r2)):
                    flaws.append("two runs have made the same node")
                if {k: [trees.enc(n) for n in nodes(v_)] for k, v_ in env.items()} != before:
                    flaws.append("the inserted code was changed")
                if set(mod.__dict__) != names:
                    flaws.append("new names in the module")
                if job.get("src") and stage == 0:
                    if enc(r, ctx=True) != trees.enc(dec_ctx(job), loc=False, ctx=True):
                        flaws.append("another ctx")
                res["outs"].append(v)
                tree = copy.deepcopy(r)
                if not (isinstance(tree, ast.Subscript) and isinstance(tree.value, ast.Name) and tree.value.id in [b for b, o in job["ops"] if o == "q"]):
                    break
        except Exception as e:
            res["err"] = type(root(e)).__name__
            res["msg"] = str(root(e))[:300]
        res["ms"] = COUNT[0]
        out.write(json.dumps(res) + "\n")
        out.flush()


def dec_ctx(job):
    """The code of a job without operators, as the parser gives it."""
    if job["block"]:
        return ast.parse(job["src"]).body
    t = ast.parse(job["src"], mode="eval").body
    return t.slice


if __name__ == "__main__":
    main(*sys.argv[1:])
