"""C08: quasiquotes, against Quote.tla."""
import ast, concurrent.futures, copy, itertools, json, os
import common, corpus, gen_splice, tlc, trees
from chk_unparse import Pool, slots, put, get, show, nodes, library
from chk_splice import diff

INV = ["Faithful", "Clean", "ErrorMeansNone", "Verbatim", "Report"]
FAR = {o: o.upper() + o for o in "qunasthm"}       # names no program has
NEAR = {o: o for o in "qunasthm"}
CODES = ["x", "obj.attr", "f(1)[2]", "kitties[3].paws[k].claws", "1 + 2", "lambda a: b", "[i for i in y]", "'text'", "x if y else z", "-1", "*z", "(a, b)", "a := 3", "yield 2"]
NOCODES = ["x =", "", "1 +", "def", "a b", "x\ny", "pass"]


def names(t):
    return {n.id for s in t for n in ast.walk(s) if isinstance(n, ast.Name)}


def plain(body):
    return not names(body) & set(list(NEAR.values()) + list(FAR.values()))


def rec(k, *c, v="", p=""):
    return trees.rec(k, v, p, c)


def parsed(s):
    try:
        return trees.enc(ast.parse(s, mode="eval").body)
    except SyntaxError:
        return trees.NIL


class Gen:
    """A random program with operators."""
    def __init__(self, rng, P):
        self.rng, self.P = rng, P

    def expr(self):
        return copy.deepcopy(self.rng.choice(self.P.small))

    def new(self, v):
        n = "v%d" % len(self.env)
        if self.rng.random() < .4:
            self.env.append(["s:" + n, v])
            return ast.Call(func=ast.Name(id="val", ctx=ast.Load()), args=[ast.Constant(value=n)], keywords=[])
        self.env.append([n, v])
        return ast.Name(id=n, ctx=ast.Load())

    # ---- values
    def text(self):
        s = self.rng.choice(CODES if self.rng.random() < .9 else NOCODES)
        self.parse.setdefault(s, parsed(s))
        return s

    def py(self, d=2, hashable=False):
        r = self.rng
        if d == 0 or r.random() < .5:
            return ast.Constant(value=r.choice([1, -3, 2.5, 3j, 1 - 2j, True, None, ..., b"b", 0, 10 ** 20, -0.0]))
        k = r.randrange(1 if hashable else 4)
        es = [self.py(d - 1, hashable) for _ in range(r.choice([0, 1, 2, 3]))]
        if k == 0:
            return ast.Tuple(elts=es, ctx=ast.Load())
        if k == 1:
            return ast.List(elts=es, ctx=ast.Load())
        # as Python has them: no key twice, a set of one element, as its order isn't known
        if k == 2:
            ks = [self.py(d - 1, True) for _ in range(r.choice([0, 1, 2]))]
            seen, out = [], []
            for x in ks:
                v = eval(compile(ast.fix_missing_locations(ast.Expression(body=copy.deepcopy(x))), "", "eval"))
                if v not in seen:
                    seen.append(v)
                    out.append(x)
            return ast.Dict(keys=out, values=[self.py(d - 1) for _ in out])
        return ast.Set(elts=[self.py(d - 1, True) for _ in range(r.choice([0, 1]))])

    def lifted(self):
        e = self.py()
        t = trees.enc(e, loc=False)
        return rec("$py", t)

    def tree(self, kinds):
        r = self.rng
        if kinds == "expr":
            t = self.expr()
        else:
            t = copy.deepcopy(r.choice(r.choice(self.P.stmts)))
        e = trees.enc(t, loc=r.random() < .7)
        if r.random() < .12:
            return rec("$marker", rec("Mark", e)["c"][0] if r.random() < .6 else rec("[]", *[e] * r.choice([1, 2])))
        return rec("$ast", e)

    def value(self, want):
        """A value that suits, mostly."""
        r = self.rng
        if r.random() < .06:
            want = r.choice(["py", "str", "expr", "exprs", "stmts", "other"])
        if want == "py":
            return self.lifted()
        if want == "str":
            s = self.text()
            return rec("$str", trees.enc(ast.Constant(value=s), loc=False), self.parse[s])
        if want in ("expr", "stmt"):
            return self.tree(want)
        if want in ("exprs", "stmts"):
            n = r.choice([0, 1, 1, 2, 3])
            xs = [self.value(want) if r.random() < .1 else self.tree(want[:-1]) for _ in range(n)]
            return rec("$seq", *xs, v=r.choice(["list", "list", "tuple", "iter"]) if want == "exprs" else "list")
        return rec("$other")

    def code(self, want, d):
        """Code of level 0 for a value."""
        r = self.rng
        same = [x for w, x in self.codes if w == want]
        if same and r.random() < .2:
            return copy.deepcopy(r.choice(same))         # the same once more
        e = self.newcode(want, d)
        self.codes.append((want, e))
        return e

    def newcode(self, want, d):
        r = self.rng
        k = r.random()
        if k < .05:
            e = self.op(r.choice("unasth"), self.code(want, d - 1))       # an unquote too many
        elif k < .2 and want == "py":
            e = self.py(1)
            while not isinstance(e, (ast.Constant, ast.List, ast.Tuple)) or any(isinstance(x, (ast.Set, ast.Dict)) for x in ast.walk(e)):
                e = self.py(1)
        elif k < .3 and want == "py":
            e = r.choice([ast.List, ast.Tuple])(elts=[self.code("py", d - 1) for _ in range(r.choice([0, 1, 2]))], ctx=ast.Load())
        elif k < .5 and want == "str":
            e = ast.Constant(value=self.text())
        elif k < .5 and want == "exprs":
            e = r.choice([ast.List, ast.Tuple])(elts=[self.code("expr", d - 1) for _ in range(r.choice([0, 1, 2, 3]))], ctx=ast.Load())
        elif k < .45 and want == "expr" and d > 0:
            e = self.op("q", self.inner(1, d - 1))
        else:
            e = self.new(self.value(want))
        if r.random() < .1:
            e = self.op("m", e)
        return e

    # ---- quoted code
    def op(self, o, x):
        return ast.Subscript(value=ast.Name(id=self.ops[o], ctx=ast.Load()), slice=x, ctx=ast.Load())

    def inner(self, lvl, d):
        """Quoted code of the level, an expression."""
        body = [ast.Expr(value=self.expr())]
        self.plant(body, lvl, d, self.rng.choice([0, 1, 1, 2]), True)
        return body[0].value

    def opexpr(self, lvl, d):
        r = self.rng
        if r.random() < .06:
            return self.op("m", self.inner(lvl, d - 1))
        if d > 0 and r.random() < .2:
            return self.op("q", self.inner(lvl + 1, d - 1))
        o = r.choice("uunnaaast" + ("h" if lvl > 1 else ""))
        if lvl > 1:
            if r.random() < .6:
                e = self.code({"u": "py", "n": "str", "a": "expr"}.get(o, "exprs"), d - 1)
                return self.op(o, e if r.random() < .5 else self.op(r.choice("uan"), self.code("py", 0)))
            return self.op(o, self.inner(lvl - 1, d - 1))
        return self.op(o, self.code({"u": "py", "n": "str", "a": r.choice(["expr", "expr", "exprs"]), "s": "exprs", "t": "exprs"}[o], d - 1))

    def block(self, o, body, var=None):
        return ast.With(items=[ast.withitem(context_expr=ast.Name(id=self.ops[o], ctx=ast.Load()), optional_vars=var)], body=body)

    def opstmt(self, lvl, d):
        r = self.rng
        k = r.random()
        some = lambda l: self.stmts(l, d - 1)
        if k < .06:
            return self.block(r.choice("unsthm" if lvl else "m"), some(lvl))
        if k < .35 and d > 0:
            return self.block("q", some(lvl + 1), ast.Name(id="z", ctx=ast.Store()) if r.random() < .8 else None)
        if lvl > 1:
            return self.block("a", some(lvl - 1))
        body = [ast.Expr(value=self.code(r.choice(["stmt", "stmt", "stmts"]), d - 1)) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < .04:
            body.append(ast.Pass())
        return self.block("a", body, ast.Name(id="z", ctx=ast.Store()) if r.random() < .04 else None)

    def stmts(self, lvl, d):
        body = copy.deepcopy(self.rng.choice(self.P.stmts if self.rng.random() < .6 else [[ast.Expr(value=e)] for e in self.P.small]))
        self.plant(body, lvl, d, self.rng.choice([0, 1, 2]))
        return body

    def plant(self, body, lvl, d, n, exprs=False):
        for _ in range(n):
            if exprs or self.rng.random() < .75 or d < 0:
                bad = set()
                for s in body:
                    for x in ast.walk(s):
                        # operators that are there already, and what is no plain expression
                        if isinstance(x, (ast.pattern, ast.JoinedStr)):
                            bad |= {id(y) for y in ast.walk(x)}
                        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in self.ops.values():
                            bad |= {id(y) for y in ast.walk(x) if y is not x}
                        if isinstance(x, ast.With) and isinstance(x.items[0].context_expr, ast.Name) and x.items[0].context_expr.id in self.ops.values():
                            bad |= {id(y) for y in ast.walk(x) if y is not x}
                c = [s for s in slots(body, ast.expr) if id(get(s)) not in bad and not isinstance(get(s), (ast.Slice, ast.JoinedStr)) and not (isinstance(s[0], ast.Subscript) and s[1] == "value")]
                if c:
                    p, e = self.rng.choice(c), self.opexpr(lvl, d)
                    # with an empty tuple, in these places it would be a macro invocation with no arguments
                    if not (p[1] in ("context_expr", "decorator_list") and isinstance(e.slice, ast.Tuple) and not e.slice.elts):
                        put(p, e)
            else:
                c = [(body, i) for i in range(len(body))]
                c += [(x, f, i) for s in body for x in ast.walk(s) for f, v in ast.iter_fields(x) if isinstance(v, list) for i, y in enumerate(v) if isinstance(y, ast.stmt)
                      and not (isinstance(x, ast.With) and isinstance(x.items[0].context_expr, ast.Name) and x.items[0].context_expr.id in self.ops.values())]
                p = self.rng.choice(c)
                new = self.opstmt(lvl, d)
                if len(p) == 2:
                    body[p[1]] = new
                else:
                    getattr(p[0], p[1])[p[2]] = new

    def job(self):
        r = self.rng
        self.env, self.parse, self.codes = [], {}, []
        self.ops = FAR if r.random() < .7 else NEAR
        block = r.random() < .55
        if block:
            body = self.stmts(1, 2)
            if r.random() < .4:
                body += self.stmts(1, 1)
            if r.random() < .6:
                self.plant(body, 1, 2, 1)
            tree = trees.enc(body, loc=False)
        else:
            e = self.op("q", self.inner(1, 3))
            if r.random() < .1:
                e = self.op("m", e)
            tree = trees.enc(e, loc=False)
        return {"tree": tree, "block": block, "env": self.env, "stages": r.choice([1, 2, 3]),
                "ops": [[self.ops[o], o] for o in "qunasthm"], "parse": [["s:" + trees.asc(k), v] for k, v in self.parse.items()]}


def chains(G, rng, n, longest):
    """Operators directly around each other: all the sequences, or n of them."""
    seqs = [q for k in range(1, longest + 1) for q in itertools.product("quanstm", repeat=k)]
    for ops in seqs if n is None else rng.sample(seqs, min(n, len(seqs))):
        G.env, G.parse, G.ops = [], {}, rng.choice([FAR, NEAR])
        lvl, last = 0, ""
        if set(ops) == {"m"}:
            continue
        for o in ops:
            if o != "m":
                lvl, last = lvl + (1 if o == "q" else -1), o
            if lvl < 0:
                break
        if lvl > 0:
            e = G.expr()
        else:
            e = G.new(G.value({"u": "py", "n": "str", "a": rng.choice(["expr", "exprs"])}.get(last, "exprs")))
        for o in reversed(ops):
            e = G.op(o, e)
        yield {"tree": trees.enc(e, loc=False), "block": False, "env": G.env, "stages": 3,
               "ops": [[G.ops[o], o] for o in "qunasthm"], "parse": [["s:" + trees.asc(k), v] for k, v in G.parse.items()]}


def verbatim(body, block, ops):
    """Code without operators."""
    body = copy.deepcopy(body)
    if block:
        src = ast.unparse(ast.fix_missing_locations(ast.Module(body=body, type_ignores=[])))
        t = ast.parse(src).body
    else:
        src = "%s[%s]" % (ops["q"], ast.unparse(ast.fix_missing_locations(body[0])))
        t = ast.parse(src, mode="eval").body
    return {"tree": trees.enc(t, loc=False), "block": block, "env": [], "stages": 1, "ops": [[ops[o], o] for o in "qunasthm"], "parse": [], "src": src}


def replay(c, jobs, reps):
    res = common.run_jobs("real_quote.py", jobs, per_chunk_max=150)
    for x, j, g in zip(reps, jobs, res):
        c.traces += 1
        what = lambda: "%s %s with %s" % ("block" if j["block"] else "expression", show(j["tree"])[:700], [(k, show(v)[:80]) for k, v in j["env"]])
        bad = None
        if "_dead" in g:
            bad = g["_dead"][-300:]
        elif "?" in x["errs"]:
            c.extra["programs that lift a tree (not covered)"] = c.extra.get("programs that lift a tree (not covered)", 0) + 1
        elif not x["ok"]:
            if g["err"] not in x["errs"]:
                bad = "outcome: want %s got %s %s" % (x["errs"], g["err"] or "a result", g.get("msg", ""))
        elif g["err"]:
            bad = "outcome: want a result got %s %s" % (g["err"], g.get("msg", ""))
        elif len(x["outs"]) != len(g["outs"]):
            bad = "%d results, want %d" % (len(g["outs"]), len(x["outs"]))
        else:
            for a, b in zip(x["outs"], g["outs"]):
                bad = bad or diff(a, b)
            if not bad and sorted(x["log"]) != sorted(g["log"]):
                bad = "code run: want %s got %s" % (x["log"], g["log"])
            if not bad and x["ms"] != g["ms"]:
                bad = "macro calls: want %d got %d" % (x["ms"], g["ms"])
            if not bad and g["flaws"]:
                bad = g["flaws"][0]
        if bad:
            c.violation(bad + " in " + what(), {"job": j, "want": x, "got": g})
        k = "results" if x["ok"] else "errors"
        c.extra[k] = c.extra.get(k, 0) + 1
        if x["ok"] and x["log"]:
            c.sample({"program": what()[:600], "outs": [show(o)[:600] for o in x["outs"]]}, 4)


def run(c, jobs):
    parts = [jobs[k:k + 250] for k in range(0, len(jobs), 250)]
    def one(part):
        return tlc.run("Quote", {"In": "<- JIn", "N": "<- JN"}, INV, ["Steps"], workers=1, heap="3g", files={"input.json": json.dumps(part)})
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        runs = list(ex.map(one, parts))
    reps = []
    for part, r in zip(parts, runs):
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        got = {x["id"]: x for x in r.reports}
        reps += [got[i + 1] for i in range(len(part))]
    replay(c, [dict(j, stages=x["stages"]) for j, x in zip(jobs, reps)], reps)


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    rng, P = c.rng, Pool()
    deep = c.thorough
    P.stmts = [t for t in P.stmts if plain(t)]
    P.small = [e for e in P.small if plain([e]) and not isinstance(e, ast.Slice)]
    ts = [(t, True) for t in P.bases if plain(t)] + [([e], False) for e in P.exprs if plain([e])]
    for _ in range(3000 if deep else 400):
        ts.append((P.pair(rng.randrange(10 ** 6)), True))
    for _ in range(2000 if deep else 300):
        ts.append((P.stmtpair(rng.randrange(10 ** 6)), True))
    for _ in range(1500 if deep else 150):
        src = gen_splice.Gen(rng).module(rng.choice([1, 2, 4]))
        if corpus.ok(src):
            ts.append((ast.parse(src).body, True))
    ts += [(t, True) for t in library(rng, 200 if deep else 40, 10 if deep else 5)]
    jobs, seen = [], set()
    for t, block in ts:
        if nodes(t) > 160 or not plain(t):
            continue
        try:
            j = verbatim(t, block, rng.choice([FAR, NEAR]))
        except Exception:
            continue
        k = json.dumps(j["tree"])
        if k not in seen:
            seen.add(k)
            jobs.append(j)
    c.extra["programs without operators"] = len(jobs)
    G = Gen(rng, P)
    ch = list(chains(G, rng, None, 5) if deep else chains(G, rng, 900, 5))
    c.extra["chains of operators"] = len(ch)
    jobs += ch
    n = 30000 if deep else 4000
    while n:
        j = G.job()
        if trees.size(j["tree"]) < 250:
            jobs.append(j)
            n -= 1
    run(c, jobs)
    return c.finish()
