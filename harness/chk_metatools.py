"""C22: conversions of trees to code and back, and expansion on demand, against Metatools.tla."""
import ast, concurrent.futures, json, re
import common, tlc, trees, gen_prog, corpus, gen_splice
from trees import rec
from chk_expander import show, first_diff
from chk_unparse import Pool

FILENAME = "/nowhere/prog.py"
UNQUOTES = ("aa", "uu", "ss", "tt", "nn")
QUOTING = {"qq", "expandsq", "expand1sq", "expandrq", "expand1rq"}
OTHERS = ["", "frozenset", "marker", "func", "gen", "sub", "bytearray", "range"]
INV = ["AllExpanded", "OneLayer", "MReport"]
PROPS = ["OnlyInForce", "Conversions"]


def size(t):
    return 1 + sum(size(x) for x in t["c"])


def op(o, names=(), p="", to="", holes=()):
    return {"op": o, "names": list(names), "p": p, "to": to, "holes": list(holes)}


def holes_in(r):
    """Unquotes are leaves of the specification."""
    if r["k"] == "Subscript" and r["c"][0]["k"] == "Name" and r["c"][0]["c"][0]["v"] in UNQUOTES:
        return rec("lit", "$" + r["c"][1]["c"][1]["c"][0]["c"][0]["v"][2:])
    return dict(r, c=[holes_in(x) for x in r["c"]])


class Gen(gen_prog.Gen):
    holes = 0

    def atom(self):
        if self.holes and self.r.random() < .25:
            return "%s[val('v%d')]" % (self.r.choice(["aa", "aa", "aa", "uu", "ss", "tt", "nn"]), self.r.randrange(4))
        return super().atom()

    def sliceexpr(self, d):
        s = super().sliceexpr(d)
        return s


class Jobs:
    def __init__(self, rng, P=None):
        self.rng, self.P = rng, P

    def binds(self, alias=False):
        r = self.rng
        pl = r.random() < .5
        behs = ["wrap", "emit", "const", "args", "none", "dup", "id", "multi"] if pl else \
               ["wrap", "emit", "vis", "visrec", "visonce", "onceb", "twice", "visargs", "none", "try", "gen", "multi", "empty"]
        b = gen_prog.binds(r, n=r.choice([2, 3, 4]), behs=behs, pnam=.25, ppar=.4, faults=.1 if r.random() < .3 else 0)
        if alias and r.random() < .6:
            for m in r.sample(list(b), r.choice([1, 2])):
                b["k" + m[1:]] = dict(b[m], fn=m)
                b[m] = dict(b[m], fn=m)
        return b

    def code(self, b, holes, block):
        r = self.rng
        while True:
            g = Gen(r, b, maxdepth=r.choice([2, 2, 3]), dens=r.choice([.3, .5, .7]))
            g.holes = holes
            if block:
                s = "".join(g.stmt(0, 1) for _ in range(r.choice([1, 1, 2])))
                t = "if 1:\n" + s
            else:
                s = t = g.expr(r.choice([0, 0, 1]))
            try:
                x = ast.parse(t)
            except SyntaxError:
                continue
            if sum(1 for _ in ast.walk(x)) > 90:
                continue
            for n in ast.walk(x):       # unquotes only where expressions are
                if isinstance(n, (ast.pattern, ast.JoinedStr)) and any(isinstance(m, ast.Subscript) and isinstance(m.value, ast.Name) and m.value.id in UNQUOTES for m in ast.walk(n)):
                    break
            else:
                # the root is no unquote: a list could not go there
                if block or not re.match(r"^(aa|uu|ss|tt|nn)\[", s):
                    return s

    def value(self, b, kind):
        """For an unquote: a tree, a list of trees (only in lists), or a constant."""
        r = self.rng
        if kind == "uu":
            return None
        e = ast.parse(self.code(b, 0, False), mode="eval").body
        return trees.enc(e, loc=r.random() < .4)

    def const(self):
        r = self.rng
        return r.choice([1, "s", None, 2.5, (1, "b"), [1, [2]], b"x", True, ..., -3, 3j])

    # what can be done to a value at run time
    def runops(self, b, z, ops, n, noexpand=0):
        r = self.rng
        names = list(b)
        for _ in range(n):
            k = r.randrange(noexpand, 8)
            if k == 0:
                z, o = "expandr[%s]" % z, [op("all", names)]
            elif k == 1:
                z, o = "expand1r[%s]" % z, [op("once", names)]
            elif k == 2:
                z, o = "stepr%s[%s]" % (r.choice(["", "['detailed']", "['dump']", "('summary')"]), z), [op("step", names)]
            elif k in (3, 4):
                some = [x for x in names if r.random() < .6]
                z = "%s({k: v for k, v in macro_bindings.items() if k in %r}, FILENAME, %s)" % ("runtime_expand" if k == 3 else "runtime_expand1", some, z)
                o = [op("all" if k == 3 else "once", some)]
            elif k == 5:
                z, o = "fill_location[%s]" % z, [op("fill", p="@")]
            elif k == 6:
                j = r.randrange(4)
                z = ["lift(%s)", "lift(%s, 2)", "run(qq[uu[%s]])", "mixed(%s)"][j] % z
                o = [op("lift")]
            else:
                j = r.randrange(2)
                z = ["unlift(%s)", "unlift(%s, 2)"][j] % z
                o = [op("unlift")]
            ops += o
        return z

    def quoted(self):
        r = self.rng
        b = self.binds()
        names = list(b)
        block = r.random() < .4
        T = self.code(b, r.random() < .6, block)
        values, holes = {}, []
        # one value per name, used by one kind of unquote
        kinds = {}
        def kind(m):
            k = kinds.setdefault(m.group(2), m.group(1))
            return "%s[val('%s')]" % (k, m.group(2))
        T = re.sub(r"(aa|uu|ss|tt|nn)\[val\('(v\d)'\)\]", kind, T)
        for v, k in sorted(kinds.items()):
            if k == "uu":
                x = self.const()
                t = ast.parse(repr(x), mode="eval").body
                if not isinstance(x, (list, tuple, dict, set)):
                    t = ast.Constant(value=x)
                values[v] = None
                holes.append(["$" + v, trees.enc(t, loc=False)])
                values[v] = x
            elif k in ("ss", "tt"):
                es = [self.value(b, k) for _ in range(r.choice([0, 1, 2, 3]))]
                t = trees.enc((ast.List if k == "ss" else ast.Tuple)(elts=[], ctx=ast.Load()), loc=False)
                t["c"][0] = rec("[]", c=es)
                holes.append(["$" + v, t])
                values[v] = rec("[]", c=es)
            elif k == "nn":
                x = self.code(b, 0, False)
                holes.append(["$" + v, trees.enc(ast.parse(x, mode="eval").body)])
                values[v] = x
            else:
                e = self.value(b, k)
                holes.append(["$" + v, e])
                values[v] = e
        base = r.choice(["qq", "expandsq", "expand1sq", "expandrq", "expand1rq"])
        st = {"expandsq": "all", "expand1sq": "once"}.get(base)
        rt = {"expandrq": "all", "expand1rq": "once"}.get(base)
        ops = [op(st, names)] if st else []
        lines = []
        if block:
            lines.append("with %s as z:\n%s" % (base, T))
            z = "z"
        else:
            z = "%s[%s]" % (base, T)
            if not rt:
                for _ in range(r.choice([0, 0, 1, 2])):
                    k = r.choice(["all", "once"])
                    z = "%s[%s]" % ({"all": "expands", "once": "expand1s"}[k], z)
                    ops.append(op(k, names))
        ops.append(op("run", holes=holes))
        if rt:
            ops.append(op(rt, names))
        steps = r.choice([0, 1, 1, 2, 3])
        # an unquote within an unquote belongs to the outer quote, unless a quote stands between
        if r.random() < .5 and not kinds:
            z = self.runops(b, z, ops, steps)
            lines.append("z = %s\n" % z)
        else:
            lines.append("z = %s\n" % z)
            for _ in range(steps):
                lines.append("z = %s\n" % self.runops(b, "z", ops, 1))
        if r.random() < .3:
            lines.append("mb = macro_bindings\n")
        src = "x = 1\n" * r.choice([0, 1, 3]) + "".join(lines)
        return self.finish(src, b, ops, values, lambda n: (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == base and n.slice) or
                           (isinstance(n, ast.With) and isinstance(n.items[0].context_expr, ast.Name) and n.items[0].context_expr.id == base and n.body))

    def finish(self, src, b, ops, values, find):
        t = ast.parse(src)
        prog = None
        fills = []
        class V(ast.NodeVisitor):       # in the order of evaluation
            def generic_visit(self, n):
                nonlocal prog
                super().generic_visit(n)
                f = find(n)
                if f is not False and f is not None and prog is None:
                    prog = f
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "fill_location":
                    fills.append("%04d:%d:None:None" % (n.lineno, n.col_offset))
        V().visit(t)
        for o in ops:
            if o["p"] == "@":
                o["p"] = fills.pop(0)
        vals = []
        for k, v in values.items():
            vals.append([k, v if isinstance(v, dict) else encv(v)])
        return {"kind": "value", "binds": b, "src": src, "values": vals, "prog": holes_in(trees.enc(prog)), "ops": ops}

    def value_job(self, x, b=None, least=0):
        """Operations on a value that was not quoted in the program; x is its encoding."""
        r = self.rng
        b = b or {"m0": {"beh": "wrap", "to": "m0", "par": False, "nam": False}}
        ops = []
        z = self.runops(b, "val('x')", ops, r.choice([1, 2, 3]), least)
        src = "z = %s\n" % z
        j = self.finish(src, b, ops, {"x": x}, lambda n: None)
        j["prog"] = x
        return j

    def first(self):
        r = self.rng
        b = self.binds(alias=True)
        names = list(b)
        body = self.code(b, 0, True)
        args = r.sample(names, r.randrange(1, len(names) + 1))
        bad = None
        k = r.random()
        if k < .04:
            args, bad = args + ["nope"], "SyntaxError"
        elif k < .08:
            args, bad = args + [r.choice(["x.y", "3", "'m0'", "(x, y)", "foo(3)", "qq[uu[3]]", "qq[x]", "qq[hh[x]]"])], "SyntaxError"
        elif k < .1:
            args, bad = [], "SyntaxError"
        shown = ["qq[hh[%s]]" % a if a in b and r.random() < .25 else a for a in args]
        # a name that is itself a macro is expanded where arguments are
        if any(a in b and b[a]["nam"] for a in args):
            return None
        hd = "expand_first" + ("" if not args else ("[%s]" if r.random() < .6 else "(%s)") % ", ".join(shown))
        as_ = ""
        if not bad and r.random() < .03:
            as_, bad = " as z", "SyntaxError"
        src = "with %s%s:\n%s" % (hd, as_, body)
        t = ast.parse(src).body[0]
        p = trees.posof(t)
        fns = {b[a].get("fn", a) for a in args if a in b}
        some = [n for n in names if b[n].get("fn", n) in fns]
        ops = [op("misuse", to=bad)] if bad else [op("all", some), op("fill", p=p), op("all", names), op("note", p=p, to="expand_first")]
        return {"kind": "first", "binds": b, "src": src, "values": [], "prog": trees.enc(t.body), "ops": ops}

    def misuse(self):
        r = self.rng
        b = self.binds()
        for v in b.values():
            v["beh"] = "wrap"
        m = [x for x in b if not b[x]["par"]]
        kind, src, err = "value", None, "SyntaxError"
        q4 = ["expandsq", "expand1sq", "expandrq", "expand1rq"]
        x4 = ["expands", "expand1s"]
        r2 = ["expandr", "expand1r"]
        k = r.randrange(8)
        if k == 0:
            src = "with %s:\n    x\n" % r.choice(q4)
        elif k == 1:
            src = "with %s as z:\n    x\n" % r.choice(r2 + x4)
        elif k == 2:
            src = "@%s\ndef f(): pass\n" % r.choice(q4 + x4 + r2 + ["stepr", "expand_first", "fill_location"])
        elif k == 3:
            src = "with %s as %s:\n    x\n" % (r.choice(q4), r.choice(["z.y", "z[0]", "(z, y)", "[z]"]))
        elif k == 4:
            e = r.choice(["x", "f(x)", "x + 1", "x.y", "x.y(3)", "[x]", "lambda: x", "f(x)(y)", "quotes.q(x)", "mcpyrate.quotes(x)", "mcpyrate.quotes.nothing(x)",
                          "mcpyrate.other.astify(x)", "[qq[x], x]", "qq[x] + 1", "f(qq[x])", "x if y else z", "{x: 1}", "f'{x}'", "z[0](x)"])
            src, err = "z = %s[%s]\n" % (r.choice(x4), e), "TypeError"
        elif k == 5:
            src = "with %s:\n    x\n" % r.choice(["stepr", "fill_location", "macro_bindings"])
            if "macro_bindings" in src:
                return None
        elif k == 6:
            src = "z = expand_first[m0][x]\n"
        else:
            src, err = "z = %s[%s[x]]\n" % (r.choice(x4), r.choice(m)) if m else None, "TypeError"
            return None         # calls a macro first
        return {"kind": kind, "binds": b, "src": src, "values": [], "prog": rec("~"), "ops": [op("misuse", to=err)]}

    # ---- values that aren't trees
    def container(self, d=3, other=False):
        r = self.rng
        k = r.randrange(9)
        if d == 0 or k < 3:
            return self.leaf(other)
        xs = [self.container(d - 1, other) for _ in range(r.choice([0, 1, 2, 3]))]
        if k < 5:
            return rec("[]", c=xs)
        if k < 7:
            return rec("$tuple", c=xs)
        if k == 7:
            ks = {json.dumps(encv(x)): encv(x) for x in r.sample([1, "a", None, 2.5, b"x", (1, 2), ("a",), True and 7, ..., 3j], r.choice([0, 1, 2, 3]))}
            return rec("$dict", c=[rec("$pair", c=[kk, self.container(d - 1, other)]) for kk in ks.values()])
        return rec("$set", c=sorted((encv(x) for x in r.sample([1, "a", None, 2.5, b"x", (1, 2), ("a",)], r.choice([0, 1, 2, 3]))), key=json.dumps))

    def leaf(self, other):
        r = self.rng
        if other and r.random() < .3:
            return rec("$other", r.choice(OTHERS))
        if r.random() < .4:
            return trees.enc(self.P.exprs[r.randrange(len(self.P.exprs))] if r.random() < .5 else r.choice(r.choice(self.P.bases)), loc=r.random() < .5)
        return encv(r.choice([1, -1, 0, "", "text", "n\n\\\"'", "\u00e4\U0001f600\ud800", None, True, False, ..., 2.5, -0.0, 1e308, float("inf"), float("nan"), 3j, complex(-0.0, -2), b"", b"\x00\xff'", 10 ** 40]))


def encv(x):
    if x is None:
        return rec("~")
    if isinstance(x, list):
        return rec("[]", c=[encv(y) for y in x])
    if isinstance(x, tuple):
        return rec("$tuple", c=[encv(y) for y in x])
    return rec("$const", c=[rec("lit", trees.lit(x))])


def replay(c, jobs, reps):
    res = common.run_jobs("real_metatools.py", jobs, per_chunk_max=120)
    for x, j, g in zip(reps, jobs, res):
        c.traces += 1
        bad = None
        if "_dead" in g:
            bad = "does not finish: " + g["_dead"][-300:]
        else:
            want = [e if e["e"] != "err" else {"e": "err", "m": e["m"]} for e in x["log"] if e["e"] not in ("step0", "step", "stepend", "apply")]
            got = g["log"]
            for e in want:
                if j["kind"] == "first" and e["e"] == "val" and e["t"]["k"] == "~":
                    e["t"] = rec("[]")
            if j["ops"] and any(o["op"] in ("lift", "unlift") for o in j["ops"]):
                for e in want + got:
                    if e["e"] == "val":
                        e["t"] = same_other(e["t"])
            if want != got:
                i, w, h = first_diff(want, got)
                sh = lambda e: {k: (show(v, 900) if isinstance(v, dict) else v) for k, v in e.items()} if e else None
                bad = "event %d: %s: want %s got %s %s" % (i, [k for k in (w or h) if not (w and h) or w[k] != h.get(k)], json.dumps(sh(w))[:600], json.dumps(sh(h))[:600], g.get("msg", ""))
            elif g["flaws"]:
                bad = g["flaws"][0]
        if bad:
            c.violation(bad + " in\n" + j["src"] + json.dumps(j["binds"]) + "; ".join("%s=%s" % (k, show(v, 200)) for k, v in j["values"])[:600], {"job": j, "want": x})
        k = "errors" if x["log"][-1]["e"] == "err" else "results"
        c.extra[k] = c.extra.get(k, 0) + 1
        if k == "results" and len(x["log"]) > 3:
            c.sample({"program": j["src"], "binds": j["binds"], "value": show(x["log"][-1]["t"], 600)}, 4)


def same_other(t):
    return rec("$other") if t["k"] == "$other" else dict(t, c=[same_other(y) for y in t["c"]])


def run(c, jobs):
    parts = [jobs[k:k + 250] for k in range(0, len(jobs), 250)]
    def one(part):
        inp = [{"binds": j["binds"], "prog": j["prog"], "ops": j["ops"], "trace": [], "cut": False, "cx": False} for j in part]
        return tlc.run("Metatools", {"Mode": '"gen"', "In": "<- JsonIn", "NumIn": "<- JsonNum", "Stride": "1", "Offset": "0"}, INV, PROPS,
                       init="MInit", next="MNext", workers=1, heap="3g", files={"input.json": json.dumps(inp)})
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        runs = list(ex.map(one, parts))
    js, reps = [], []
    for part, r in zip(parts, runs):
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        got = {x["id"]: x for x in r.reports}
        for i, j in enumerate(part):
            if i + 1 not in got:
                raise tlc.TLCError("no report for %s\n%s" % (json.dumps(j)[:2000], r.output[-1500:]))
            # unspecified also: a macro invocation whose expression has been replaced by several
            if got[i + 1]["log"][-1]["m"] == "unspecified" or any(e["e"] == "call" and e["s"] == "expr" and e["t"]["k"] == "[]" for e in got[i + 1]["log"]):
                c.extra["programs without a specified result"] = c.extra.get("programs without a specified result", 0) + 1
                continue
            js.append(j)
            reps.append(got[i + 1])
    replay(c, js, reps)


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["macros behave as the library of behaviours in Expander.tla", "each unquote has its own copy of the tree it puts in"]
    deep = c.thorough
    P = Pool()
    J = Jobs(c.rng, P)
    jobs = []
    # conversions of trees of all kinds
    ts = list(P.bases) + [[e] for e in P.exprs]
    for _ in range(1500 if deep else 150):
        ts.append(P.stmtpair(c.rng.randrange(10 ** 6)))
        src = gen_splice.Gen(c.rng).module(c.rng.choice([1, 2, 4]))
        if corpus.ok(src):
            ts.append(ast.parse(src).body)
    for t in ts:
        t = t[0] if len(t) == 1 and c.rng.random() < .7 else ast.Module(body=t, type_ignores=[]) if c.rng.random() < .3 and isinstance(t[0], ast.stmt) else t
        e = trees.enc(t, loc=c.rng.random() < .6)
        if size(e) < 400:
            jobs.append(J.value_job(e, least=5))
    c.extra["trees converted"] = len(jobs)
    for _ in range(4000 if deep else 400):
        x = J.container(other=c.rng.random() < .15)
        if size(x) < 300:
            jobs.append(J.value_job(x, least=6))
    for _ in range(10000 if deep else 1300):
        jobs.append(J.quoted())
    for _ in range(2500 if deep else 350):
        b = J.binds()
        x = trees.enc(ast.parse(J.code(b, 0, False), mode="eval").body, loc=c.rng.random() < .5)
        j = J.value_job(x, b)
        jobs.append(j)
    jobs += [j for j in (J.first() for _ in range(3000 if deep else 450)) if j]
    jobs += [j for j in (J.misuse() for _ in range(400 if deep else 120)) if j]
    run(c, jobs)
    return c.finish()
