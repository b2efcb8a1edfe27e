"""C18: rendering trees as source text, read back by Syntax.tla."""
import ast, concurrent.futures, copy, glob, json, os, re, sys, warnings
import common, corpus, gen_splice, tlc, trees

STR = ["", "a", "it's", 'say "x"', "both ' and \"", "{", "}", "{}", "{{x}}", "\\", "\\n", "a\\", "\n", "\r\n", "\t\0\x1b[31m", "\u00e9", "\u20ac", "\U0001f600", "\ud800", "\x7f", "\u2028", "'''", '"""', "%s", "{x!r:>{w}}", "\\N{DASH}", "\x85"]
NUM = [0, 1, 10 ** 30, 0.5, 1e300 * 1e300, 1e-320, 1e22, 3j, 0j, 1e300j * 1e300, 0.0]


# statements with several clauses of each kind
NESTED = """
if 1:
    try:
        a
    except B:
        b
    except (C, D) as e:
        c
        d
    except:
        e
    else:
        f
    finally:
        g
if 1:
    try:
        a
    except* B:
        b
    except* C as e:
        c
    else:
        f
    finally:
        g
if 1:
    if a:
        b
    elif c:
        d
        e
    else:
        f
        g
if 1:
    match a:
        case 1:
            b
        case [x, *_] if y:
            c
            d
        case _:
            e
if 1:
    for a in b:
        c
    else:
        d
    while a:
        b
        c
    else:
        d
if 1:
    class A:
        a
        def f(self):
            b
        async def g(self):
            c
    with a:
        b
    d
"""


def parsed(t):
    """Is it a tree the parser makes? (The standard renderer gives a text for it.)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = ast.unparse(ast.fix_missing_locations(ast.Module(body=t, type_ignores=[])))
            return trees.enc(ast.parse(s).body, loc=False) == trees.enc(t, loc=False)
    except Exception:
        return False


def slots(body, cls):
    """Places of a node of the given class."""
    out = []
    for root in body:
        for n in ast.walk(root):
            for f, v in ast.iter_fields(n):
                if isinstance(v, cls):
                    out.append((n, f, None))
                elif isinstance(v, list):
                    out += [(n, f, i) for i, x in enumerate(v) if isinstance(x, cls)]
    return out


def get(s):
    n, f, i = s
    return getattr(n, f) if i is None else getattr(n, f)[i]


def put(s, x):
    n, f, i = s
    if i is None:
        setattr(n, f, x)
    else:
        getattr(n, f)[i] = x


class Pool:
    def __init__(self):
        self.stmts = [ast.parse(s).body for s in corpus.stmts() if corpus.ok(s)]
        self.exprs = [ast.parse(s, mode="eval").body for s in corpus.exprs() if corpus.ok(s, "eval")]
        self.pats = [x for b in self.stmts for r in b for x in ast.walk(r) if isinstance(x, ast.pattern)]
        self.small = [e for e in self.exprs if sum(1 for _ in ast.walk(e)) <= 12]
        self.bases = self.stmts + [[ast.Expr(value=e)] for e in self.exprs]

    def edit(self, rng, t):
        r = rng.random()
        if r < .45:
            c = slots(t, ast.expr)
            new = copy.deepcopy(rng.choice(self.small if rng.random() < .7 else self.exprs))
        elif r < .55:
            c, new = slots(t, ast.pattern), copy.deepcopy(rng.choice(self.pats))
        elif r < .65:
            c = slots(t, ast.stmt)
            new = copy.deepcopy(rng.choice(rng.choice(self.stmts)))
        elif r < .75:
            c = [s for s in slots(t, ast.Constant) if isinstance(get(s).value, str)]
            s = "".join(rng.choice(STR) for _ in range(rng.choice([1, 1, 2, 3])))
            new = ast.Constant(value=s if rng.random() < .8 else s.encode("utf8", "replace"), kind="u" if rng.random() < .05 else None)
            if isinstance(new.value, bytes):
                new.kind = None
        elif r < .8:
            c = [s for s in slots(t, ast.Constant) if not isinstance(get(s).value, str)]
            new = ast.Constant(value=rng.choice(NUM))
        elif r < .85:       # the body of a statement longer
            c = [n for x in t for n in ast.walk(x) if isinstance(getattr(n, "body", None), list)]
            if c:
                b = rng.choice(c).body
                b.insert(rng.randrange(len(b) + 1), copy.deepcopy(rng.choice(rng.choice(self.stmts))))
            return t
        elif r < .9:       # formatted strings
            c = slots(t, ast.expr)
            new = self.joined(rng, 2)
        else:               # leave something out
            c = [(n, f) for x in t for n in ast.walk(x) for f, v in ast.iter_fields(n) if isinstance(v, ast.AST) or (isinstance(v, list) and v)]
            if c:
                n, f = rng.choice(c)
                v = getattr(n, f)
                if isinstance(v, list):
                    i = rng.randrange(len(v))
                    if rng.random() < .5:
                        del v[i]
                    elif not isinstance(v[i], str):
                        v.insert(rng.randrange(len(v) + 1), copy.deepcopy(v[i]))
                else:
                    setattr(n, f, None)
            return t
        if c:
            put(rng.choice(c), new)
        return t

    def joined(self, rng, depth, spec=False):
        vs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .5 and not (vs and isinstance(vs[-1], ast.Constant)):
                s = rng.choice([x for x in STR if x and not (spec and ("{" in x or "}" in x))])
                vs.append(ast.Constant(value=s))
            else:
                e = copy.deepcopy(rng.choice(self.small))
                vs.append(ast.FormattedValue(value=e, conversion=rng.choice([-1, -1, 115, 114, 97]),
                                             format_spec=self.joined(rng, depth - 1, True) if depth and rng.random() < .3 else None))
        return ast.JoinedStr(values=vs)

    def pair(self, i):
        """The i-th of: an expression of the list in a place of another."""
        if not hasattr(self, "places"):
            self.places = [(b, j) for b, t in enumerate(self.bases) for j in range(len(slots(t, ast.expr)))]
        b, j = self.places[i // len(self.small) % len(self.places)]
        t = copy.deepcopy(self.bases[b])
        put(slots(t, ast.expr)[j], copy.deepcopy(self.small[i % len(self.small)]))
        return t

    def patpair(self, i):
        if not hasattr(self, "pplaces"):
            self.pplaces = [(b, j) for b, t in enumerate(self.stmts) for j in range(len(slots(t, ast.pattern)))]
        b, j = self.pplaces[i // len(self.pats) % len(self.pplaces)]
        t = copy.deepcopy(self.stmts[b])
        put(slots(t, ast.pattern)[j], copy.deepcopy(self.pats[i % len(self.pats)]))
        return t

    def stmtpair(self, i):
        """The i-th of: a compound statement of the list in a block of another."""
        if not hasattr(self, "splaces"):
            self.compound = [t[0] for t in self.stmts if len(t) == 1 and hasattr(t[0], "body")]
            self.nested = [[t] for t in self.compound] + [x.body for x in ast.parse(NESTED).body]
            self.splaces = [(b, j) for b, t in enumerate(self.nested) for j in range(len(slots(t, ast.stmt)))]
        b, j = self.splaces[i // len(self.compound) % len(self.splaces)]
        t = copy.deepcopy(self.nested[b])
        put(slots(t, ast.stmt)[j], copy.deepcopy(self.compound[i % len(self.compound)]))
        return t

    def partial(self):
        """The trees of the list with one or two parts of a node left out, or shortened to the first or the last."""
        out = []
        for b, t in enumerate(self.bases):
            for i, n in enumerate(x for s in t for x in ast.walk(s)):
                fs = [(f, w) for f, v in ast.iter_fields(n) for w in (["gone"] if isinstance(v, ast.AST) else ["gone", "first", "last"] if isinstance(v, list) and len(v) > 1 else ["gone"] if isinstance(v, list) and v else [])
                      if f != "ctx"]
                out += [(b, i, (x,)) for x in fs] + [(b, i, (x, y)) for k, x in enumerate(fs) for y in fs[k + 1:] if x[0] != y[0]]
        return out

    def leave(self, b, i, what):
        t = copy.deepcopy(self.bases[b])
        n = [x for s in t for x in ast.walk(s)][i]
        for f, w in what:
            v = getattr(n, f)
            setattr(n, f, None if not isinstance(v, list) else [] if w == "gone" else v[:1] if w == "first" else v[-1:])
        return t

    def number(self, rng, d=3):
        """An expression of constants some of which no literal gives."""
        C = lambda v: ast.Constant(value=v)
        if d == 0 or rng.random() < .25:
            return C(rng.choice([-1, -2.5, 2, 3j, -2j, 1 + 2j, -1 - 1j, 0.5, -0.0, float("inf"), -float("inf"), float("nan"), True, complex(0, float("inf")), 7]))
        k = rng.randrange(6)
        s = lambda: self.number(rng, d - 1)
        if k == 0:
            return ast.UnaryOp(op=rng.choice([ast.USub, ast.UAdd, ast.Not])(), operand=s())
        if k == 1:
            return ast.Call(func=ast.Attribute(value=s(), attr="conjugate", ctx=ast.Load()), args=[], keywords=[])
        if k == 2:
            return ast.Attribute(value=s(), attr=rng.choice(["real", "imag"]), ctx=ast.Load())
        if k == 3:
            return ast.Compare(left=s(), ops=[rng.choice([ast.Eq, ast.NotEq])()], comparators=[s()])
        op = rng.choice([ast.Pow, ast.Pow, ast.Add, ast.Sub, ast.Mult])()
        return ast.BinOp(left=s(), op=op, right=self.number(rng, 0 if isinstance(op, ast.Pow) else d - 1))


def signatures():
    """Functions with every kind of parameter list."""
    out = []
    for po in ("", "p", "p=1", "p, o", "p, o=1"):
        for ar in ("", "a", "a=2", "a, r", "a, r=2"):
            for va in ("", "*", "*v"):
                for ko in ("", "k", "k=3", "k=3, w"):
                    for kw in ("", "**d"):
                        if (va == "*" and not ko) or (ko and not va) or ("=" in po and ar and "=" not in ar.split(",")[0]):
                            continue
                        sig = ", ".join(x for x in (po, "/" if po else "", ar, va, ko, kw) if x)
                        out += ["def f(%s): pass" % sig, "(lambda %s: 0)" % sig]
                        if va != "*":
                            out.append("async def f(%s) -> x: pass" % re.sub(r"(\*?\b[a-z])(=\d)?(?=,|$)", r"\1: t\2", sig))
    return [ast.parse(x).body for x in out if corpus.ok(x)]


def library(rng, n, most):
    """Statements of the standard library."""
    files = sorted(glob.glob(os.path.dirname(ast.__file__) + "/*.py") + glob.glob(os.path.dirname(ast.__file__) + "/[a-hj-z]*/*.py"))
    out = []
    for f in rng.sample(files, min(len(files), n)):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                body = ast.parse(open(f, encoding="utf8").read()).body
        except Exception:
            continue
        c = [s for s in body for s in ast.walk(s) if isinstance(s, ast.stmt)]
        for s in rng.sample(c, min(len(c), most)):
            out.append([s])
    return out


def count(c, what, n=1):
    c.extra[what] = c.extra.get(what, 0) + n


def noempty(t):
    """Python may note an empty text in a format, or not."""
    cs = [noempty(x) for x in t["c"]]
    if t["k"] == "JoinedStr":
        cs = [dict(cs[0], c=[x for x in cs[0]["c"] if not (x["k"] == "Constant" and x["c"][0]["v"] == "s:")])]
    return dict(t, c=cs)


def nodes(t):
    return sum(1 for s in t for _ in ast.walk(s))


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    rng, P = c.rng, Pool()
    deep = c.thorough
    ts = [copy.deepcopy(t) for t in P.bases]
    npair = len(P.small) * sum(len(slots(t, ast.expr)) for t in P.bases)
    for i in rng.sample(range(npair), min(npair, 30000 if deep else 3500)):
        ts.append(P.pair(i))
    P.patpair(0)
    npat = len(P.pats) * len(P.pplaces)
    for i in rng.sample(range(npat), min(npat, 3000 if deep else 300)):
        ts.append(P.patpair(i))
    P.stmtpair(0)
    nst = len(P.compound) * len(P.splaces)
    for i in rng.sample(range(nst), min(nst, 20000 if deep else 3000)):
        ts.append(P.stmtpair(i))
    for _ in range(20000 if deep else 3000):
        t = copy.deepcopy(rng.choice(P.bases))
        for _ in range(rng.choice([1, 2, 2, 3, 5])):
            t = P.edit(rng, t)
        ts.append(t)
    for _ in range(3000 if deep else 400):
        src = gen_splice.Gen(rng).module(rng.choice([1, 2, 4]))
        if corpus.ok(src):
            ts.append(ast.parse(src).body)
    sg = signatures()
    ts += sg
    pl = P.partial()
    for x in pl:
        ts.append(P.leave(*x))
    ts += library(rng, 400 if deep else 60, 15 if deep else 8)
    jobs, seen = [], set()
    for t in ts:
        if nodes(t) > 160 or not parsed(t):
            continue
        e = trees.enc(t, loc=False)
        k = json.dumps(e)
        if k not in seen:
            seen.add(k)
            jobs.append({"tree": e})
    count(c, "trees", len(jobs))
    for _ in range(3000 if deep else 500):
        e = P.number(rng)
        jobs.append({"tree": trees.enc([ast.Expr(value=e)], loc=False), "value": True})
    res = common.run_jobs("real_unparse.py", jobs)
    toread = []
    for j, g in zip(jobs, res):
        c.traces += 1
        what = lambda: "%r of %s" % (g.get("text", "?")[:300], show(j["tree"])[:400])
        if "_dead" in g:
            c.violation(g["_dead"][-300:] + " at " + show(j["tree"])[:500], j)
            continue
        if g["bad"]:
            c.violation("; ".join(g["bad"])[:400] + ": " + what(), {"job": j, "got": g})
        if "toks" in g:
            toread.append((j, g, g["toks"], g["text"]))
            if len(g["toks"]) > 40:
                c.sample({"text": g["text"][:600]}, 4)
        if "std" in g and rng.random() < .4:
            toread.append((j, g, g["std"], None))
    def tlcrun(part):
        return part, tlc.run("Syntax", {"In": "<- JIn", "N": "<- JN"}, ["Report"], ["Forward"], workers=1, heap="3g",
                             files={"input.json": json.dumps([{"toks": x[2], "tree": noempty(x[0]["tree"])} for x in part])})
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        runs = list(ex.map(tlcrun, [toread[k:k + 400] for k in range(0, len(toread), 400)]))
    for part, r in runs:
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        got = {x["id"]: x for x in r.reports}
        for i, (j, g, toks, text) in enumerate(part):
            x = got[i + 1]
            which = "of the renderer" if text is not None else "of the standard renderer"
            if x["result"] == "same":
                count(c, "texts %s the specification reads as the tree" % which)
            elif text is None or g["same"]:
                # Python itself reads the tree: the specification does not cover this text
                if os.environ.get("C18_DEBUG"):
                    print("READER", x["result"], " ".join(t["s"] or t["k"] for t in toks)[:300], show(j["tree"])[:300], "READ", [show(d) for d in x["done"]][:3])
                count(c, "texts %s the specification does not read as Python does" % which)
            else:
                count(c, "texts %s both the specification and Python read as another tree" % which)
    return c.finish()


def show(t):
    if t["k"] == "[]":
        return "[" + ", ".join(show(x) for x in t["c"]) + "]"
    if t["k"] in ("id", "lit", "~"):
        return t["v"] or "-"
    return t["k"] + ("(" + ", ".join(show(x) for x in t["c"]) + ")" if t["c"] else "")
