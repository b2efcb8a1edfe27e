"""C25: sessions of the interactive consoles against Repl.tla."""
import ast, codeop, itertools, json, re, warnings
import common, tlc, corpus, vrepl_lib

INV = ["Report"]
PROPS = ["Isolated", "Failed", "Sources", "Stays", "UpToDate"]
FNS = ["f1", "f2", "f3"]
ALIASES = ["g1", "g2"]
VARS = ["v1", "v2"]
NAMES = FNS + ALIASES + VARS
SYNTAX = ["x = = 3", "foo bar?", "v1 = 3?", "return 3", "?", "v1; v2?", "v1?v2", "??", "if 1: x y", "f1[", "'abc"]
BROKEN = [x for x in SYNTAX if x not in ("f1[",)]


# ---- rendering ------------------------------------------------------------------
def expr(x):
    k = x["k"]
    if k == "int":
        return str(x["v"])
    if k == "str":
        return repr(x["v"])
    if k == "var":
        return x["n"]
    if k == "use":
        return "%s[%s]" % (x["n"], expr(x["x"]))
    return "(%s, %s)" % (expr(x["x"]), expr(x["y"]))


def stmt(s, indent=""):
    k = s["s"]
    if k == "def":
        return vrepl_lib.source(s["f"], indent, "macro" if s["d"] else "")
    t = {"set": lambda: "%s = %s" % (s["n"], expr(s["x"])), "show": lambda: expr(s["x"]), "bind": lambda: "macro(%s)" % expr(s["x"]),
         "mimp": lambda: "from %s import macros, %s" % (s["m"], ", ".join(a["n"] if a["n"] == a["r"] else "%s as %s" % (a["n"], a["r"]) for a in s["a"])),
         "imp": lambda: "import " + s["m"], "from": lambda: "from %s import %s as %s" % (s["m"], s["n"], s["r"]),
         "del": lambda: "del " + s["n"], "fail": lambda: "1 / 0"}[k]()
    return [indent + t]


def render(rng, ss, ipython):
    """Lines that make up the input."""
    defs = [s for s in ss if s["s"] == "def" and len(stmt(s)) > 1]
    mimps = [s for s in ss if s["s"] == "mimp"]
    if not defs and (len(ss) > 1 or rng.random() < .7):
        ls = ["; ".join(stmt(s)[0] for s in ss)]
        if rng.random() < .12:
            ls[0] += rng.choice(["  # really?", "  # what??", "  # macros?"])
        if len(ss) == 1 and ss[0]["s"] == "show" and ss[0]["x"]["k"] == "use" and rng.random() < .3:
            x = ss[0]["x"]
            ls = ["%s[" % x["n"], "  %s" % expr(x["x"]), "]"]
        return ls
    if len(ss) == 1 and defs:
        return stmt(ss[0]) + [""]
    if mimps:
        return None
    ls = ["if 1:"]
    for s in ss:
        ls += stmt(s, "    ")
    return ls + [""]


def flags(lines):
    """Whether Python's console would ask for more after each line; None if it would be done before the last one."""
    r = []
    for k in range(len(lines)):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                more = codeop.compile_command("\n".join(lines[:k + 1]), "<x>", "single") is None
        except (SyntaxError, ValueError, OverflowError):
            more = False
        r.append(more)
    return r if not any(not x for x in r[:-1]) and not r[-1] else None


# ---- sessions -------------------------------------------------------------------
class Gen:
    def __init__(self, rng, front):
        self.rng, self.front = rng, front
        self.named = rng.random() < .35
        self.ver = 0
        # what there probably is
        self.macros, self.vars = [], []

    def likely(self, known, others):
        return self.rng.choice(known) if known and self.rng.random() < .88 else self.rng.choice(others)

    def fn(self, n, where, session=False):
        r = self.rng
        self.ver += 1
        b = r.choice(["tag"] * 14 + ["raise", "bad", "badtree", "emit", "const"] + (["name"] * 6 if self.named else []))
        nm = n
        if b != "const" and r.random() < .25 and not (session and self.named):
            nm = r.choice(["wrapper", "<lambda>"])
        if b == "const" and session and self.named:
            b = "tag"
        return {"n": n, "id": "%s.%s@%d" % (where, n, self.ver), "nm": nm, "b": b, "to": r.choice(FNS + ALIASES) if b == "emit" else "", "v": self.ver}

    def content(self, m, st=None):
        r = self.rng
        st = st or r.choice(["ok"] * 12 + ["gone", "syntax", "start", "end"])
        return {"st": st, "fs": [] if st == "gone" else [self.fn(n, m) for n in FNS if r.random() < .9]}

    def expr(self, d=0):
        r = self.rng
        k = r.random()
        if k < .5 and d < 3:
            n = self.likely(self.macros, FNS + ALIASES + VARS[:1])
            return {"k": "use", "n": n, "x": self.expr(d + 1)}
        if k < .6 and d < 3:
            return {"k": "pair", "x": self.expr(d + 1), "y": self.expr(d + 1)}
        if k < .75:
            return {"k": "int", "v": r.randrange(9)}
        if k < .8:
            return {"k": "str", "v": "s%d?" % r.randrange(9)}
        return {"k": "var", "n": self.likely(self.vars + self.macros, NAMES)}

    def target(self):
        r = self.rng
        return r.choice(VARS + ([] if self.named else FNS + ALIASES))

    def stmt(self, one):
        r = self.rng
        k = r.choice(["set", "show", "show", "show", "show", "def", "bind", "mimp", "mimp", "mimp", "imp", "from"] + ["del", "fail"] * (r.random() < .4))
        m = r.choice(["mod0", "mod1"])
        if k == "set":
            s = {"s": k, "n": self.target(), "x": self.expr()}
            self.vars.append(s["n"])
            return s
        if k == "show":
            return {"s": k, "x": self.expr()}
        if k == "def":
            f = self.fn(r.choice(FNS), "here", True)
            self.vars.append(f["n"])
            return {"s": k, "f": f, "d": f["nm"] == f["n"] and f["b"] != "const" and r.random() < .6}
        if k == "bind":
            return {"s": k, "x": {"k": "var", "n": self.likely(self.macros, FNS + ALIASES + VARS[:1])}}
        if k == "mimp":
            m = r.choice([m, m, m, m, m, "__self__"])
            s = {"s": k, "m": m, "a": [{"n": n, "r": n if r.random() < .7 else r.choice(FNS + ALIASES)} for n in r.sample(FNS, r.choice([1, 1, 2]))]}
            self.macros += [a["r"] for a in s["a"]]
            return s
        if k == "imp":
            return {"s": k, "m": m}
        if k == "from":
            return {"s": k, "m": m, "n": r.choice(FNS), "r": r.choice(FNS + ALIASES)}
        if k == "del":
            return {"s": k, "n": self.target()}
        return {"s": k}

    def input(self, w):
        r = self.rng
        if r.random() < .08:
            return {"k": "in", "w": w, "st": "syntax", "ss": [], "lines": [r.choice(BROKEN if self.front == "console" else ["x = = 3", "if 1: x y"])]}
        while True:
            ss = [self.stmt(1) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
            ls = render(r, ss, self.front == "ipython")
            if ls is None or flags(ls) is None:
                continue
            return {"k": "in", "w": w, "st": "ok", "ss": ss, "lines": ls}

    def chain(self, w):
        """A macro of the session's own, deleted or defined anew, and imported from the session before and after."""
        r = self.rng
        n = r.choice(FNS)
        imp = {"s": "mimp", "m": "__self__", "a": [{"n": n, "r": n if r.random() < .7 else r.choice(ALIASES)}]}
        use = {"s": "show", "x": {"k": "use", "n": imp["a"][0]["r"], "x": {"k": "int", "v": 1}}}
        new = lambda: {"s": "def", "f": self.fn(n, "here", True), "d": False}
        ss = [[new()]] + ([[imp], [use]] if r.random() < .6 else []) + [[{"s": "del", "n": n}]] * (r.random() < .7)
        ss += ([[new()]] if r.random() < .3 else []) + [[imp], [use]]
        if self.named:      # the name could be that of an identifier macro
            return []
        return [{"k": "in", "w": w, "st": "ok", "ss": x, "lines": render(r, x, self.front == "ipython")} for x in ss]

    def session(self, n):
        r = self.rng
        mods = {m: self.content(m, "ok" if r.random() < .7 else None) for m in ("mod0", "mod1")}
        cons = 1 if self.front == "ipython" else r.choice([1, 1, 2])
        evs = []
        for _ in range(n):
            if len(evs) < 2 and r.random() < .7:
                w = r.randrange(1, cons + 1)
                ss = [{"s": "set", "n": "v%d" % (2 - len(evs)), "x": {"k": "int", "v": r.randrange(9)}}]
                if r.random() < .6:
                    ss = [{"s": "mimp", "m": r.choice(["mod0", "mod1"]), "a": [{"n": "f1", "r": "f1"}, {"n": "f2", "r": r.choice(["f2", "g1"])}]}]
                self.macros += [a["r"] for s in ss for a in s.get("a", [])]
                self.vars += [s["n"] for s in ss if "n" in s]
                evs.append({"k": "in", "w": w, "st": "ok", "ss": ss, "lines": ["; ".join(stmt(s)[0] for s in ss)]})
                continue
            k = r.random()
            w = r.randrange(1, cons + 1)
            if k < .15:
                m = r.choice(["mod0", "mod1"])
                evs.append({"k": "edit", "m": m, "c": self.content(m)})
            elif k < .25:
                q = "macros" if self.front == "ipython" else r.choice(["macros", "doc", "src"])
                n1 = r.choice(NAMES)
                if self.front == "ipython" and r.random() < .6:
                    x = self.expr(2)
                    n1, mode = r.choice(["yes", "yes", "no"]), r.choice(["", "", " -m eval", " --mode single"])
                    evs.append({"k": "query", "w": w, "q": "dump", "n": n1, "x": x, "mode": mode.split()[-1] if mode else "exec",
                                "lines": ["%%dump_ast" + r.choice(["", " -e yes", " --expand yes"][1:] if n1 == "yes" else ["", " -e no"]) + mode, expr(x)]})
                    continue
                evs.append({"k": "query", "w": w, "q": q, "n": n1, "lines": ["macros?" if q == "macros" else n1 + ("?" if q == "doc" else "??")]})
            elif k < .31:
                evs += [e for e in self.chain(w) if e["lines"] is not None and flags(e["lines"]) is not None]
            else:
                evs.append(self.input(w))
        return {"kind": "session", "front": self.front, "n": cons, "mods": mods, "evs": evs, "names": NAMES, "main": r.random() < .5}


def menu(length):
    """All short sessions of a few inputs."""
    f = lambda i, b="tag", nm="f1": {"n": "f1", "id": i, "nm": nm, "b": b, "to": "", "v": 0}
    use = {"s": "show", "x": {"k": "use", "n": "f1", "x": {"k": "int", "v": 1}}}
    mimp = {"s": "mimp", "m": "mod0", "a": [{"n": "f1", "r": "f1"}]}
    I = lambda *ss, lines=None: {"k": "in", "w": 1, "st": "ok", "ss": list(ss), "lines": lines or ["; ".join(stmt(s)[0] for s in ss)]}
    one = f("here.f1@1")
    evs = [I(mimp), I(mimp, use), I({"s": "mimp", "m": "mod0", "a": [{"n": "f1", "r": "f1"}, {"n": "f2", "r": "f2"}]}),
           I(use), I({"s": "set", "n": "v1", "x": use["x"]}), I({"s": "show", "x": {"k": "pair", "x": {"k": "var", "n": "f1"}, "y": {"k": "var", "n": "v1"}}}),
           I({"s": "def", "f": one, "d": True}, lines=vrepl_lib.source(one, "", "macro") + [""]),
           I({"s": "imp", "m": "mod0"}, {"s": "fail"}), I({"s": "fail"}, use),
           {"k": "edit", "m": "mod0", "c": {"st": "ok", "fs": [f("mod0.f1@2", nm="wrapper")]}},
           {"k": "edit", "m": "mod0", "c": {"st": "ok", "fs": [f("mod0.f1@3", "raise")]}},
           {"k": "edit", "m": "mod0", "c": {"st": "end", "fs": [f("mod0.f1@4")]}},
           {"k": "edit", "m": "mod0", "c": {"st": "gone", "fs": []}},
           {"k": "in", "w": 1, "st": "syntax", "ss": [], "lines": ["x = = 3"]}]
    for x in itertools.product(evs, repeat=length):
        yield {"kind": "session", "n": 1, "mods": {"mod0": {"st": "ok", "fs": [f("mod0.f1@1")]}}, "evs": list(x), "names": NAMES, "main": True}


# ---- ordinary code --------------------------------------------------------------
PIECES = """a = [1, 2, 3]
a
a.append(len(a))
None
1; 2; 3
_
"x?"
'what??'  # really?
a and a[0]  # macros?
x = '''on e?|tw o??|three'''
x
print(a, x)
for i in range(3):|    i|
for i in range(2):|    i;  i + 1|else:|    "end"|
def g(n):|    "doc"|    return n if n < 2 else g(n - 1) + g(n - 2)|
g(7)
g
class D:|    x = 1|    def m(self):|        return self.x|
D().m()
with open('/dev/null') as fh:|    fh.read()|
1 / 0
g(
g(|3|)
a = [|1,|2|]
nosuch
raise ValueError("x")
try:|    1 / 0|except ZeroDivisionError as e:|    str(e)|
(yield)
x = = 3
return 1
if 1: pass|
if 1:|pass
  indented
def h():|    x|  y|
lambda: 0
[i for i in range(3)]
{i: i for i in range(3)}
from __future__ import annotations
def k(x: nosuch): pass|
k.__annotations__
import os.path
os.path.join("a", "b")
from math import pi, floor as fl
fl(pi)
global a
assert a
assert 0, "no"
async def co():|    pass|
del a
a
f"{x!r:>10}"
f'''{|x}'''
b'\\x00'
\\
x = 1 + \\|2
if x:|    x|elif x:|    2|
match x:|    case 3: "three"|    case _: "other"|
@staticmethod|def st(): pass|
type T = int
print('a', end=''); 5
exec("y = 5"); y
nonlocal q
await x
x: int = 5
x
__name__
x = ('''|'''|)
"a" "b"
# comment

    
pass
...
lambda x: (x,|x)
0x
'abc
1 if 2
def
macros
macro_bindings = 3
try:|    pass|
while 0:|    pass|else:|    1|
print("\\u00e9?")
'\\0'
"""


def plains(rng, n):
    pieces = [x.split("|") for x in PIECES.split("\n")]
    for s in corpus.stmts():
        ls = s.split("\n")
        if "quit" in s or "exit" in s or "while" in s:
            continue
        pieces.append(ls + ([""] if len(ls) > 1 or flags(ls) is None else []))
    for e in corpus.exprs():
        pieces.append(e.split("\n"))
    return [{"kind": "plain", "lines": [l for p in (rng.choice(pieces) for _ in range(12)) for l in p]} for _ in range(n)]


# ---- comparison -----------------------------------------------------------------
def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if not (v.get("k") == "fn" and k in ("b", "to"))}
    return v


def code(x):
    if x["k"] in ("tagged", "pair"):
        return "(%s, %s)" % (repr(x["v"]) if x["k"] == "tagged" else code(x["x"]), code(x["x"] if x["k"] == "tagged" else x["y"]))
    return "%s[%s]" % (x["n"], code(x["x"])) if x["k"] in ("sub", "use") else expr(x)


def canon(x):
    return ast.unparse(ast.parse(code(x), mode="eval"))


def compare(job, want, got):
    ip = job["front"] == "ipython"
    disk = dict(job["mods"])
    for k, (v, w) in enumerate(zip(job["evs"], want)):
        if v["k"] == "edit":
            disk[v["m"]] = v["c"]
            continue
        if k >= len(got):
            return k, "no result: %s" % got[-1:]
        g = got[k]
        e = "before" if ip and w["before"] else w["e"]
        if v["k"] == "query" and v["q"] == "dump" and e:
            e = "InputRejected"
        if g["e"] != e:
            return k, "it ended with %s, not with %s" % (g["e"] or "no error", e or "none")
        for f, what in (("env", "names"), ("macs", "macros")):
            a = strip(w[f]) if w[f] else {}
            if a != g[f]:
                return k, "%s: want %s got %s" % (what, a, g[f])
        if "more" in g and g["more"] != ([False] if v["k"] == "query" or v["st"] == "syntax" else flags(v["lines"])):
            return k, "asked for more input: %s" % g["more"]
        if g.get("stdout"):
            return k, "printed %r" % g["stdout"]
        if v["k"] == "in":
            if [strip(x) for x in w["out"]] != g["out"]:
                return k, "shown: want %s got %s" % (strip(w["out"]), g["out"])
        elif v["q"] == "dump":
            if not e and g["dumped"] != [{"exec": "Module", "eval": "Expression", "single": "Interactive"}[v["mode"]], canon(w["out"][0])]:
                return k, "the tree shown is %s, not %s" % (g["dumped"], canon(w["out"][0]))
        elif v["q"] == "macros":
            ls = [x.strip() for x in g["text"].split("\n")]
            rows = [x for x in ls if re.match(r"^\S+: \S+$", x)]
            if sorted(rows) != g["sig"]:
                return k, "the macros reported are %s, those in force %s" % (rows, g["sig"])
        elif not w["e"] and w["out"][0] not in ("other", "unspecified"):
            id = w["out"][0]
            here = id.startswith("here")
            val = w["env"][v["n"]]
            plain = val["nm"] not in ("wrapper", "<lambda>")
            if v["q"] == "doc":
                if ("doc " + id) not in g["text"].split("\n"):
                    return k, "docstring of %s not shown: %r" % (id, g["text"])
                current = any(f["id"] == id for m in disk.values() if m["st"] == "ok" for f in m["fs"])
                if current and plain and not re.match(r"\S*%s\.py:\d+\n" % id.split(".")[0], g["text"]):
                    return k, "location of %s not shown: %r" % (id, g["text"])
            elif here and plain:
                if "no source code available" not in g["text"]:
                    return k, "source of %s: %r" % (id, g["text"])
            elif plain and "act(%r" % id not in g["text"]:
                return k, "source of %s not shown: %r" % (id, g["text"])
    return None


def text(job, upto):
    out = []
    for v in job["evs"][:upto + 1]:
        if v["k"] == "edit":
            out.append("edit %s: %s" % (v["m"], v["c"]["st"] + " " + ", ".join("%s=%s(%s)" % (f["n"], f["id"], f["b"]) for f in v["c"]["fs"])))
        else:
            out.append("[%d] %s" % (v["w"], " | ".join(v["lines"])))
    return " // ".join(out)


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    rng = c.rng
    deep = c.thorough
    jobs = []
    short = list(menu(3 if deep else 2))
    if not deep:
        three = list(menu(3))
        short += rng.sample(three, 250)
    for j in short:
        jobs.append(dict(j, front="console"))
    for j in (rng.sample(short, 1200) if deep else rng.sample(short, 150)):
        jobs.append(dict(j, front="ipython"))
    for _ in range(6000 if deep else 700):
        jobs.append(Gen(rng, "console").session(rng.choice([6, 10, 16])))
    for _ in range(1500 if deep else 200):
        jobs.append(Gen(rng, "ipython").session(rng.choice([6, 10])))
    keep, wants = [], []
    step = 700
    for k in range(0, len(jobs), step):
        part = jobs[k:k + step]
        r = tlc.run("Repl", {"In": "<- JIn", "NumIn": "<- JN"}, INV, PROPS, files={"input.json": json.dumps(part)})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        got = {x["id"]: x["log"] for x in r.reports}
        for i, j in enumerate(part):
            log = got[i + 1]
            cut = next((q for q, e in enumerate(log) if e and e["e"] == "unspecified"), len(log))
            if cut:
                keep.append(dict(j, evs=j["evs"][:cut]))
                wants.append(log[:cut])
    real = common.run_jobs("real_repl.py", keep, per_chunk_max=60)
    n = shown = errors = 0
    for j, w, g in zip(keep, wants, real):
        c.traces += 1
        n += len(w)
        shown += sum(bool(e and e["out"]) for e in w)
        errors += sum(bool(e and e["e"]) for e in w)
        if "_dead" in g:
            c.violation("the session failed: %s in %s" % (g["_dead"][-500:], text(j, 99)), {"job": j, "want": w})
            continue
        bad = compare(j, w, g["log"])
        if bad:
            c.violation("%s: after %s" % (bad[1], text(j, bad[0])), {"job": j, "want": w, "got": g["log"]})
        elif len(w) > 8:
            c.sample({"session": text(j, 99)}, 3)
    ps = plains(rng, 1500 if deep else 300)
    for j, g in zip(ps, common.run_jobs("real_repl.py", ps, per_chunk_max=50)):
        c.traces += 1
        if "_dead" in g or g["bad"]:
            c.violation("ordinary code: %s" % (g.get("_dead") or g["bad"])[-800:], {"job": j, "got": g})
    c.extra.update({"inputs, queries and edits": n, "inputs with values shown": shown, "inputs that fail": errors, "sessions of ordinary code": len(ps)})
    c.assumptions = ["The value of __name__ in a session isn't claimed.", "Macros are identified by the id that their docstring carries.",
                     "Assignments to names that are identifier macros are not part of the sessions."]
    return c.finish()
