"""Random templates and user code for splicing, as encoded trees."""
import ast
import trees

EXPRS = ["f({})", "[{}, 2]", "{{1: {}, 'k': {}}}", "(lambda x={}: {})", "[y for y in {} if {}]", "{}.attr", "{}[{}:{}]", "f(*{}, k={}, **{})", "({} if {} else {})",
         "(z := {})", "f'{{{}}}'", "{} < {} < 3", "not {}", "{} and {}", "(yield)", "{}", "({},)", "{{{}, 3}}"]
BLOCKS = ["if {e}:\n{b}\nelse:\n{b}", "for i in {e}:\n{b}\nelse:\n{b}", "while {e}:\n{b}", "with {e} as w, {e}:\n{b}", "try:\n{b}\nexcept {e} as err:\n{b}\nelse:\n{b}\nfinally:\n{b}",
          "def fn(a, b={e}, *c, d={e}, **k) -> {e}:\n{b}", "@{e}\nclass C({e}, m={e}):\n{b}", "async def af(x: {e}):\n{b}", "match {e}:\n    case [1, x] if {e}:\n{bb}\n    case _:\n{bb}",
          "try:\n{b}\nexcept* {e}:\n{b}", "@{e}\nasync def ag():\n{b}"]
SIMPLE = ["x = {e}", "del d[{e}]", "return {e}", "assert {e}, {e}", "x += {e}", "x: {e} = {e}", "raise {e} from {e}", "import os", "global g", "print({e})", "{e}", "pass", "from a import b as c"]


class Gen:
    def __init__(self, rng, tag="__paste_here__", pe=0, ps=0):
        self.r, self.tag, self.pe, self.ps = rng, tag, pe, ps

    def expr(self, d=0):
        r = self.r
        if r.random() < self.pe:
            return self.tag
        if d > 2 or r.random() < .5:
            return r.choice(["a", "b", "1", "'s'", "None", "__paste__", "__paste_here__", "__all__"])
        t = r.choice(EXPRS)
        n = t.replace("{{", "").replace("}}", "").count("{}")
        if "f'" in t:
            return "f'{" + r.choice(["a", self.tag if self.pe else "b"]) + "}'"
        return t.format(*[self.expr(d + 1) for _ in range(n)])

    def imp(self, what=None):
        r = self.r
        return "from %s import %s, %s%s" % (r.choice(["m", "pk.m", ".rel"]), what or r.choice(["macros", "dialects"]), r.choice(["x", "y"]), r.choice(["", " as z"]))

    def block(self, d, indent=1):
        r = self.r
        if r.random() < .15:
            s = self.imp() if r.random() < .7 else self.tag
        else:
            s = "\n".join(self.stmt(d + 1) for _ in range(r.choice([1, 1, 2, 3])))
        return "\n".join("    " * indent + x for x in s.split("\n"))

    def stmt(self, d=0):
        r = self.r
        if r.random() < self.ps:
            return self.tag
        if d < 3 and r.random() < (.5 if d == 0 else .3):
            t, out = r.choice(BLOCKS), ""
            i = 0
            while i < len(t):
                for k in ("{e}", "{bb}", "{b}"):
                    if t.startswith(k, i):
                        out += self.expr(1) if k == "{e}" else self.block(d, 2 if k == "{bb}" else 1)
                        i += len(k)
                        break
                else:
                    out += t[i]
                    i += 1
            return out
        if r.random() < .12:
            return self.imp()
        if r.random() < .04:
            return r.choice(["__all__ = ['in']", "'a string'", "from m import macros as q, x", "from m import x, macros", "__all__ += ['k']", "a = __all__ = []"])
        t = r.choice(SIMPLE)
        n = t.count("{e}")
        for _ in range(n):
            t = t.replace("{e}", self.expr(1), 1)
        return t

    def module(self, n):
        r = self.r
        s = []
        if r.random() < .4:
            s.append(r.choice(["'doc of it'", "'''two\nlines'''", "''", "b'no doc'", "f'no doc'"]))
        for _ in range(r.choice([0, 0, 1, 2])):
            s.append("from __future__ import " + r.choice(["annotations", "division"]))
        for _ in range(n):
            s.append(r.choice(["__all__ = ['u%d']" % r.randrange(9), self.imp(), self.imp("macros")]) if r.random() < .25 else self.stmt())
        if self.ps and r.random() < .8:
            s.insert(r.randrange(len(s) + 1), self.tag)
        return "\n".join(s) or "pass"


def mark(rng, t, p):
    """Wrap some expressions and lists of statements in markers."""
    if t["k"] == "[]":
        c = [mark(rng, x, p) for x in t["c"]]
        i = next((i for i, x in enumerate(c) if x["p"] and x["k"] in ("Expr", "Assign", "If", "With")), None)
        if i is not None and rng.random() < p:
            c[i:] = [trees.rec("Mk", "", "", [trees.rec("[]", "", "", c[i:])])]
        return dict(t, c=c)
    return dict(t, c=[mark(rng, x, p) for x in t["c"]])


def tree(src):
    return trees.enc(ast.parse(src).body)


def job(rng, op=None):
    tag = "__paste_here__" if rng.random() < .7 else "spot"
    op = op or rng.choice(["expr", "stmts", "dialect", "dialect"])
    while True:
        try:
            user = Gen(rng)
            if op == "expr":
                body = trees.enc(ast.parse("(" + user.expr() + ")", mode="eval").body)
                if rng.random() < .1:
                    body = trees.rec("Mk", "", "", [body])
                elif rng.random() < .06:
                    body = tree(rng.choice(["x = 1", "pass"]))["c"][0]
                g = Gen(rng, tag, pe=.15)
                if rng.random() < .25:
                    tmpl = trees.enc(ast.parse("(" + g.expr() + ")", mode="eval").body)
                else:
                    tmpl = tree("\n".join(g.stmt() for _ in range(rng.choice([1, 2, 3]))))
                    if rng.random() < .3:
                        tmpl = tmpl["c"][0]
            else:
                body = tree(user.module(rng.choice([0, 1, 2, 4])) if op == "dialect" else user.expr() if op == "inject" and rng.random() < .05 else "\n".join(user.stmt() for _ in range(rng.choice([1, 1, 2, 3]))))
                g = Gen(rng, tag, ps=.2)
                tmpl = tree(g.module(rng.choice([0, 1, 2, 3])) if op in ("dialect", "inject") else "\n".join(g.stmt() for _ in range(rng.choice([1, 2, 3]))))
                if rng.random() < .1:
                    body = body["c"][0]
                if rng.random() < .1:
                    tmpl = tmpl["c"][0]
            if op == "inject":
                if rng.random() < .3 and body["k"] == "[]" and body["c"]:       # one statement
                    body = body["c"][0]
                if rng.random() < .05 and body["k"] == "Expr":
                    body = body["c"][0]
            if rng.random() < .15:
                tmpl = mark(rng, tmpl, .3)
            if rng.random() < .04:
                tmpl = trees.rec("[]")
            elif op != "expr" and rng.random() < .03:
                body = trees.rec("[]")
            if trees.size(tmpl) + trees.size(body) > 400:
                continue
            if rng.random() < .15:
                tmpl = noloc(tmpl)
            if rng.random() < .1:
                body = noloc(body)
        except SyntaxError:
            continue
        return {"op": op, "body": body, "tmpl": tmpl, "tag": tag, "loc": rng.choice(["", "0077:4:None:None", "0003:0:None:None"]) if op == "dialect" else ""}


def noloc(t):
    return dict(t, p="?" if t["p"] else "", c=[noloc(x) for x in t["c"]])


USER = ["'doc'", "from __future__ import annotations", "__all__ = ['u']", "from m import dialects, D", "from m import macros, x", "a = __paste_here__", "if c:\n    from m import macros, y", "u\nfor i in s:\n    v"]
TMPL = ["'about'", "from __future__ import division", "__all__ = ['t']", "from t import dialects, E", "from t import macros, z", "__paste_here__", "with w:\n    __paste_here__",
        "with w:\n    from t import macros, k\n    def f(x=__paste_here__):\n        __paste_here__\n        return 1", "t = __paste_here__"]


def alphabet():
    st = lambda i, s: tree("\n" * (3 * i) + s)["c"]
    return {"user": [st(i + 1, s)[0] for i, s in enumerate(USER)], "tmpl": [st(i + 20, s)[0] for i, s in enumerate(TMPL)], "loc": "0077:0:None:None"}
