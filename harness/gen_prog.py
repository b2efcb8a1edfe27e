"""Random programs with macro invocations, as source text."""


class Gen:
    def __init__(self, rng, binds, maxdepth=4, dens=0.5, forms=None):
        self.r, self.b, self.maxdepth, self.dens = rng, binds, maxdepth, dens
        self.names = list(binds)
        self.forms = forms or {}

    def name(self):
        if self.r.random() < 0.08 and self.names:
            return self.r.choice(self.names)        # a bare macro name
        return self.r.choice(["a", "b", "c", "x", "y", "foo"])

    def atom(self):
        r = self.r.random()
        if r < 0.6:
            return self.name()
        if r < 0.8:
            return str(self.r.randrange(9))
        return self.r.choice(["'s'", "None", "True", "1.5", "b'z'", "..."])

    def macroargs(self, d):
        n = self.r.choice([1, 1, 2, 3])
        return [self.expr(d + 2) for _ in range(n)]

    def head(self, d):
        """A candidate macro reference, with or without arguments."""
        n = self.r.choice(self.names)
        par = self.b[n]["par"]
        r = self.r.random()
        if r < (0.55 if par else 0.08):
            return "%s[%s]" % (n, ", ".join(self.macroargs(d)))
        if r < (0.70 if par else 0.12):
            return "%s(%s)" % (n, ", ".join(self.macroargs(d)))
        if r < 0.74 and self.forms.get("odd"):
            return self.r.choice([n + "()", n + "(*a)", n + "(a, k=1)", "a." + n, n + ".a", n + "[()]", n + "[*a]", "(%s, a)[0]" % n,
                                  n + "(a, *b)", n + "(1, b, *a, 2)", n + "(**k)", n + "(a, **k)", n + "(k=1)", n + "[a:b]", n + "[a, *b]", n + "(a)(b)", "(%s if a else b)" % n])
        return n

    def expr(self, d=0):
        R = self.r
        if d >= self.maxdepth:
            return self.atom()
        if self.names and R.random() < self.dens:
            h = self.head(d)
            r = R.random()
            if r < 0.8:
                return "%s[%s]" % (h, self.sliceexpr(d + 1))
            if r < 0.9:
                return "%s[%s][%s]" % (h, self.expr(d + 1), self.expr(d + 1))
            return "%s.attr" % h if r < 0.95 else h
        k = R.randrange(17)
        e = lambda: self.expr(d + 1)
        if k == 0:
            return "(%s + %s)" % (e(), e())
        if k == 1:
            return "[%s, %s]" % (e(), e())
        if k == 2:
            return "(%s, %s)" % (e(), e())
        if k == 3:
            return "foo(%s, %s)" % (e(), e())
        if k == 4:
            return "foo(*%s, key=%s, **%s)" % (e(), e(), e())
        if k == 5:
            return "{%s: %s, **%s}" % (e(), e(), e())
        if k == 6:
            return "(lambda p, *q, r=%s: %s)" % (e(), e())
        if k == 7:
            return "[%s for x in %s if %s]" % (e(), e(), e())
        if k == 8:
            return "(%s if %s else %s)" % (e(), e(), e())
        if k == 9:
            return "(%s).attr" % e()
        if k == 10:
            return "(%s)[%s]" % (e(), self.sliceexpr(d + 1))
        if k == 11:
            return "(%s < %s <= %s)" % (e(), e(), e())
        if k == 12:
            return "(not %s)" % e()
        if k == 13:
            return "{%s, %s}" % (e(), e())
        if k == 14:
            return "(w := %s)" % e() if not self.forms.get("targets") or R.random() < .5 else "[%s for %s in %s]" % (e(), self.target(d + 1), e())
        if k == 15:
            return "(%s and %s or %s)" % (e(), e(), e())
        return self.atom()

    def sliceexpr(self, d):
        r = self.r.random()
        if r < 0.1:
            return "%s, %s" % (self.expr(d), self.expr(d))
        if r < 0.15:
            return "%s:%s" % (self.expr(d), self.expr(d))
        return self.expr(d)

    def target(self, d):
        if self.names and self.r.random() < self.forms.get("targets", 0):
            h = self.r.choice(self.names)        # a macro in a position that is written
            if self.b[h]["par"] and self.r.random() < .5:
                h += "[a]"
            return "%s[%s]" % (h, self.target(d + 1) if d < self.maxdepth else "t")
        if self.r.random() < .15 and self.forms.get("targets"):
            return "(%s, [%s, t])" % (self.target(d + 1), self.target(d + 1)) if d < self.maxdepth else "u"
        return self.r.choice(["t", "t.u", "t[%s]" % self.expr(d + 2), "(t, *u)", "[t, u]"])

    def block(self, d, ind):
        n = self.r.choice([1, 1, 2, 3]) if d < 3 else 1
        return "".join(self.stmt(d, ind) for _ in range(n))

    def stmt(self, d, ind):
        R = self.r
        pad = "    " * ind
        e = lambda: self.expr(max(1, d))
        deep = d >= self.maxdepth
        if self.names and not deep and R.random() < self.dens * 1.2:
            r = R.random()
            if r < 0.45:      # block macro
                items = []
                for _ in range(R.choice([1, 1, 2, 3])):
                    it = self.head(d) if R.random() < 0.8 else "foo(%s)" % e()
                    if R.random() < 0.25:
                        it += " as " + R.choice(["t", "(t, u)", "t.u"])
                    items.append(it)
                return pad + "with " + ", ".join(items) + ":\n" + self.block(d + 1, ind + 1)
            if r < 0.85:      # decorators
                s = ""
                for _ in range(R.choice([1, 2, 2, 3])):
                    s += pad + "@" + (self.head(d) if R.random() < 0.75 else R.choice(["foo", "foo(%s)" % e(), "a.b"])) + "\n"
                return s + self.definition(d, ind)
            return pad + self.expr(1) + "\n"
        k = R.randrange(6 if deep else 19)
        if k == 0:
            return pad + e() + "\n"
        if k == 1:
            return pad + "%s = %s\n" % (self.target(d), e())
        if k == 2:
            if self.forms.get("targets"):
                return pad + R.choice(["t.u += %s\n", "t[0], u = a = %s\n", "del t, (t.u, [t[%s], u])\n"]) % e()
            return pad + "t += %s\n" % e()
        if k == 3:
            return pad + "t: %s = %s\n" % (e(), e())
        if k == 4:
            return pad + R.choice(["pass\n", "import os\n", "from os import path as p, sep\n", "global g, h\n", "assert %s\n" % e(), "del t\n"])
        if k == 5:
            return pad + "raise %s\n" % e()
        b = lambda: self.block(d + 1, ind + 1)
        if k == 6:
            return pad + "if %s:\n" % e() + b() + (pad + "else:\n" + b() if R.random() < .5 else "")
        if k == 7:
            return pad + "for %s in %s:\n" % (self.target(d), e()) + b()
        if k == 8:
            return pad + "while %s:\n" % e() + b()
        if k == 9:
            return pad + "try:\n" + b() + pad + "except %s as err:\n" % e() + b() + pad + "finally:\n" + b()
        if k == 10:
            return pad + "with foo(%s) as t, a:\n" % e() + b()
        if k == 11:
            return pad + "match %s:\n" % e() + pad + "    case [1, *r] if %s:\n" % e() + self.block(d + 1, ind + 2)
        if k == 12:
            return self.definition(d, ind)
        if k == 13:
            return pad + "return_ = (yield_, %s)\n" % e()
        if k == 14:
            return pad + "f(f'{%s!r:>{a}} z')\n" % self.name()
        return pad + e() + "\n"

    def definition(self, d, ind):
        R = self.r
        pad = "    " * ind
        r = R.random()
        b = self.block(d + 1, ind + 1)
        e = lambda: self.expr(max(2, d))
        if r < 0.45:
            return pad + "def f(p, q=%s, *, r: %s = %s) -> %s:\n" % (e(), e(), e(), e()) + b
        if r < 0.65:
            return pad + "async def f(p):\n" + b
        return pad + "class C(%s, metaclass=%s):\n" % (e(), e()) + b

    def module(self, n=None):
        while True:
            s = "".join(self.stmt(0, 0) for _ in range(n or self.r.choice([1, 2, 3, 4])))
            try:
                import ast
                ast.parse(s)
                return s
            except SyntaxError:
                continue


BEHS = ["id", "wrap", "none", "const", "dup", "multi", "gen", "emit", "args",
        "vis", "visrec", "visonce", "onceb", "twice", "visargs"]
FAULTS = ["raise", "visraise", "try", "bad", "badlist"]


def binds(rng, n=6, behs=None, pnam=0.25, ppar=0.5, faults=0.0):
    names = ["m%d" % i for i in range(n)]
    out = {}
    for i, m in enumerate(names):
        pool = behs or BEHS
        beh = rng.choice(FAULTS) if rng.random() < faults else rng.choice(pool)
        if i == n - 1 and beh == "emit":
            beh = "wrap"
        to = rng.choice(names[i + 1:]) if i < n - 1 else m
        out[m] = {"beh": beh, "to": to, "par": beh in ("args", "visargs") or rng.random() < ppar, "nam": rng.random() < pnam}
    return out
