"""Captures: how they come to be, and what is recognized as one."""
import ast, json, re, sys, warnings
warnings.simplefilter("ignore")
import mcpyrate, mcpyrate.quotes
from mcpyrate import quotes, unparse
from mcpyrate.expander import MacroExpander, global_postprocess
import trees

SGR = re.compile(r"\x1b\[[0-9;]*m")
UU = re.compile(r"_[0-9a-f]{32}\b")


def m1(tree, **kw):
    return tree


def m2(tree, **kw):
    return tree


def expand(src):
    t = ast.parse(src, mode="eval")
    ex = MacroExpander({"q": quotes.q, "h": quotes.h, "a": quotes.a, "m1": m1, "m2": m2}, "f.py")
    return ast.fix_missing_locations(ast.Expression(body=ex.visit(t.body)))


def run(expr, ns):
    for n in ast.walk(expr):
        if "ctx" in n._fields and not hasattr(n, "ctx"):
            n.ctx = ast.Load()
    ast.fix_missing_locations(expr)
    return eval(compile(expr, "f.py", "eval"), ns)


def walk(t):
    """The nodes, in the order of the text."""
    yield t
    for x in ast.iter_child_nodes(t):
        yield from walk(x)


def seen(t):
    out = []
    for n in walk(t):
        v, m = quotes.is_captured_value(n), quotes.is_captured_macro(n)
        if v is not False:
            out.append((n, "post" if v[1] is not None else "pre", v))
        if m is not False:
            out.append((n, "macro", m))
    return out


def plain(s):
    """Text of code, without the parentheses that needn't be."""
    return s[1:-1] if re.fullmatch(r"\([yz] \+ \[9\]\)", s) else s


class Fault(Exception):
    pass


class Life:
    def __init__(self):
        self.ns = {"mcpyrate": mcpyrate, "ast": ast, "y": [1], "z": [2]}
        self.codes, self.trees, self.caps, self.names = [], [], {}, {}

    def uid(self, name):
        return self.names.setdefault(name, len(self.names) + 1)

    def part(self, p):
        return {"val": "h[%s]", "expr": "h[%s + [9]]", "macro": "h[%s]", "plain": "%s", "prev": "a[t" + str(p["x"]) + "]", "like": "%s"}[p["k"]].replace("%s", p["n"])

    def tree(self, t):
        t = ast.fix_missing_locations(ast.Expression(body=t)).body
        self.trees.append(t)
        self.ns["t%d" % len(self.trees)] = t
        s = []
        for n, st, key in seen(t):
            if st != "macro" and type(key[1]) not in (bytes, type(None)):
                raise Fault("key %r" % (key,))
            s.append({"st": st, "n": plain(key[0]), "u": self.caps.setdefault(key[1], len(self.caps) + 1)})
        text = SGR.sub("", unparse(t, debug=True))
        if unparse(t, debug=True, color=True) and SGR.sub("", unparse(t, debug=True, color=True)) != text:
            raise Fault("with colors, %s" % unparse(t, debug=True, color=True))
        for x in sorted(self.names, key=len, reverse=True):
            text = text.replace(x, UU.sub("", x) + "#%d" % self.names[x])
        text = re.sub(r"\$h\[(\([yz] \+ \[9\]\))\]", lambda m: "$h[%s]" % plain(m[1]), text)
        return {"r": "tree", "v": [], "seen": s, "text": text}

    def cap(self, o):
        if o["x"] > len(self.trees):
            return None
        s = [x for x in seen(self.trees[o["x"] - 1])]
        return s[o["j"] - 1] if o["j"] <= len(s) else None

    def step(self, o):
        ans = lambda r, v=(): {"r": r, "v": list(v), "seen": [], "text": ""}
        op = o["op"]
        if op == "set":
            self.ns[o["n"]] = [o["v"]]
        elif op == "push":
            self.ns[o["n"]].append(o["v"])
        elif op == "expand":
            e = expand("q[[%s]]" % ", ".join(map(self.part, o["parts"])))
            self.codes.append((e, seen(e)))
            return dict(ans("code"), seen=[{"st": st, "n": plain(k[0]), "u": self.uid(k[1]) if st == "macro" else 0} for n, st, k in self.codes[-1][1]])
        elif op == "run":
            return self.tree(run(self.codes[o["x"] - 1][0], self.ns))
        elif op == "capture":
            return self.tree(quotes.capture_value(self.ns[o["n"]], o["b"]))
        elif op == "asmacro":
            t = quotes.capture_as_macro({"m1": m1, "m2": m2}[o["n"]])
            self.uid(t.id)
            return self.tree(t)
        elif op in ("look", "eval", "change"):
            c = self.cap(o)
            if c is None:
                return ans("skip")
            v = quotes.lookup_value(c[2]) if op != "eval" else run(ast.Expression(body=c[0]), {})
            if op != "change":
                return ans("value", v)
            v.append(o["v"])
        elif op == "early":
            for n, st, k in self.codes[o["x"] - 1][1]:
                if st == "pre":
                    try:
                        return ans("value", [repr(quotes.lookup_value(k))])
                    except ValueError:
                        return ans("ValueError")
            return ans("skip")
        elif op == "macro":
            s = [x for x in self.codes[o["x"] - 1][1] if x[1] == "macro"]
            if o["j"] > len(s):
                return ans("skip")
            n, st, k = s[o["j"] - 1]
            t = quotes.lookup_macro(k)
            if type(t) is not ast.Name or t.id != k[1]:
                raise Fault("the macro's name is %s" % ast.dump(t))
            f = MacroExpander({}, "f.py").isbound(t.id)
            if f is not {"m1": m1, "m2": m2}[k[0]]:
                raise Fault("%s is bound to %r" % (t.id, f))
            return dict(ans("macro", [self.uid(k[1])]), text=k[0])
        return ans("")


def main():
    out = open(sys.argv[2], "a")
    for line in open(sys.argv[1]):
        job = json.loads(line)
        try:
            if job["kind"] == "tree":
                t = ast.parse(job["src"])
                if job["run"]:      # as it is in code that is expanded
                    t = expand(job["src"])
                r = {"tree": trees.enc(t, loc=False), "found": [
                    {"st": st, "n": trees.asc(k[0]), "u": trees.asc(k[1]) if st == "macro" else "", "b": "" if k[-1] is None else trees.lit(k[-1])} for n, st, k in seen(t)]}
                r["shown"] = SGR.sub("", unparse(t, debug=True))
                if unparse(t) != ast.unparse(t) and "$h" in unparse(t):
                    raise Fault("not in debug mode: " + unparse(t))
                for n, st, k in seen(t):
                    if SGR.sub("", unparse(n, debug=True)) != "$h[%s]" % k[0]:
                        raise Fault("%s is shown as %s" % (k[:-1], unparse(n, debug=True)))
            else:
                life = Life()
                r = {"out": [life.step(o) for o in job["ops"]]}
        except Fault as e:
            r = {"bad": str(e)}
        except Exception as e:
            import traceback
            r = {"bad": traceback.format_exc()[-600:]}
        out.write(json.dumps(dict(r, _i=job["_i"])) + "\n")
        out.flush()


main()
