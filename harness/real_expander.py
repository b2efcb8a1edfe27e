"""Runs programs through the real expander with the library of macro behaviours
of Expander.tla, and records the observable events."""
import ast, copy, json, re, sys, warnings
warnings.simplefilter("ignore")
import trees, real_clean
from trees import enc, dec, rec, NIL

FILENAME = "/nowhere/prog.py"
SITE = re.compile(r"in (expr|block|decorator|name) macro invocation for '(\w+)'")
ANSI = re.compile(r"\x1b\[[0-9;]*m")


class Boom(Exception):
    """Raised by macros; every other one was itself raised from another exception."""
    raised = None

    def __init__(self, why):
        super().__init__(why)
        self.origin = KeyError(why) if why[-1] in "02468" else None
        self.__cause__ = self.origin
        Boom.raised = self

    def intact(self):
        return self is Boom.raised and self.__cause__ is self.origin


class TooMuch(BaseException):
    pass


class Recorder:
    limit = None        # maximum number of tree nodes recorded per run

    def __init__(self):
        self.events = []
        self.budget = self.limit

    def enc(self, t):
        return enc(t, filename=FILENAME)

    aid = None

    def add(self, e, m="", s="", r=True, t=NIL, a=NIL, o=NIL, i=NIL):
        if self.limit:
            self.budget -= trees.size(t) + trees.size(a) + trees.size(o) + trees.size(i)
            if self.budget < 0 and e in ("call", "vis", "end"):
                raise TooMuch()
        if self.aid:
            self.aid.take()
        self.events.append({"e": e, "m": m, "s": s, "r": bool(r), "t": t, "a": a, "o": o, "i": i})


def const(n):
    return ast.Constant(value=n)


def expr(e):
    return ast.Expr(value=e)


def tup(es):
    return ast.Tuple(elts=es, ctx=ast.Load())


def aslist(t):
    return [] if t is None else t if isinstance(t, list) else [t]


def wrap(s, n, t):
    if s == "expr":
        return tup([const(n)] + aslist(t))
    if s == "name":
        return tup([const(n)])
    return [expr(const(n))] + aslist(t)


VISITING = {"vis", "visrec", "visonce", "onceb", "twice", "visraise", "try", "visargs"}


def invhead(R, i):
    if isinstance(i, ast.Subscript):
        return R.enc(i.value)
    if isinstance(i, ast.With):
        r = R.enc(i)
        r["c"][1]["c"] = []
        return r
    if hasattr(i, "decorator_list"):
        return R.enc(i.decorator_list)
    return R.enc(i)


def make_macro(name, info, allinfo, R, expander_mod):
    beh = info["beh"]

    def emitted(s, n, t):
        to = info["to"]
        head = ast.Name(id=to, ctx=ast.Load())
        if allinfo[to]["par"]:
            head = ast.Subscript(value=head, slice=const("arg"), ctx=ast.Load())
        if s == "expr":
            return ast.Subscript(value=head, slice=t, ctx=ast.Load())
        if s == "name":
            return ast.Subscript(value=head, slice=const(n), ctx=ast.Load())
        if s == "block":
            return [ast.With(items=[ast.withitem(context_expr=head, optional_vars=None)], body=aslist(t), type_comment=None)]
        t.decorator_list.append(head)
        return t

    def macro(tree, *, syntax, expander, **kw):
        if beh == "show":
            R.add("call", name, syntax, expander.recursive, R.enc(tree), R.enc(kw.get("args")), R.enc(kw.get("optional_vars")), invhead(R, kw.get("invocation")))
            import mcpyrate.debug
            return mcpyrate.debug.show_bindings(tree, syntax=syntax, expander=expander, **kw)
        args = kw.get("args")
        opt = kw.get("optional_vars")
        R.add("call", name, syntax, expander.recursive, R.enc(tree),
              R.enc(args), R.enc(opt), invhead(R, kw.get("invocation")))
        s, n, b = syntax, name, beh
        if s == "name" and b in VISITING:
            b = "wrap"

        def visited(v):
            R.add("vis", name, "", expander.recursive, R.enc(v))
            return v
        if b == "step":
            import mcpyrate.debug
            return mcpyrate.debug.step_expansion(tree, syntax=syntax, expander=expander, **kw)
        if b == "raise":
            raise Boom("boom:" + n)
        if b == "vis":
            return wrap(s, n, visited(expander.visit(tree)))
        if b == "visrec":
            return wrap(s, n, visited(expander.visit_recursively(tree)))
        if b == "visonce":
            return wrap(s, n, visited(expander.visit_once(tree)))
        if b == "onceb":
            return wrap(s, n, visited(expander.visit_once(tree).body))
        if b == "twice":
            t = visited(expander.visit_once(tree).body)
            return wrap(s, n, visited(expander.visit_once(t).body))
        if b == "visraise":
            visited(expander.visit(tree))
            raise Boom("boom:" + n)
        if b == "try":
            try:
                v = expander.visit(tree)
            except Exception:
                return wrap(s, n, const("caught") if s == "expr" else expr(const("caught")))
            return wrap(s, n, visited(v))
        if b == "visargs":
            if s == "name":
                v = visited(expander.visit(None))
            else:
                v = visited(expander.visit(args))
            if s == "expr":
                return tup([const(n)] + aslist(v) + [tree])
            return [expr(tup([const(n)] + aslist(v)))] + (aslist(tree))
        if b == "id":
            return tree
        if b == "none":
            return None
        if b == "const":
            return const(n) if s in ("expr", "name") else expr(const(n))
        if b == "dup":
            if s == "expr":
                return tup([tree, copy.deepcopy(tree)])
            if s == "name":
                return tup([const(n)])
            return aslist(tree) + aslist(copy.deepcopy(tree))
        if b in ("multi", "gen"):
            r = [const(n), tree] if s == "expr" else [const(n), const("name")] if s == "name" else [expr(const(n))] + aslist(tree)
            return r if b == "multi" else (x for x in r) if len(n) % 2 else tuple(r)
        if b == "empty":
            return []
        if b == "bad":
            return 42
        if b == "badlist":
            return [const(n), "junk"]
        if b == "emit":
            return emitted(s, n, tree)
        if b == "alias":
            t = ast.Name(id=info["to"], ctx=ast.Load())
            return t if s in ("expr", "name") else expr(t)
        if b == "args":
            if s == "expr":
                return tup([const(n)] + list(args) + [tree])
            if s == "name":
                return tup([const(n)])
            return [expr(tup([const(n)] + list(args)))] + aslist(tree)
        return wrap(s, n, tree)
    if info["par"]:
        macro = expander_mod.parametricmacro(macro)
    if info["nam"]:
        macro = expander_mod.namemacro(macro)
    macro.__name__ = macro.__qualname__ = name
    return macro


def sites(msg):
    """[(line, syntax, macro)] from a use site report, in the order given."""
    out = []
    line = None
    for ln in ANSI.sub("", msg).split("\n"):
        m = re.match(re.escape(FILENAME) + r":(\d+)", ln)
        if m:
            line = "%04d" % int(m.group(1))
        m = SITE.match(ln)
        if m:
            out.append(rec(m.group(1), m.group(2), line or "?"))
            line = None
    return out


class Aid:
    """Stands in for stderr: turns what the debug aids print into events."""
    HEAD = re.compile(r"^(\*+)Tree 0x[0-9a-f]+ \((.*)\) (before macro expansion|after step (\d+)|processing step (\d+)|macro expansion complete after (\d+) (steps?)\.?):?$")

    def __init__(self, R):
        self.R = R
        self.buf = ""

    def write(self, s):
        self.buf += s

    def flush(self):
        pass

    def take(self):
        """Called before every other event is recorded, and at the end."""
        text, self.buf = ANSI.sub("", self.buf), ""
        cur = None
        out = []
        for ln in text.split("\n"):
            m = self.HEAD.match(ln)
            if m:
                lv = len(m.group(1)) // 2
                if m.group(2) != FILENAME:
                    lv = 99
                if m.group(3).startswith("before"):
                    cur = ["step0", "0", lv, []]
                elif m.group(4):
                    cur = ["step", m.group(4), lv, []]
                elif m.group(5):
                    cur = ["apply", m.group(5), lv, []]
                else:
                    k = m.group(6)
                    cur = ["stepend" if (m.group(7) == "step") == (k == "1") else "plural", k, lv, []]
                out.append(cur)
            elif ln.startswith("Macro bindings for " + FILENAME):
                cur = ["bindings", "", "", []]
                out.append(cur)
            elif cur:
                cur[3].append(ln)
            elif ln:
                out.append(["text:" + trees.asc(ln), "", 0, []])
        for w, k, lv, lines in out:
            while lines and not lines[-1].strip():
                lines.pop()
            ind = 2 * lv if isinstance(lv, int) else 0
            lines = [ln[ind:] if not ln[:ind].strip() else "!" + ln for ln in lines]
            self.R.events.append({"e": w, "m": k, "s": str(lv), "r": True, "text": [trees.asc(x) for x in lines]})


def collected(expander, tree, MacroCollector):
    mc = MacroCollector(expander)
    mc.visit(tree)
    return [rec(s, n) for n, s in mc.collected]


def main(fin, fout):
    from mcpyrate import expander as E
    from mcpyrate.core import global_postprocess, MacroExpansionError
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        R = Recorder()
        macros = {}
        for n, info in job["binds"].items():
            macros[n] = make_macro(n, info, job["binds"], R, E)
        exp = E.MacroExpander(macros, FILENAME)
        if job.get("aid"):
            R.aid = Aid(R)
            sys.stderr = R.aid
        runs = []
        for prog in job["progs"]:
            R.events = []
            R.limit = R.budget = prog.get("limit")
            try:
                if "src" in prog:
                    tree = ast.parse(prog["src"])
                else:
                    tree = dec(prog["tree"])
                runs.append({"prog": R.enc(tree)})
                before = copy.deepcopy(tree)
                try:
                    coll = collected(exp, tree, E.MacroCollector)
                except Exception as err:
                    coll = [rec("exception", type(err).__name__)]
                if ast.dump(before) != ast.dump(tree):
                    coll = [rec("modified")]
                R.add("coll", t=rec("[]", c=coll))
                try:
                    tree = exp.visit(tree)
                    left = collected(exp, tree, E.MacroCollector)
                    tree = global_postprocess(tree)
                except Exception as err:
                    c, ss = err, []
                    if isinstance(err, MacroExpansionError):
                        ss = sites(str(err))
                        c = err.__cause__
                    if isinstance(c, Boom):
                        why = str(c) if c.intact() else "another " + str(c)
                    elif type(c) is SyntaxError:
                        why = "SyntaxError"
                    elif type(c) in (TypeError, ValueError) and ("expected str argument" in str(c) or "unknown argument" in str(c)):
                        why = type(c).__name__
                    elif isinstance(c, MacroExpansionError) and "expected macro to return" in str(c):
                        why = "badoutput"
                    else:
                        why = "other:" + trees.asc(repr(c)[:300])
                    R.add("err", m=why, r=exp.recursive, t=rec("[]", c=ss))
                else:
                    R.add("end", r=exp.recursive, t=R.enc(tree), a=rec("[]", c=left),
                          o=real_clean.enc(tree) if job.get("cx") else NIL)
            except RecursionError:
                R.add("err", m="recursion")
            except TooMuch:
                runs[-1]["cut"] = True
                exp = E.MacroExpander(macros, FILENAME)
            runs[-1]["trace"] = R.events
        sys.stderr = sys.__stderr__
        out.write(json.dumps({"_i": job["_i"], "runs": runs}) + "\n")
        out.flush()


if __name__ == "__main__":
    sys.setrecursionlimit(5000)
    main(sys.argv[1], sys.argv[2])
