"""Walks trees with walkers whose functions do what Walker.tla says."""
import ast, gc, json, sys, warnings
warnings.simplefilter("ignore")
import trees
from mcpyrate.walkers import ASTVisitor, ASTTransformer
from mcpyrate.bunch import Bunch


class Failed(Exception):
    pass


def dec(r):
    if r["k"] in ("~", "id", "lit"):
        return trees.dec(r)
    if r["k"] == "[]":
        return [dec(x) for x in r["c"]]
    cls = getattr(ast, r["k"])
    n = cls(**{f: dec(x) for f, x in zip([f for f in cls._fields if f != "ctx"], r["c"])})
    if "ctx" in cls._fields:
        n.ctx = ast.Load()
    n.vid = r["p"]
    return n


def enc(t):
    if isinstance(t, list):
        return trees.rec("[]", "", "", [enc(x) for x in t])
    if isinstance(t, ast.AST):
        e = trees.enc(t)
        fields = [f for f in t._fields if f != "ctx"]
        e["p"] = getattr(t, "vid", "")
        if not isinstance(t, ast.Constant):
            e["c"] = [enc(getattr(t, f, None)) for f in fields]
        return e
    return trees.enc(t)


def make(job):
    beh, log, fresh = job["beh"], [], [0]
    T = job["kind"] == "T"

    def function(self, tree):
        if not hasattr(tree, "vid"):        # a context
            return tree
        x = lambda: getattr(self.state, "x", 0) if "x" in self.state else 0
        b = lambda v: {"x": v} if v else {}
        log.append(["enter", tree.vid, x()])
        fields = [f for f in tree._fields if f != "ctx"]
        part = lambda i: getattr(tree, fields[i - 1], None) if i <= len(fields) else None
        isconst = isinstance(tree, ast.Constant)
        for op in beh.get(type(tree).__name__, [{"o": "rec"}, {"o": "same"}]):
            o = op["o"]
            if o == "collect":
                self.collect(tree.vid)
            elif o == "set":
                self.state.x = op["x"]
            elif o == "rebind":
                self.state = Bunch(x=op["x"])
            elif o == "with":
                if isinstance(part(op["i"]), (ast.AST, list)):
                    self.withstate(part(op["i"]), **b(op["x"]))
            elif o == "gwith":
                self.generic_withstate(tree, **b(op["x"]))
            elif o == "rec":
                r = self.generic_visit(tree)
                if T:
                    tree = r
                log.append(["back", tree.vid, x()])
            elif o == "visit":
                p = part(op["i"])
                if isinstance(p, ast.AST) or isinstance(p, list) and all(isinstance(e, ast.AST) for e in p):
                    r = self.visit(p)
                    if T:
                        setattr(tree, fields[op["i"] - 1], r)
                    log.append(["back", tree.vid, x()])
            elif o == "raise":
                log.append(["raise", tree.vid, x()])
                raise Failed
            else:
                def new():
                    n = ast.Name(id="new")
                    fresh[0] += 1
                    n.vid = "new%d" % fresh[0]
                    return n
                return {"same": lambda: tree, "none": lambda: None, "new": new, "pair": lambda: [tree, new()], "empty": lambda: []}[o]()
    if T:
        class W(ASTTransformer):
            transform = function
    else:
        class W(ASTVisitor):
            examine = function
    return W(), log


def main():
    out = open(sys.argv[2], "a")
    for line in open(sys.argv[1]):
        job = json.loads(line)
        w, log = make(job)
        done, last = [], None
        keep = []
        for k in job["walks"]:
            if k["reset"]:
                w.reset(**({"x": k["x"]} if k["x"] else {}))
            t = last if k["tree"] == 0 else dec(job["trees"][k["tree"] - 1])
            keep.append(t)
            del log[:]
            if t is None:
                r = None
            else:
                try:
                    r = w.visit(t)
                except Failed:
                    r = None
            if job["kind"] == "V":
                last, r = t, None
            else:
                last = r
            done.append({"val": enc(r), "coll": list(w.collected), "x": w.state.x if "x" in w.state else 0, "log": [list(e) for e in log]})
        out.write(json.dumps({"_i": job["_i"], "done": done}) + "\n")
        out.flush()


main()
