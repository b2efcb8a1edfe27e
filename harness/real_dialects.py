"""Expands modules that use instrumented dialects; records everything the dialects are given."""
import ast, contextlib, importlib, io, json, os, re, sys, warnings
warnings.simplefilter("ignore")
import dialect_text as dt
from mcpyrate import compiler
from mcpyrate.dialects import Dialect
from mcpyrate.markers import ASTMarker
from mcpyrate.core import MacroExpansionError

DM = '''
import vp_world as W
from mcpyrate.dialects import Dialect
class Base(Dialect):
    def __init__(self, expander):
        super().__init__(expander)
        self.n = W.made()
    def transform_source(self, text):
        return W.source(self, text)
    def transform_ast(self, tree):
        return W.tree(self, tree)
    def postprocess_ast(self, tree):
        return W.post(self, tree)
class A(Base): pass
class B(Base): pass
class C(Base): pass
class BOOM(Dialect):
    def __init__(self, expander):
        raise RuntimeError("boom")
NOTD = lambda expander: None
'''
MM = '''
import ast, vp_world as W
def x(tree, **kw):
    W.log.append(["macro", tree.value])
    return ast.Constant(value="x" + tree.value)
'''
ANSI = re.compile("\x1b\\[[0-9;]*m")


class Mark(ASTMarker):
    pass


class World:
    def begin(self, job):
        self.log, self.count, self.beh, self.name = [], 0, job["beh"], job["file"]

    def made(self):
        self.count += 1
        return self.count

    def enter(self, d, kind, content):
        e = [kind, type(d).__name__, d.n, 0 if kind == "post" else (d.lineno or 0), content]
        if d.expander.filename != self.name or (kind == "src" and d.col_offset != 0) or (kind == "ast" and (d.col_offset or 0) != 0):
            e.append("place")
        self.log.append(e)
        return self.beh[type(d).__name__][kind], type(d).__name__

    def source(self, d, text):
        b, n = self.enter(d, "src", text if isinstance(text, str) else "not text")
        c = dt.parse(text)
        if b == "NI":
            return Dialect.transform_source(d, text)      # as dialects do that don't override it
        if b == "EMPTY":
            return ""
        if b == "RAISE":
            raise ValueError("as told")
        nxt = {"A": "B"}.get(n, "C")
        stmt = lambda v: dt.tok("log", v=v)
        new = dt.tok("imp", "pk.dm", [nxt])
        if b == "APPEND":
            c = c + [stmt("s" + n)]
        elif b == "FRONT":
            c = [stmt("f" + n)] + c
        elif b == "DROP":
            c = [t for t in c if not (t["k"] == "imp" and n in t["ns"])]
        elif b == "DROPALL":
            c = [t for t in c if t["k"] != "imp"]
        elif b == "ADDF":
            c = [new] + c
        elif b == "ADDE":
            c = c + [new]
        elif b == "TRANS":
            c = [stmt("t" + n) if t["k"] == "alien" else t for t in c]
        return dt.join(c)

    def tree(self, d, tree):
        b, n = self.enter(d, "ast", body(tree))
        if b == "NI":
            return Dialect.transform_ast(d, tree)      # as dialects do that don't override it
        if b == "NONE":
            return None
        if b == "RAISE":
            raise ValueError("as told")
        nxt = {"A": "B"}.get(n, "C")
        new = ast.ImportFrom(module="pk.dm", names=[ast.alias(name="dialects", asname=None), ast.alias(name=nxt, asname=None)], level=0)
        log = lambda e: ast.Expr(value=ast.Call(func=ast.Name(id="log", ctx=ast.Load()), args=[e], keywords=[]))
        if b == "NEW":
            return ast.Module(body=list(tree.body), type_ignores=[])
        if b == "APPEND":
            tree.body.append(log(ast.Constant(value="a" + n)))
        elif b == "ADDF":
            tree.body.insert(0, new)
        elif b == "ADDE":
            return ast.Module(body=tree.body + [new], type_ignores=[])
        elif b == "DROPALL":
            tree.body[:] = [s for s in tree.body if not (isinstance(s, ast.ImportFrom) and s.names[0].name == "dialects")]
        elif b == "MAC":
            tree.body.insert(0, ast.parse("from pk.mm import macros, x").body[0])
            tree.body.append(log(ast.Subscript(value=ast.Name(id="x", ctx=ast.Load()), slice=ast.Constant(value=n), ctx=ast.Load())))
        return tree

    def post(self, d, tree):
        b, n = self.enter(d, "post", body(tree))
        if b == "NI":
            return Dialect.postprocess_ast(d, tree)      # as dialects do that don't override it
        if b == "NONE":
            return None
        if b == "RAISE":
            raise ValueError("as told")
        if b == "APPEND":
            new = [ast.Expr(value=ast.Call(func=ast.Name(id="log", ctx=ast.Load()), args=[ast.Constant(value="p" + n)], keywords=[]))]
            if n == "B":
                tree.body += new
            else:
                return ast.Module(body=tree.body + new, type_ignores=[])
        elif b == "MARK":
            tree.body.append(Mark(body=ast.Expr(value=ast.Constant(value=n))))
        return tree


def body(tree):
    if not isinstance(tree, ast.Module):
        return "not a module"
    return ["MARK " + s.body.value.value if isinstance(s, ASTMarker) else ast.unparse(s) for s in tree.body]


def shown(err):
    """What stepping showed: [what, count, text]."""
    out = []
    for part in ANSI.sub("", err).split("**StepExpansion: ")[1:]:
        head, _, rest = part.partition("\n")
        m = re.search(r"enabled DialectExpander debug mode while taking step (\d+)", head)
        if m:
            out.append(["enabled", int(m.group(1)), rest])
            continue
        m = re.search(r"before dialect (\w+) (\w+) \((\d+) step", head)
        if m:
            out.append(["before " + ("post" if m.group(2) == "postprocessors" else m.group(1)), int(m.group(3)), rest])
            continue
        m = re.search(r"before dialect AST postprocessors \((\d+) step", head)
        if m:
            out.append(["before post", int(m.group(1)), rest])
            continue
        m = re.search(r"after (.*)\.(transform_source|transform_ast|postprocess_ast) \(step (\d+)\)", head)
        if m:
            out.append(["after " + re.search(r"\b(A|B|C|StepExpansion)\b", m.group(1)).group(1), int(m.group(3)), rest])
            continue
        m = re.search(r"completed all dialect (.*?) ?(transforms )?\((\d+) step", head)
        if m:
            out.append(["completed " + {"source": "source", "AST": "AST"}.get(m.group(1), "post"), int(m.group(3)), rest])
            continue
        out.append(["?", 0, head])
    return out


def kind(err):
    for k in (MacroExpansionError, ImportError, SyntaxError):
        if isinstance(err, k):
            return "ModuleNotFoundError" if isinstance(err, ModuleNotFoundError) else k.__name__
    return type(err).__name__


def main(fin, fout):
    root = os.path.abspath("world")
    os.makedirs(root + "/pk")
    for n, s in (("__init__", ""), ("dm", DM), ("mm", MM)):
        with open("%s/pk/%s.py" % (root, n), "w") as f:
            f.write(s)
    sys.path.insert(0, root)
    W = World()
    sys.modules["vp_world"] = W
    out = open(fout, "a")
    for i, line in enumerate(open(fin)):
        job = json.loads(line)
        job["file"] = root + "/pk/m%d.py" % job["_i"]
        W.begin(job)
        src = dt.join(job["toks"])
        form = job["form"]
        if form == "bytes":
            what = (src.replace("\n", "\r\n") if job["_i"] % 2 else src).encode("utf8")
        elif form == "str":
            what = src
        else:
            what = ast.parse(src)
            if form == "list":
                what = what.body
        err = io.StringIO()
        res = {"_i": job["_i"], "err": "", "c": []}
        with contextlib.redirect_stderr(err):
            try:
                res["c"] = body(compiler.expand(what, job["file"], self_module="pk.m%d" % job["_i"]))
            except Exception as e:
                res["err"], res["msg"] = kind(e), str(e)[:200]
        res["log"], res["shown"] = W.log, shown(err.getvalue())
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main(*sys.argv[1:])
