"""Replays histories of edits and imports with the real macro-enabled importer.
Each import is done in a forked process that has no user module loaded."""
import importlib, json, os, shutil, signal, struct, sys, tempfile, time, warnings
warnings.simplefilter("ignore")

BASE = 4000000000       # later than the times of any real file
COMMON = '''
CALLS = []
KILL = [0]
def called(who):
    CALLS.append(who)
    if KILL[0] and KILL[0] == len(CALLS):
        raise SystemExit("killed")
'''
SRC = '''{imports}
import pk.common, ast
VER = {ver}
PARTS = []
{uses}
def val():
    return "{f}%d(%s)" % (VER, "".join(PARTS))
def x_{f}(tree, *, expander, **kw):
    pk.common.called(expander.filename.split("pk")[-1].split("_init_")[0].strip("./_py") + "<{f}")
{fault}    return ast.Constant(value=val())
from mcpyrate.dialects import Dialect
class D_{f}(Dialect):
    def transform_ast(self, tree):
        pk.common.called(self.expander.filename.split("pk")[-1].split("_init_")[0].strip("./_py") + "<{f}")
{fault2}        tree.body.append(ast.parse("PARTS.append(%r)" % val()).body[0])
        return tree
class S_{f}(Dialect):
    def transform_source(self, text):
        pk.common.called(self.expander.filename.split("pk")[-1].split("_init_")[0].strip("./_py") + "<{f}")
{fault2}        return text.replace("@@{f}@@", "PARTS.append(%r)" % val(), 1)
{end}
'''


def source(f, s, pkg):
    dot = ".." if pkg else "."

    def imp(i, d, magic, name):
        rel = d["k"] == "rel" or (d["k"] != "abs" and (s["ver"] + i) % 2)
        return "from %s%s import %s, %s_%s" % (dot if rel else "pk.", d["f"], magic, name, d["f"])
    imports, uses = [], []
    ds = list(enumerate(s["deps"]))
    for i, d in ds:
        if d["k"] in ("ast", "src"):
            imports.append(imp(i, d, "dialects", "D" if d["k"] == "ast" else "S"))
        if d["k"] == "src":
            uses.append("@@%s@@" % d["f"])
    ph = [(i, d) for i, d in ds if d["k"] == "phase"]
    if ph:
        imports += ["from mcpyrate.multiphase import macros, phase", "with phase[1]:"]
        imports += ["    " + imp(i, d, "macros", "x") for i, d in ph]
        imports += ["    _v = [%s]" % ", ".join("x_%s[0]" % d["f"] for i, d in ph)]
        imports += ["    def y(tree, **kw):", "        from mcpyrate.quotes import astify", "        return astify(_v)"]
        imports += ["from __self__ import macros, y"]
        uses.append("PARTS.extend(y[0])")
    for i, d in ds:
        if d["k"] in ("abs", "rel"):
            imports.append(imp(i, d, "macros", "x"))
            uses.append("PARTS.append(x_%s[0])" % d["f"])
    bad = s["fault"] == "raise"
    return SRC.format(f=f, ver=s["ver"], imports="\n".join(imports), uses="\n".join(uses),
                      fault='    raise RuntimeError("broken macro")\n' if bad else "",
                      fault2='        raise RuntimeError("broken dialect")\n' if bad else "",
                      end="def (" if s["fault"] == "syntax" else "")


class World:
    def __init__(self, job):
        self.root = tempfile.mkdtemp(prefix="w", dir=os.getcwd())
        self.prefix = os.path.join(self.root, "pre") if job.get("prefix") else None
        self.pkgs = set(job.get("pkgs", ()))
        self.now, self.low = 100, -1
        os.mkdir(os.path.join(self.root, "pk"))
        self.put("__init__", "", 0)
        self.put("common", COMMON, 0)
        self.src = {}
        for f, i in job["files"].items():
            if f in self.pkgs:
                os.mkdir(os.path.join(self.root, "pk", f))
            self.src[f] = {"ver": 1, "mt": i["mt"], "fault": "", "deps": list(i["deps"])}
            self.write(f)

    def path(self, f):
        return os.path.join(self.root, "pk", f, "__init__.py") if f in self.pkgs else os.path.join(self.root, "pk", f + ".py")

    def put(self, f, text, mt):
        p = self.path(f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as out:
            out.write(text)
        os.utime(p, (BASE + mt, BASE + mt))

    def write(self, f):
        s = self.src[f]
        self.put(f, source(f, s, f in self.pkgs), s["mt"])

    def cache(self, f, what):
        old, sys.pycache_prefix = sys.pycache_prefix, self.prefix
        try:
            p = importlib.util.cache_from_source(self.path(f))
        finally:
            sys.pycache_prefix = old
        return p if what == "pyc" else p[:-4] + ".mcpyrate.pickle"

    def env(self, op, i):
        f, o = op["f"], op["o"]
        s = self.src[f]
        if o == "skip":
            return
        if o == "old":
            s.update(ver=s["ver"] + 1, mt=self.low, deps=list(op["deps"]), fault="" if s["fault"] == "gone" else s["fault"])
            self.low -= 1
            self.write(f)
            return
        if o == "rm":
            p = self.path(f)
            s["fault"] = "gone"
            if f in self.pkgs:
                shutil.rmtree(os.path.dirname(p), ignore_errors=True)
            elif os.path.exists(p):
                os.remove(p)
            return
        if o in ("edit", "touch", "deps", "break", "mend"):
            s["mt"] = self.now
            if s["fault"] == "gone":
                s["fault"] = ""
            self.now += 1
            if o in ("edit", "deps"):
                s["ver"] += 1
            if o == "deps":
                s["deps"] = list(op["deps"])
            if o == "break":
                s["fault"] = op["how"]
            if o == "mend":
                s["fault"] = ""
            self.write(f)
            return
        p = self.cache(f, "pyc" if o.endswith("pyc") else "dep")
        if not os.path.exists(p):
            return
        if o.startswith("rm"):
            os.remove(p)
            return
        data = open(p, "rb").read()
        n = i % 4
        if n == 0:
            data = b""
        elif n == 1:
            data = data[:7]
        elif n == 2:
            data = b"\x00" * 4 + data[4:]
        else:
            data = b"garbage, not a cache\n"
        with open(p, "wb") as out:
            out.write(data)

    def load(self, op):
        """In a child process: import, report."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(60)
                res = self.child(op)
                os.write(w, json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        return json.loads(data) if data else {"how": "died", "val": "", "calls": []}

    def child(self, op):
        sys.stderr = open(os.devnull, "w")
        sys.dont_write_bytecode = not op["write"]
        sys.pycache_prefix = self.prefix
        sys.path.insert(0, self.root)
        importlib.invalidate_caches()
        from pk import common
        common.KILL[0] = op["kill"]
        how, val = "ok", ""
        try:
            m = importlib.import_module("pk." + op["f"])
            val = m.val()
        except SystemExit:
            how = "killed"
        except BaseException as err:
            how = "error"
            while err is not None:
                if type(err).__name__ == "MacroExpansionError" and isinstance(err.__cause__, SystemExit):
                    how = "killed"
                err = err.__cause__
        if how == "ok" and common.KILL[0] and len(common.CALLS) >= common.KILL[0]:
            how = "killed"
        return {"how": how, "val": val, "calls": common.CALLS}


def main(fin, fout):
    import mcpyrate.activate
    import mcpyrate.multiphase, mcpyrate.dialects, mcpyrate.quotes, mcpyrate.debug
    importlib.invalidate_caches()       # loads what it needs in this process
    import gc
    gc.collect()
    gc.freeze()
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        w = World(job)
        log = []
        try:
            for i, op in enumerate(job["hist"]):
                if op["o"] == "import":
                    log.append(w.load(op))
                else:
                    w.env(op, i)
        finally:
            shutil.rmtree(w.root)
        out.write(json.dumps({"_i": job["_i"], "log": log}) + "\n")
        out.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
