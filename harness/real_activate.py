"""Replays switching macro support on and off and importing, each history in a forked process;
and compares how plain sources are compiled with and without macro support."""
import importlib, importlib.util, json, marshal, os, shutil, sys, tempfile, warnings
warnings.simplefilter("ignore")
from importlib.machinery import SourceFileLoader
ORIG = (SourceFileLoader.source_to_code, SourceFileLoader.path_stats)
BASE = 1700000000
SRC = {"p": "V = [%d]\n", "d": "import ast\nV = [%d]\ndef x(tree, **kw):\n    return ast.Constant(value=V[0])\n"
       "from mcpyrate.dialects import Dialect\nclass D(Dialect):\n    def transform_ast(self, tree):\n        tree.body.append(ast.parse('V.append(%%d)' %% V[0]).body[0])\n        return tree\n",
       "u": "from d import macros, x\nV = [%d, x[0]]\n", "s": "from d import dialects, D\nV = [%d]\n",
       "h": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    def y(tree, **kw):\n        return tree\nfrom __self__ import macros, y\nV = [y[%d]]\n"}
FILES = sorted(SRC)


def history(j, root):
    os.chdir(root)
    sys.path.insert(0, root)
    sys.dont_write_bytecode = False
    st = {f: (1, j["dmt"] if f == "d" else 2) for f in FILES}
    now = 10

    def write(f):
        v, t = st[f]
        with open(f + ".py", "w") as out:
            out.write((SRC[f] % v) if v else "V = (\n")
        os.utime(f + ".py", (BASE + t, BASE + t))
        importlib.invalidate_caches()

    def pycs():
        out = {}
        for f in FILES:
            try:
                out[f] = os.stat(importlib.util.cache_from_source(f + ".py")).st_ino
            except OSError:
                pass
        return out
    for f in FILES:
        write(f)
    log = []
    act = None
    for op in j["hist"]:
        o, f = op["o"], op["f"]
        before = pycs()
        out = ["ok"]
        if o == "load":
            if act is None:
                import mcpyrate.activate as act
                act.activate()
        elif o in ("act", "deact"):
            if act:
                act.activate() if o == "act" else act.deactivate()
            else:
                out = ["skip"]
        elif o in ("edit", "break"):
            st[f] = (now if o == "edit" else 0, now)
            now += 1
            write(f)
        elif o == "rmpyc":
            if f in before:
                os.remove(importlib.util.cache_from_source(f + ".py"))
        if o in ("edit", "break", "rmpyc", "forget"):
            for n in FILES:
                sys.modules.pop(n, None)
        if o == "imp":
            active = SourceFileLoader.source_to_code is not ORIG[0]
            sys.dont_write_bytecode = not (op["write"] and (active or f in "pd"))
            try:
                out = importlib.import_module(f).V
            except Exception as e:
                out = [type(e).__name__]
            sys.dont_write_bytecode = False
        after = pycs()
        same = (SourceFileLoader.source_to_code is ORIG[0], SourceFileLoader.path_stats is ORIG[1])
        log.append({"out": out, "active": False if same == (True, True) else True if same == (False, False) else "half",
                    "wrote": sorted(n for n in after if before.get(n) != after[n]) if o == "imp" else []})
    return {"log": log}


def same_code(a, b, path=""):
    if type(a) is not type(b):
        return path + ": types differ"
    if hasattr(a, "co_code"):
        for n in ("co_name", "co_qualname", "co_argcount", "co_posonlyargcount", "co_kwonlyargcount", "co_flags", "co_names", "co_varnames", "co_freevars",
                  "co_cellvars", "co_code", "co_firstlineno", "co_stacksize", "co_exceptiontable", "co_filename"):
            if getattr(a, n, None) != getattr(b, n, None):
                return "%s.%s: %r, %r" % (path, n, getattr(a, n), getattr(b, n))
        if list(a.co_positions()) != list(b.co_positions()):
            return path + ": positions differ"
        if len(a.co_consts) != len(b.co_consts):
            return path + ": constants differ"
        for x, y in zip(a.co_consts, b.co_consts):
            d = same_code(x, y, path + "/" + a.co_name)
            if d:
                return d
        return None
    return None if repr(a) == repr(b) or isinstance(a, frozenset) and a == b else path + ": constant %r, %r" % (a, b)


def plain(j):
    """a plain source, compiled by the loader without and with macro support"""
    import mcpyrate.activate as act
    name = "plainmod"
    if "hasmacros" not in sys.modules:
        h = sys.modules["hasmacros"] = type(sys)("hasmacros")
        h.macros, h.dialects, h.other = 5, 6, 7
    fn = os.path.join(os.getcwd(), name + ".py")
    data = open(j["file"], "rb").read() if "file" in j else bytes(j["bytes"])
    with open(fn, "wb") as f:
        f.write(data)
    res = []
    for on in (False, True):
        (act.activate if on else act.deactivate)()
        try:
            ld = SourceFileLoader(name, fn)
            r = []
            stats = ld.path_stats(fn)
            r.append(int(stats["mtime"]))
            if stats.get("size") not in (None, len(data)):
                return {"diff": "size %r" % stats["size"]}
            for opt in j["opts"]:
                r.append(ld.source_to_code(data, fn, _optimize=opt))
            if j.get("run"):
                ns = {"__name__": name}
                exec(r[-1], ns)
                r.append({k: repr(v) for k, v in ns.items() if k != "__builtins__" and "at 0x" not in repr(v)})
            res.append(("ok", r))
        except SyntaxError as e:
            res.append(("SyntaxError", None))
        except Exception as e:
            res.append((type(e).__name__, None))
    act.deactivate()
    a, b = res
    if a[0] != b[0]:
        return {"diff": "%s, %s with macro support" % (a[0], b[0])}
    if a[0] == "ok":
        for x, y in zip(*[r[1] for r in res]):
            d = same_code(x, y)
            if d:
                return {"diff": d}
    return {"diff": None, "out": a[0]}


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        root = tempfile.mkdtemp(prefix="a", dir=os.getcwd())
        try:
            out = fn(root)
        except BaseException:
            import traceback
            out = {"_dead": traceback.format_exc()[-800:]}
        shutil.rmtree(root, ignore_errors=True)
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else {"_dead": "no answer"}


def main():
    import mcpyrate.activate
    boot = SourceFileLoader.source_to_code is not ORIG[0] and SourceFileLoader.path_stats is not ORIG[1]
    mcpyrate.activate.deactivate()
    jobs = [json.loads(l) for l in open(sys.argv[1])]
    with open(sys.argv[2], "w") as out:
        pl = [j for j in jobs if "hist" not in j]
        for j in jobs:
            if "hist" in j:
                out.write(json.dumps(dict(in_child(lambda root: history(j, root)), _i=j["_i"], boot=boot)) + "\n")
                out.flush()
        for j in pl:
            try:
                r = plain(j)
            except Exception:
                import traceback
                r = {"_dead": traceback.format_exc()[-800:]}
            out.write(json.dumps(dict(r, _i=j["_i"])) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
