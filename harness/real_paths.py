"""Replays source path to module name resolution in a scratch directory, each job in a forked process."""
import ast, importlib, importlib.machinery, importlib.util, json, os, shutil, sys, tempfile, traceback, tokenize, pickle, colorama
import mcpyrate.activate
from mcpyrate import coreutils, importer, unparser, utils, multiphase
ROOT = None


def build(j):
    for d in sorted(j["dirs"], key=len):
        os.mkdir(os.path.join(ROOT, *d))
    for i, f in enumerate(sorted(j["files"])):
        p = os.path.join(ROOT, *f)
        with open(p, "w") as out:
            if f[-1] == "mac.py":
                out.write("def x(tree, **kw):\n    return tree\n")
            elif f[-1] not in ("__init__.py", "q.py"):
                out.write("from .mac import macros, x\n")
        t = 1700000000 + (1000 + i if f[-1] == "mac.py" else 0)
        os.utime(p, (t, t))
    for l in j["links"]:
        os.symlink(os.path.join(*l["t"]), os.path.join(ROOT, *l["p"]))


def spell(w):
    s = "/".join(w["c"])
    return (ROOT + "/" + s) if w["abs"] else s


def rel(p):
    p = os.path.relpath(str(p), ROOT)
    return [] if p == "." else p.split("/")


def one(j, prev):
    os.environ["HOME"] = os.path.join(ROOT, "h")
    if prev:  # what was resolved with another search path or directory must not matter
        os.chdir(os.path.join(ROOT, *prev["cwd"]))
        sys.path[:] = [spell(e) for e in prev["entries"]]
        for f in (coreutils.match_syspath, coreutils.relativize, coreutils.resolve_package):
            try:
                f(spell(j["query"]))
            except (ValueError, ImportError):
                pass
    os.chdir(os.path.join(ROOT, *j["cwd"]))
    sys.dont_write_bytecode = True
    sys.path[:] = [spell(e) for e in j["entries"]]
    q = spell(j["query"])
    res = {}

    def call(f):
        try:
            return f()
        except (ValueError, ImportError, RecursionError) as e:
            return {"kind": type(e).__name__}
    for isdir in (0, 1):
        def f():
            r, s = coreutils.relativize(q)
            return {"kind": "ok", "root": rel(r), "rel": s.split("/") if s else []}
        res["rel"] = call(f)
        res["match"] = call(lambda: {"kind": "ok", "root": rel(coreutils.match_syspath(q))})
    import pathlib
    res["rel2"] = call(lambda: {"kind": "ok", "root": rel(coreutils.relativize(pathlib.Path(q))[0])})
    res["pkg"] = call(lambda: {"kind": "ok", "name": coreutils.resolve_package(q).split(".")})
    if q.endswith(".py"):
        # the modification time of the macros a file depends on
        if j["level"] == 1 and os.path.exists(os.path.expanduser(q)) and not q.endswith("__init__.py") and not q.endswith("mac.py"):
            def f():
                return {"kind": "ok", "mtime": int(importer.path_stats(q if not q.startswith("~") else os.path.expanduser(q))["mtime"]) - 1700000000}
            res["stats"] = call(f)
        # a relative macro-import in that file
        stmt = ast.parse("from %smac import macros, x" % ("." * j["level"])).body[0]

        def f():
            n, b = coreutils.get_macros(stmt, filename=q)
            return {"kind": "ok", "name": n.split("."), "file": rel(os.path.realpath(sys.modules[n].__file__)), "same": b == {"x": sys.modules[n].x}}
        res["mac"] = call(f)
    # the name, imported by Python
    name = j["out"]["name"]
    if name:
        try:
            spec = importlib.util.find_spec(".".join(name))
        except Exception:
            spec = None
        res["found"] = {"kind": "none"} if spec is None else \
            {"kind": "ns"} if spec.origin is None else {"kind": "pkg" if spec.submodule_search_locations else "mod", "file": rel(os.path.realpath(spec.origin))}
    return res


def main():
    global ROOT
    with open(sys.argv[1]) as f, open(sys.argv[2], "a") as out:
        jobs = [json.loads(l) for l in f]
        ROOT = os.path.realpath(tempfile.mkdtemp(prefix="vpath_"))
        try:
            build(jobs[0]["fs"])
            prev = None
            for j in jobs:
                r, w = os.pipe()
                pid = os.fork()
                if not pid:
                    os.close(r)
                    try:
                        res = one(j, prev)
                    except BaseException:
                        res = {"_dead": traceback.format_exc()[-1500:]}
                    with os.fdopen(w, "w") as g:
                        g.write(json.dumps(res))
                    os._exit(0)
                os.close(w)
                with os.fdopen(r) as g:
                    data = g.read()
                os.waitpid(pid, 0)
                prev = j
                res = json.loads(data) if data else {"_dead": "no answer"}
                res["_i"] = j["_i"]
                out.write(json.dumps(res) + "\n")
                out.flush()
        finally:
            shutil.rmtree(ROOT)


main()
