"""Processes macro-imports of client modules in the world of MacroImports.tla."""
import ast, json, os, sys, types, importlib, warnings
warnings.simplefilter("ignore")
from mcpyrate import compiler, expander
from real_imports_src import source

WORLD = ["a", "mod", "pkg", "pkg.mod", "pkg.sub", "pkg.sub.deep", "pkg.sub.mod", "broken"]
PKGS = {"pkg", "pkg.sub"}
BODY = '''import ast
import vp_log
vp_log.loads.append(__name__)
_g = vp_log.loads.count(__name__)
def _mk(n, _g=_g):
    def macro(tree, **kw):
        return ast.Constant(value="%s:%s#%d" % (__name__, n, _g))
    macro.ident = [__name__, n, _g]
    return macro
m = _mk("m"); n = _mk("n"); k = _mk("k")
v = 42
'''
LOC = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def purge():
    for m in [m for m in sys.modules if m.split(".")[0] in ("a", "mod", "pkg", "broken", "selfm", "client", "outer", "nope")]:
        del sys.modules[m]


def kind(err):
    if isinstance(err, ImportError):
        return "import"
    if isinstance(err, SyntaxError):
        return "syntax"
    return type(err).__name__


def main(fin, fout):
    root = os.path.abspath("world")
    other = os.path.abspath("elsewhere")
    for m in WORLD:
        p = os.path.join(root, *m.split("."))
        p = os.path.join(p, "__init__.py") if m in PKGS else p + ".py"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(BODY + ("1/0\n" if m == "broken" else ""))
    os.makedirs(other)
    sys.path.insert(0, root)
    importlib.invalidate_caches()
    log = types.ModuleType("vp_log")
    log.loads = []
    sys.modules["vp_log"] = log
    places = {"top": (root + "/client.py", ""), "pkg": (root + "/pkg/client.py", "pkg"), "pkginit": (root + "/pkg/__init__.py", "pkg"),
              "sub": (root + "/pkg/sub/client.py", "pkg.sub"), "subinit": (root + "/pkg/sub/__init__.py", "pkg.sub"),
              "outside": (other + "/client.py", "")}
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        purge()
        log.loads = []
        if job["self"]:
            sm = types.ModuleType("selfm")
            exec(BODY.replace("vp_log.loads.append(__name__)", ""), sm.__dict__)
            sys.modules["selfm"] = sm
            log.loads = []
        fn, pkg = places[job["place"]]
        src = "\n".join(source(s) for s in job["prog"]) + "\n'uses'; m[0]; n[0]; k[0]; z[0]\n"
        orig = ast.parse(src)
        norig = len(job["prog"])
        tree = ast.parse(src)
        r = {"_i": job["_i"]}
        try:
            b = expander.find_macros(tree, filename=fn, reload=job["reload"], self_module=job["self"] or None)
            r["status"] = "ok"
        except Exception as err:
            r["status"] = kind(err)
        r["loads"] = [x.split(".") for x in log.loads]
        if r["status"] == "ok":
            r["bind"] = {k: getattr(v, "ident", ["?", str(v), 0]) for k, v in b.items()}
            exp = expander.expand_macros(tree, b, filename=fn)
            if not job["reload"]:
                try:
                    t2 = compiler.expand(src, fn, self_module=job["self"] or None)
                    if ast.dump(t2, include_attributes=True) != ast.dump(exp, include_attributes=True):
                        r["status"] = "expand() differs: " + ast.dump(t2)[:300]
                except Exception as err:
                    r["status"] = "expand() fails: " + repr(err)[:200]
            o = []
            for s, t in zip(orig.body[:norig], exp.body):
                if any(getattr(s, a) != getattr(t, a, None) for a in LOC):
                    o.append({"k": "moved", "m": []})
                elif ast.dump(s, include_attributes=True) == ast.dump(t, include_attributes=True):
                    o.append({"k": "same", "m": []})
                elif isinstance(t, ast.Import) and len(t.names) == 1 and t.names[0].asname is None:
                    o.append({"k": "import", "m": t.names[0].name.split(".")})
                elif isinstance(t, ast.Assign):
                    o.append({"k": "dummy", "m": []})
                else:
                    o.append({"k": "other:" + ast.dump(t)[:100], "m": []})
            r["out"] = o
            uses = exp.body[norig + 1:]
            r["uses"] = [u.value.value if isinstance(u.value, ast.Constant) else "-" for u in uses]
            if not uses or len(uses) != 4:
                r["uses"] = "%d statements" % len(exp.body)
            del exp.body[norig:]
            ns = {"__name__": (pkg + ".client") if pkg else "client", "__package__": pkg}
            try:
                exec(compile(exp, fn, "exec"), ns)
                r["names"] = sorted(k for k in ns if not (k.startswith("__") and k.endswith("__")))
            except ImportError:
                r["names"] = ["!"]
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
