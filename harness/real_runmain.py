"""Runs programs in scratch directories with Python itself, or with the macro-enabled command line."""
import json, os, shutil, subprocess, sys, tempfile
PY = sys.executable
L = "import json, sys\nprint(json.dumps(['L', %r, __name__, __package__ or '', sys.modules['__main__'].__dict__ is globals(), sys.path[0]]), flush=True)\n"
DIALS = '''import ast
from mcpyrate.dialects import Dialect
class D(Dialect):
    def transform_ast(self, tree):
        tree.body = [ast.parse("print(json.dumps(['dialect', __name__, __package__ or '']), flush=True)").body[0] if ast.unparse(s) == "DIALECT" else s for s in tree.body]
        return tree
def boom(tree, **kw):
    raise ValueError("boom")
'''
MACS = "import ast\ndef x(tree, **kw):\n    return ast.Constant(value=%r)\n"


def program(j):
    f = "/".join(j["target"])
    out = [L % f, 'PROGRAM = 1\n']
    cf = j["cf"]
    if cf in ("M", "RM"):
        out.append("from %smacs import macros, x\nprint(json.dumps(['macro', x[0], __name__, __package__ or '']), flush=True)\n" % ("." if cf == "RM" else ""))
    elif cf == "PH":
        out.append("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    import ast, json\n    print(json.dumps(['phase1', __name__]), flush=True)\n"
                   "    def y(tree, **kw):\n        return ast.Constant(value='selfmacro')\nfrom __self__ import macros, y\nprint(json.dumps([y[0], __name__, __package__ or '']), flush=True)\n")
    elif cf == "D":
        out.append("from dials import dialects, D\nDIALECT\n")
    elif cf == "SY":
        out.append("x = (\n")
    elif cf == "MR":
        out.append("from dials import macros, boom\nboom[1]\n")
    for s in j["prog"]:
        if s == "G":
            out.append("if __name__ == '__main__':\n    print(json.dumps(['guarded', %r, __name__, __package__ or '']), flush=True)\n" % f)
        elif s == "H":
            out.append("import helper as _h\n")
        elif s == "R":
            out.append("from . import helper as _r\n")
        elif s == "S":
            out.append("import importlib\nimportlib.import_module(%r)\n" % ".".join(j["self"]))
        elif s == "A":
            out.append("import atexit\natexit.register(lambda: print(json.dumps(['bye', hasattr(sys.modules['__main__'], 'PROGRAM')])))\n")
    out.append(L % f)
    e = {"-": "pass", "EX": "1 / 0", "X0": "sys.exit(0)", "X3": "sys.exit(3)", "XM": "sys.exit('stop')", "XN": "sys.exit()", "KI": "raise KeyboardInterrupt"}[j["end"]]
    out.append("if __name__ == '__main__':\n    %s\n" % e)
    return "".join(out)


def run(j, root):
    for f in j["files"]:
        p = os.path.join(root, *f) + ".py"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as out:
            out.write(program(j) if f == j["target"] else L % "/".join(f) + (MACS % "/".join(f) if f[-1] == "macs" else "") + ("1 / 0\n" if f == ["bad", "__init__"] else ""))
    lib = root + "_lib"
    os.mkdir(lib)
    with open(os.path.join(lib, "dials.py"), "w") as out:
        out.write(DIALS)
    with open(os.path.join(lib, "macropython"), "w") as out:
        out.write("import sys\nfrom mcpyrate.repl.macropython import main\nif __name__ == '__main__':\n    sys.exit(main())\n")
    cwd = os.path.join(root, *j["cwd"])
    if j["script"]:
        p = os.path.join(root, *j["script"]) + ".py"
        if j["spell"] == 0:
            arg = [os.path.relpath(p, cwd)]
        elif j["spell"] == 1:
            arg = [p]
        else:
            l = os.path.join(lib, "link.py")
            os.symlink(p, l)
            arg = [l]
    else:
        arg = ["-m", ".".join(j["name"])]
    pre = {"python": [], "console": [os.path.join(lib, "macropython")], "module": ["-m", "mcpyrate.repl.macropython"]}[j["how"]]
    env = dict(os.environ, PYTHONPATH=os.environ["PYTHONPATH"].split(os.pathsep)[0] + os.pathsep + lib, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    if j["more"]:  # directories further down the search path, with modules of the same names
        env["PYTHONPATH"] += os.pathsep + os.path.join(root, "other") + os.pathsep + os.path.join(root, *j["path0"])
    r = subprocess.run([PY] + pre + arg, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    log = []
    for line in r.stdout.decode().splitlines():
        try:
            x = json.loads(line)
        except ValueError:
            x = ["?", line]
        if isinstance(x, list) and x[0] == "L":
            x[5] = os.path.relpath(x[5], root)
        if isinstance(x, list) and x[0] == "bye" and r.returncode not in (0, 3):
            x = ["bye"]
        log.append(x)
    return {"log": log, "rc": r.returncode, "err": r.stderr.decode().strip().split("\n")[-1][-300:]}


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "a") as out:
        for line in f:
            j = json.loads(line)
            root = os.path.realpath(tempfile.mkdtemp(prefix="vmain_"))
            try:
                res = run(j, root)
            except Exception as e:
                res = {"_dead": repr(e)}
            shutil.rmtree(root)
            shutil.rmtree(root + "_lib", ignore_errors=True)
            out.write(json.dumps(dict(res, _i=j["_i"])) + "\n")
            out.flush()


main()
