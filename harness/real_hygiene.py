"""Runs scenarios of hygienic captures, process by process."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
LOG = "calls = []\n"
MACROS = '''
from mcpyrate.quotes import macros, q, u, a, h
from mcpyrate import namemacro, parametricmacro
import hy_log
def mA(tree, **kw):
    hy_log.calls.append("mA")
    return q[[u["mA"], a[tree]]]
def mB(tree, **kw):
    hy_log.calls.append("mB")
    return q[[u["mB"], a[tree]]]
def mOther(tree, **kw):
    hy_log.calls.append("mOther")
    return q[[u["mOther"], a[tree]]]
@namemacro
def mN(tree, **kw):
    hy_log.calls.append("mN")
    return q[u["mN"]]
@parametricmacro
def mP(tree, *, args, **kw):
    hy_log.calls.append("mP")
    return q[[u["mP"], a[args[0]], a[tree]]]
def mW(tree, **kw):
    hy_log.calls.append("mW")
    with q as code:
        tag = u["mW"]
    return tree + code
def mK(tree, **kw):
    hy_log.calls.append("mK")
    tree.body[0].value = q[[u["mK"], a[tree.body[0].value]]]
    return tree
'''
OTHER = '''
from mcpyrate.quotes import macros, q, u, a, h
from hy_macros import macros, mB as first
from mcpyrate.quotes import capture_as_macro
import hy_log
def cB(tree, **kw):
    return q[(h[first][a[tree]],)]
def mEven(tree, **kw):
    hy_log.calls.append("qEven")
    return q[u["qeven"]] if tree.value == 0 else q[a[odd][u[tree.value - 1]]]
def mOdd(tree, **kw):
    hy_log.calls.append("qOdd")
    return q[u["qodd"]] if tree.value == 0 else q[a[even][u[tree.value - 1]]]
even = capture_as_macro(mEven)
odd = capture_as_macro(mOdd)
def cQ(tree, **kw):
    return q[(a[even][2], a[tree])]
x = None
def mV(tree, **kw):
    hy_log.calls.append("mV")
    return q[(h[x], a[tree])]
'''
DEF = '''
from mcpyrate.quotes import macros, q, u, a, h
from hy_macros import macros, mA as first, mN, mP, mW as mwith, mK
from hy_other import macros, mV
from mcpyrate.quotes import capture_as_macro
import hy_log
x = y = None
def getx():
    return x
def gety():
    return y
def tree_x():
    return q[h[x]]
def tree_y():
    return q[h[y]]
def cA(tree, **kw):
    return q[(h[first][a[tree]],)]
def cN(tree, **kw):
    return q[(h[mN], a[tree])]
def cP(tree, **kw):
    return q[(h[mP][3][a[tree]],)]
def cW(tree, **kw):
    with q as code:
        with h[mwith]:
            with a:
                tree
    return code
def cK(tree, **kw):
    tree.decorator_list.append(q[h[mK]])
    return tree
def cV(tree, **kw):
    return q[h[mV][a[tree]]]
def mEven(tree, **kw):
    hy_log.calls.append("mEven")
    return q[u["even"]] if tree.value == 0 else q[a[odd][u[tree.value - 1]]]
def mOdd(tree, **kw):
    hy_log.calls.append("mOdd")
    return q[u["odd"]] if tree.value == 0 else q[a[even][u[tree.value - 1]]]
even = capture_as_macro(mEven)
odd = capture_as_macro(mOdd)
def cR(tree, **kw):
    return q[(a[even][3], a[tree])]
'''
for x in "xy":
    DEF += "def cv_%s(tree, **kw):\n    return q[(h[%s], a[tree])]\ndef cf_%s(tree, **kw):\n    return q[(h[get%s](), a[tree])]\n" % (x, x, x, x)
    for y in "xy":
        DEF += "def cp_%s%s(tree, **kw):\n    return q[(h[%s], h[%s], a[tree])]\ndef ce_%s%s(tree, **kw):\n    return q[(h[[%s, %s]], a[tree])]\n" % (x, y, x, y, x, y, x, y)
TAKEN = ["x = 'local'", "y = 'mine'", "mcpyrate = None", "quotes = None", "lookup_value = None", "hy_def = None", "mN = 0", "mV = first = 1"]


def use(sites, style):
    out = []
    for m, which in (("hy_def", False), ("hy_other", True)):
        names = sorted({macro(s) for s in sites if (s["kind"] in "BQ") == which})
        if names:
            out.append("from %s import macros, %s" % (m, ", ".join(names)))
    if any(s["user"] == "m" for s in sites):
        out.append("from hy_macros import macros, mOther as mA, mOther as first, mOther as mP, mOther as mwith")
    if style == 2:
        out += TAKEN
    for i, s in enumerate(sites, 1):
        u = {"n": "7", "l": "x", "m": "mA[8]"}[s["user"]]
        lines = list(TAKEN) if style == 1 else ["x = 'local'"]
        if s["kind"] == "W":
            lines += ["with cW:", "    r = " + u, "return tag, r"]
        elif s["kind"] == "K":
            lines += ["@cK", "def g():", "    return " + u, "return (g(),)"]
        else:
            lines += ["return %s[%s]" % (macro(s), u)]
        if style == 3:
            out.append("def s%d(%s):" % (i, ", ".join(t.replace("first = ", "") for t in TAKEN)))
        else:
            out.append("def s%d():" % i)
        out += ["    " + x for x in lines]
    return "\n".join(out) + "\n"


def macro(s):
    return "c" + s["kind"] + {"v": "_" + s["x"], "f": "_" + s["x"], "p": "_" + s["x"] + s["y"], "e": "_" + s["x"] + s["y"]}.get(s["kind"], "")


CAPS = {"v": 1, "p": 2, "e": 1, "f": 1, "V": 1}


def run(job):
    x = job["in"]
    d = tempfile.mkdtemp(prefix="vhyg_")
    res = {"obs": [], "calls": [], "flaws": [], "err": ""}
    try:
        files = {"hy_log": LOG, "hy_macros": MACROS, "hy_other": OTHER, "hy_def": DEF}
        for i, sites in enumerate(x["mods"], 1):
            files["use%d" % i] = use(sites, x["style"][i - 1])
        for k, v in files.items():
            with open(os.path.join(d, k + ".py"), "w") as f:
                f.write(v)
            os.utime(os.path.join(d, k + ".py"), (1.6e9, 1.6e9))
        sessions = [{"start": x["start"], "acts": []}]
        at = int(time.time()) + 1000
        for a in x["acts"]:
            if a["op"] == "restart":
                sessions.append({"start": a["p"], "acts": []})
            else:
                if a["op"] == "touch":
                    at += 10
                    a = dict(a, at=[at])
                if a["op"] == "act":
                    a = dict(a, caps=CAPS.get(x["mods"][a["mod"] - 1][a["site"] - 1]["kind"], 0))
                sessions[-1]["acts"].append(a)
        env = dict(os.environ)
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        for n, s in enumerate(sessions):
            fin, fout = os.path.join(d, "cmd%d.json" % n), os.path.join(d, "out%d.json" % n)
            with open(fin, "w") as f:
                json.dump(s, f)
            p = subprocess.run([sys.executable, os.path.join(HERE, "hyg_child.py"), fin, fout], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
            if p.returncode:
                res["err"] = p.stderr.decode("utf8", "replace")[-600:]
                break
            g = json.load(open(fout))
            res["obs"] += g["obs"]
            res["calls"] += g["calls"]
            res["flaws"] += g["flaws"]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    fin, fout = sys.argv[1:]
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        out.write(json.dumps(dict(run(job), _i=job["_i"])) + "\n")
        out.flush()
