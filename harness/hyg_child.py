"""One process of a hygiene scenario: hyg_child.py COMMANDS OUT (in the directory of the modules)."""
import ast, copy, json, os, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
import mcpyrate.activate, mcpyrate.quotes, mcpyrate.metatools, mcpyrate.debug, mcpyrate.unparser, mcpyrate.multiphase, mcpyrate.dialects, pickle
from mcpyrate.quotes import is_captured_value, lookup_value

sess = json.load(open(sys.argv[1]))
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = not sess["start"]["write"]
import hy_log, hy_def, hy_other

VARS = {"x": (hy_def, "x"), "y": (hy_def, "y"), "x2": (hy_other, "x")}
heap = []


def val(v):
    return v["n"] if v["k"] == "i" else v["s"] if v["k"] == "s" else heap[v["n"] - 1]


for o in sess["start"]["heap"]:
    heap.append([])
for o, c in zip(heap, sess["start"]["heap"]):
    o.extend(val(v) for v in c)
for k, v in sess["start"]["env"].items():
    setattr(*VARS[k], val(v))


def get(x):
    return getattr(*VARS[x])


def show(v):
    if isinstance(v, list):
        return {"k": "r", "n": 0, "s": "", "c": [show(x) for x in v]}
    if isinstance(v, str):
        return {"k": "s", "n": 0, "s": v, "c": []}
    if type(v) is int:
        return {"k": "i", "n": v, "s": "", "c": []}
    return {"k": "?", "n": 0, "s": repr(v)[:100], "c": []}


mods, trees, obs, flaws = {}, [], [], []
names = {}


def run(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if "ctx" in n._fields:
            n.ctx = ast.Load()
    return eval(compile(ast.fix_missing_locations(ast.Expression(body=t)), "<probe>", "eval"), {"__name__": "probe"})


for a in sess["acts"]:
    op = a["op"]
    if op == "set":
        how = a["how"]
        setattr(*VARS[a["x"]], a["n"] if how == "num" else [a["n"]] if how == "list" else get(a["y"]) if how == "same" else [get(a["y"])])
    elif op == "mut":
        if isinstance(get(a["x"]), list):
            get(a["x"]).append(a["n"])
    elif op == "load":
        m = "use%d" % a["mod"]
        mods[a["mod"]] = mod = __import__(m)
        if m not in names:
            names[m] = {k: v for k, v in vars(mod).items() if k not in ("__builtins__", "__warningregistry__")}
            src = ast.parse(open(m + ".py").read())
            own = {n.id for n in ast.walk(src) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in src.body if isinstance(n, ast.FunctionDef)}
            own |= {al.name for n in src.body if isinstance(n, ast.Import) for al in n.names} | {n.module for n in src.body if isinstance(n, ast.ImportFrom)}
            extra = {k for k in vars(mod) if not k.startswith("__")} - own
            if extra:
                flaws.append("new names in the use module: %s" % sorted(extra))
    elif op == "act":
        if a["mod"] in mods:
            mod = mods[a["mod"]]
            r = getattr(mod, "s%d" % a["site"])()
            obs.append([show(v) for v in r])
            if 0 < a["slot"] < len(r) + 1 and isinstance(r[a["slot"] - 1], list) and a["slot"] <= a["caps"]:
                r[a["slot"] - 1].append(a["n"])
    elif op == "probe":
        trees.append([getattr(hy_def, "tree_" + a["x"])(), a["x"], None])
    elif op == "look":
        if a["n"] <= len(trees):
            t, x, code = trees[a["n"] - 1]
            key = is_captured_value(t)
            if not (isinstance(key, tuple) and key[0] == x and isinstance(key[1], bytes)):
                flaws.append("not seen as the capture of %s: %r" % (x, key))
            if a["how"]:
                v = lookup_value(key)
            else:
                v = run(t)
            obs.append([show(v)])
            if isinstance(v, list):
                v.append(a["k"])
    elif op == "many":
        old = hy_def.x
        for j in range(1, a["n"] + 1):
            hy_def.x = j
            t = hy_def.tree_x()
            obs.append([show(run(t))])
            del t
        hy_def.x = old
    elif op == "touch":
        os.utime("use%d.py" % a["mod"], (a["at"][0], a["at"][0]))
for m, was in names.items():
    now = vars(sys.modules[m])
    for k, v in was.items():
        if k not in now or now[k] is not v:
            flaws.append("the name %s of the use module has changed" % k)
json.dump({"obs": obs, "calls": hy_log.calls, "flaws": flaws}, open(sys.argv[2], "w"))
