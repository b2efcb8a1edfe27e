"""Compiles, runs and imports multi-phase modules with the real compiler."""
import ast, builtins, importlib, io, json, os, re, shutil, sys, tempfile, warnings
warnings.simplefilter("ignore")
BAD = ["with phase[0]:", "with phase['x']:", "with phase[1] as q:", "with phase[1], phase[2]:", "with phase[1, 2]:", "with phase[n]:", "with phase[-1]:", "with phase:"]
NEST = ["if True:", "for _ in (1,):", "def f():", "class C:", "try:", "with open(__file__):", "with phase[2]:"]


def stmt(c, ind):
    t, m, i, k = c["t"], c["m"], c["id"], c["k"]
    if t == "st":
        out = ["LOG(__phase__, %d, None, __name__)" % i]
    elif t == "mac":
        out = ["def %s(tree, *, expander, **kw):" % m, "    import ast", "    tree.elts.append(ast.Constant(value=%d))" % i, "    return tree", "LOG(__phase__, %d, None, __name__)" % i]
    elif t == "self":
        out = ["from __self__ import macros, %s" % m]
    elif t == "uimp":
        out = ["from phutil import macros, u"]
    elif t == "use":
        out = ["LOG(__phase__, %d, %s[[]], __name__)" % (i, m)]
    elif t == "ann":
        out = ["def f%d(x: NOT_DEFINED) -> NOT_DEFINED: pass" % i, "LOG(__phase__, %d, None, __name__)" % i]
    elif t == "fail":
        out = ["if __phase__ == %d: raise RuntimeError('on purpose')" % k]
    elif t == "nest":
        n = i % 7 if ind else i % 6
        out = [NEST[n], "    with phase[1]:", "        LOG(__phase__, %d, None, __name__)" % i]
        if n == 4:
            out += ["finally:", "    pass"]
        if n == 2:
            out += ["f()"]
    elif t == "bad":
        out = [BAD[i % 8], "    LOG(__phase__, %d, None, __name__)" % i]
    elif t == "phase":
        out = ["with phase[%d]:" % k]
        for b in c["body"] or [{"t": "pass", "m": "", "id": 0, "k": 0}]:
            out += stmt(b, "    ")
    else:
        out = ["pass"]
    return [ind + l for l in out]


STEPS = ["", "from mcpyrate.debug import macros, step_phases", "from mcpyrate.debug import macros, show_bindings, step_phases",
         "from mcpyrate.debug import macros, step_phases as show_the_phases",
         "from mcpyrate.debug import macros, show_bindings\nfrom mcpyrate.debug import macros, step_phases",
         "from mcpyrate.debug import macros, step_phases, show_bindings\nfrom mcpyrate.debug import macros, step_expansion",
         "from mcpyrate.debug import macros, step_expansion as step_phases\nfrom mcpyrate.debug import dump\nimport mcpyrate.debug\nfrom mcpyrate.debug import (macros, step_expansion, step_phases,)"]


def text(p, step=0):
    """step: 0, or how the stepping of phases is asked for."""
    out = []
    if p["doc"]:
        out.append('"""The docstring."""')
    if p["fut"]:
        out.append("from __future__ import annotations")
        if p["mpos"] % 2:
            out.append("from __future__ import generator_stop, division")
    for i, c in enumerate(p["body"] + [None]):
        if i == p["mpos"]:
            if step == 1:
                out.append(STEPS[step])
            out.append("from mcpyrate.multiphase import macros, phase")
        if step > 1 and i == (p["mpos"] + step) % (len(p["body"]) + 1):
            out.append(STEPS[step])
        if c:
            out += stmt(c, "")
    return "\n".join(out) + "\n"


def job(j):
    from mcpyrate import compiler
    p, form = j["prog"], j["form"]
    src = text(p, j["step"])
    log = []
    err = io.StringIO()

    def LOG(ph, i, val, name):
        log.append([ph, i] + ([val] if val is not None else []) + ([name] if name != "phm.sub" else []))
    builtins.LOG = LOG
    root = tempfile.mkdtemp(prefix="p", dir=os.getcwd())
    names = ["phm", "phm.sub", "phutil"]
    for n in names:
        sys.modules.pop(n, None)
    path = list(sys.path)
    sys.path.insert(0, root)
    m = None
    stderr, sys.stderr = sys.stderr, err
    try:
        os.mkdir(root + "/phm")
        open(root + "/phm/__init__.py", "w").close()
        with open(root + "/phutil.py", "w") as f:
            f.write("import ast\ndef u(tree, **kw):\n    tree.elts.append(ast.Constant(value=-1))\n    return tree\n")
        fn = root + "/phm/sub.py"
        importlib.invalidate_caches()
        importlib.import_module("phm")
        try:
            if form == "import":
                with open(fn, "w") as f:
                    f.write(src)
                importlib.invalidate_caches()
                m = importlib.import_module("phm.sub")
            else:
                m = compiler.create_module("phm.sub", fn if form in ("textpy", "astpy") else None)
                open(fn, "w").close()
                bare = ast.parse(src)
                for n in ast.walk(bare):        # as in code that macros make
                    for a in n._attributes:
                        n.__dict__.pop(a, None)
                compiler.run(bare if form == "astbare" else src if form.startswith("text") else ast.parse(src) if form == "astpy" else ast.parse(src).body, m)
            out = "ok"
        except Exception as e:
            out = "%s: %s" % (type(e).__name__, str(e)[:200])
            m = None
    finally:
        sys.stderr = stderr
        sys.path[:] = path
        shutil.rmtree(root, ignore_errors=True)
        for p_ in list(sys.path_importer_cache):
            if p_.startswith(root):
                del sys.path_importer_cache[p_]
    r = {"out": out, "log": log, "err": err.getvalue()[:300]}
    parts = re.split(r"\*\*AST for PHASE (\d+) of module", re.sub(r"\x1b\[[0-9;]*m", "", err.getvalue()))
    r["shown"] = [[int(k), [int(n) for n in re.findall(r"LOG\(__phase__, (\d+), ", t)]] for k, t in zip(parts[1::2], parts[2::2])]
    if m is not None:
        r["doc"] = m.__doc__
        r["defs"] = sorted(n for n in ("a", "b", "u") if n in m.__dict__)
        r["phase"] = m.__dict__.get("__phase__")
        r["macros_left"] = "macros" in m.__dict__
    return r


def main():
    import mcpyrate.activate  # noqa
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as out:
        for line in f:
            j = json.loads(line)
            try:
                r = job(j)
            except Exception:
                import traceback
                r = {"_dead": traceback.format_exc()[-600:]}
            r["_i"] = j["_i"]
            out.write(json.dumps(r) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
