"""Replays histories of creating, compiling, running and importing modules."""
import ast, importlib, json, os, shutil, sys, tempfile, warnings
warnings.simplefilter("ignore")

NAMES = ["m", "pk", "pk.a", "pk.a.s", "pf", "pf.x", "pf.y", "zz"]
ATTRS = ["a", "s", "x", "y"]
VARS = {"v": "v", "w": "w", "m1": "m1", "m2": "m2", "ph": "__phase__"}


def stmt(c, ind, uid):
    t, v, k, s = c["t"], c["v"], c["k"], c["s"]
    if t == "set":
        out = ["%s = %d" % (v, k)]
    elif t == "inc":
        out = ["%s = %s + 1" % (v, v)]
    elif t == "mac":
        out = ["def %s(tree, *, _k=%s, **kw):" % (v, s or k), "    import ast", "    return ast.Constant(value=_k)", "%s.k = %s" % (v, s or k)]
    elif t in ("use", "self"):
        out = ["from %s import macros, m%d as %s" % (s if t == "use" else "__self__", k, uid), "%s = %s[0]" % (v, uid)]
    elif t == "dbg":
        out = ["%s = 1 if __debug__ else 2" % v]
    elif t == "fail":
        out = ["raise RuntimeError('on purpose')"] if k == 0 else ["if __phase__ == %d: raise RuntimeError('on purpose')" % (k - 1)]
    elif t == "phase":
        out = ["with phase[%d]:" % k]
        for i, b in enumerate(c["body"]):
            out += stmt(b, "    ", uid + "_%d" % i)
    return [ind + l for l in out]


def text(prog):
    out = []
    if prog["doc"]:
        out.append('"""doc%d"""' % prog["doc"])
    if prog["multi"]:
        out.append("from mcpyrate.multiphase import macros, phase")
    for i, c in enumerate(prog["body"]):
        out += stmt(c, "", "u%d" % i)
    return "\n".join(out or ["pass"]) + "\n"


BADSRC = ["def (\n", [ast.Expr(value=ast.Constant(value=1)), 42], 42]
nbad = 0


class Session:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="m", dir=os.getcwd())
        os.mkdir(os.path.join(self.root, "pf"))
        open(os.path.join(self.root, "pf", "__init__.py"), "w").close()
        for n in list(sys.modules):
            if n in NAMES or n.startswith("dynamically_created_module_"):
                del sys.modules[n]
        sys.path[:] = [p for p in sys.path if not p.endswith("/mods")]
        sys.path.insert(0, self.root)
        self.old = set(sys.path_importer_cache)
        importlib.invalidate_caches()
        importlib.import_module("pf")
        self.keep = []       # so that no id is used twice
        self.ids = {}
        self.handles = []
        self.stack = []

    def close(self):
        while self.stack:
            self.stack.pop().__exit__(None, None, None)
        sys.path.remove(self.root)
        for n in NAMES:
            sys.modules.pop(n, None)
        for p in list(sys.path_importer_cache):
            if p not in self.old:
                del sys.path_importer_cache[p]
        shutil.rmtree(self.root, ignore_errors=True)

    def id(self, m):
        if m is None:
            return 0
        self.keep.append(m)
        if id(m) not in self.ids:
            self.ids[id(m)] = len(self.ids) + 1
        return self.ids[id(m)]

    def write(self, n, prog):
        with open(os.path.join(self.root, "pf", n.split(".")[1] + ".py"), "w") as f:
            f.write(text(prog))
        importlib.invalidate_caches()

    def do(self, op):
        from mcpyrate import compiler
        global nbad
        o, n = op["o"], op["n"]
        name = 42 if n == "int" else (n or None)
        fn = 42 if op["f"] == "int" else (op["f"] or None)
        if o == "create":
            return compiler.create_module(name, fn, update_parent=op["up"])
        if o == "enter":
            cm = compiler.temporary_module(name, fn, update_parent=op["up"])
            m = cm.__enter__()
            self.stack.append(cm)
            return m
        if o == "exit":
            cm = self.stack.pop()
            if op["err"]:
                e = RuntimeError("in the body")
                try:
                    if cm.__exit__(RuntimeError, e, None):
                        raise AssertionError("error swallowed")
                except RuntimeError as x:
                    if x is not e:
                        raise AssertionError("another error")
            else:
                cm.__exit__(None, None, None)
            return None
        if o == "rm":
            del sys.modules[n]
            return None
        if o == "import":
            self.write(n, op["prog"])
            return importlib.import_module(n)
        if o == "reload":
            self.write(n, op["prog"])
            return importlib.reload(sys.modules[n])
        src = text(op["prog"])
        form = op["form"]
        if form == "bytes":
            src = src.encode()
        elif form in ("list", "mod"):
            src = ast.parse(src)
            src = src.body if form == "list" else src
        elif form == "bad":
            nbad += 1
            src = BADSRC[nbad % 3]
        if o in ("compile", "expand"):
            getattr(compiler, o)(src, "c.py", optimize=op["opt"], self_module=n or None)
            return None
        target = self.handles[-op["h"]] if op["h"] else name
        if form == "code":
            if isinstance(target, str) and target not in sys.modules:
                src = "pass"
            src = compiler.compile(src, "c.py", optimize=op["opt"], self_module="zz")
        return compiler.run(src, target, optimize=op["opt"]) if target is not None else compiler.run(src, optimize=op["opt"])

    def seen(self):
        """modules in view: the registered ones by name, then those given, and what is in their attributes"""
        out = []
        todo = [sys.modules[n] for n in NAMES if n in sys.modules] + list(self.handles)
        while todo:
            m = todo.pop(0)
            if any(m is x for x in out):
                continue
            out.append(m)
            todo += [m.__dict__[a] for a in ATTRS if a in m.__dict__]
        return out

    def view(self, out, given):
        from mcpyrate.compiler import ModuleType
        tab = {n: self.id(sys.modules.get(n)) for n in NAMES}
        g = self.id(given)
        objs = []
        for m in self.seen():
            name, file = m.__name__, m.__file__
            auto = name.startswith("dynamically_created_module_")
            ns = {}
            for v, real in VARS.items():
                x = m.__dict__.get(real)
                ns[v] = 0 if real not in m.__dict__ else x + 1 if v == "ph" else x if isinstance(x, int) else getattr(x, "k", -5)
            doc = m.__doc__
            objs.append({"id": self.id(m), "name": "?" if auto else name,
                         "file": "dyn" if file == "<dynamically created module '%s'>" % name else
                                 "auto" if file.startswith("<dynamically created module ") and "'" not in file else
                                 "disk" if file.startswith(self.root + os.sep) else file,
                         "pkg": "" if name == "pf" else (m.__package__ or ""),
                         "doc": 0 if doc is None else int(doc[3:]) if doc.startswith("doc") else doc,
                         "ns": ns, "attrs": {a: self.id(m.__dict__.get(a)) for a in ATTRS},
                         "reg": auto and sys.modules.get(name) is m})
        return {"out": out, "tab": tab, "given": g, "obj": objs}

    def op(self, op):
        others = set(sys.modules) - set(NAMES)
        given = None
        try:
            given = self.do(op)
            out = "ok"
        except (TypeError, ModuleNotFoundError, ValueError, AssertionError) as e:
            out = type(e).__name__
        except BaseException as e:
            out = type(e).__name__
        if given is not None:
            self.handles.append(given)
        v = self.view(out, given)
        new = set(sys.modules) - set(NAMES) - others
        v["extra"] = sorted(n for n in new if n in ("1x", "pk..a", "bad.q", "bad", "__self__", "") or not isinstance(n, str)
                            or (n.startswith("dynamically") and not any(getattr(h, "__name__", "") == n for h in self.handles) and out == "ok"))
        return v


def job(j):
    s = Session()
    try:
        return {"log": [s.op(op) for op in j["hist"]]}
    finally:
        s.close()


def main():
    import mcpyrate.activate  # noqa
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as out:
        for line in f:
            j = json.loads(line)
            try:
                r = job(j)
            except Exception as e:
                import traceback
                r = {"_dead": traceback.format_exc()[-600:]}
            r["_i"] = j["_i"]
            out.write(json.dumps(r) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
