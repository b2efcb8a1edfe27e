"""Runs sessions in real consoles. See chk_repl.py."""
import ast, importlib, inspect, io, json, os, re, sys, types
sys.dont_write_bytecode = True
import vrepl_lib
from mcpyrate.repl.console import MacroConsole

ANSI = re.compile(r"\x1b\[[0-9;]*m")
ERR = re.compile(r"^(?:[\w.]*\.)?(\w*(?:Error|Exception|Interrupt|Exit|Iteration|Warning))(?::|$)", re.M)


def enc(v, pre):
    if isinstance(v, bool) or v is None:
        return {"k": "odd", "v": repr(v)}
    if isinstance(v, int):
        return {"k": "int", "v": v}
    if isinstance(v, str):
        return {"k": "str", "v": v}
    if isinstance(v, tuple) and len(v) == 2:
        return {"k": "pair", "x": enc(v[0], pre), "y": enc(v[1], pre)}
    if isinstance(v, types.ModuleType):
        return {"k": "mod", "m": v.__name__.replace(pre, "", 1)}
    if isinstance(v, types.FunctionType):
        return {"k": "fn", "id": (v.__doc__ or "")[4:], "nm": v.__name__}
    return {"k": "odd", "v": type(v).__name__}


def err(text):
    t = ERR.findall(ANSI.sub("", text))
    if not t:
        return "" if not text.strip() else "?" + text[:200]
    return {"IndentationError": "SyntaxError", "TabError": "SyntaxError"}.get(t[-1], t[-1])


class Session:
    def __init__(self, job, pre, d):
        self.job, self.pre, self.d = job, pre, d
        self.mtime = 10 ** 9
        self.out = []
        self.names = job["names"]
        for m, c in job["mods"].items():
            self.edit(m, c)

    def edit(self, m, c):
        p = os.path.join(self.d, self.pre + m + ".py")
        if c["st"] == "gone":
            if os.path.exists(p):
                os.unlink(p)
        else:
            ls = ["pass"] * (self.mtime % 5)
            if c["st"] == "start":
                ls.append("1 / 0")
            for f in c["fs"]:
                ls += vrepl_lib.source(f)
            if c["st"] == "end":
                ls.append("1 / 0")
            if c["st"] == "syntax":
                ls.append("x y")
            with open(p, "w") as f:
                f.write("\n".join(ls) + "\n")
            self.mtime += 10
            os.utime(p, (self.mtime, self.mtime))
        importlib.invalidate_caches()

    def ident(self, lines):
        """Module names are those of this session."""
        return [re.sub(r"\bmod(\d)\b", self.pre + r"mod\1", x) for x in lines]

    def snap(self, ns, expander):
        e = {n: enc(ns[n], self.pre) for n in self.names if n in ns}
        for m in self.job["mods"]:
            if self.pre + m in ns:
                e[m] = enc(ns[self.pre + m], self.pre)
        return e, {n: enc(v, self.pre) for n, v in expander.local_bindings.items()}

    def console(self):
        self.ns = [{"__name__": "__main__"} if self.job["main"] else {} for _ in range(self.job["n"])]
        cs = [MacroConsole(ns) if k or not self.job["main"] else MacroConsole(locals=ns, filename="<session>") for k, ns in enumerate(self.ns)]
        log = []
        for v in self.job["evs"]:
            if v["k"] == "edit":
                self.edit(v["m"], v["c"])
                log.append([])
                continue
            c, ns = cs[v["w"] - 1], self.ns[v["w"] - 1]
            if c.locals is not ns:
                return [{"e": "locals of the console are not those given"}]
            self.out = []
            so, se, dh = sys.stdout, sys.stderr, sys.displayhook
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            def hook(x):
                if x is not None:
                    self.out.append(enc(x, self.pre))
            sys.displayhook = hook
            flags = []
            esc = None
            try:
                try:
                    for l in self.ident(v["lines"]):
                        flags.append(bool(c.push(l)))
                except BaseException as e:
                    esc = "escaped " + type(e).__name__
                    c.resetbuffer()
                so1, se1 = sys.stdout.getvalue(), sys.stderr.getvalue()
            finally:
                sys.stdout, sys.stderr, sys.displayhook = so, se, dh
            e, m = self.snap(ns, c.expander)
            r = {"e": esc or (err(se1) if v["k"] == "in" or "Traceback" in se1 else ""), "out": self.out, "env": e, "macs": m, "more": flags}
            if so1:
                r["stdout"] = so1[:300]
            if v["k"] == "query":
                r["text"] = ANSI.sub("", se1).replace(self.pre, "")
                r["sig"] = sorted("%s: %s" % (k, ((x.__module__ + ".") if x.__module__ else "") + x.__qualname__) for k, x in c.expander.local_bindings.items())
                r["sig"] = [x.replace(self.pre, "") for x in r["sig"]]
            log.append(r)
        return log

    def ipython(self):
        from IPython.core.interactiveshell import InteractiveShell
        from IPython.core.displayhook import DisplayHook
        from traitlets.config import Config
        from mcpyrate.repl import iconsole
        me = self
        class Hook(DisplayHook):
            def __call__(self, result=None):
                if result is not None:
                    me.out.append(enc(result, me.pre))
        c = Config()
        c.HistoryManager.enabled = False
        from traitlets import Type
        class Shell(InteractiveShell):
            displayhook_class = Type(Hook)
            def init_sys_modules(self):
                pass
        sh = Shell(config=c)
        sh.ast_node_interactivity = "all"
        sh.showtraceback = lambda *a, **k: None
        sh.showsyntaxerror = lambda *a, **k: None
        sh._showtraceback = lambda *a, **k: None
        iconsole._instance = None
        so, se, dh = sys.stdout, sys.stderr, sys.displayhook
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        log = []
        try:
            iconsole.load_ipython_extension(sh)
            ext = iconsole._instance
            for v in self.job["evs"]:
                if v["k"] == "edit":
                    self.edit(v["m"], v["c"])
                    log.append([])
                    continue
                self.out = []
                dumped = None
                if v["k"] == "query" and v["q"] == "dump":
                    sys.stdout, text = io.StringIO(), ""
                    try:
                        res = sh.run_cell("\n".join(v["lines"]), store_history=False, silent=False)
                        esc = None
                        if res.success:
                            t = eval(sys.stdout.getvalue(), dict(vars(ast)))
                            b = t.body[0] if isinstance(t.body, list) else t.body
                            dumped = [type(t).__name__, ast.unparse(b.value if isinstance(b, ast.Expr) else b)]
                    except BaseException as e:
                        esc = "escaped %r" % e
                elif v["k"] == "query":
                    sys.stdout = io.StringIO()
                    sh.run_line_magic("macros", "")
                    text = ANSI.sub("", sys.stdout.getvalue()).replace(self.pre, "")
                    esc, res = None, None
                else:
                    text = ""
                    try:
                        res = sh.run_cell("\n".join(self.ident(v["lines"])), store_history=False, silent=False)
                        esc = None
                    except BaseException as e:
                        esc = "escaped " + type(e).__name__
                ex = ext.macro_transformer.expander
                e, m = self.snap(sh.user_ns, ex)
                r = {"out": self.out, "env": e, "macs": m, "text": text, "dumped": dumped}
                r["e"] = esc or ("before" if res and res.error_before_exec else type(res.error_in_exec).__name__ if res and res.error_in_exec else "")
                r["sig"] = [x.replace(self.pre, "") for x in sorted("%s: %s" % (k, ((x.__module__ + ".") if x.__module__ else "") + x.__qualname__) for k, x in ex.local_bindings.items())]
                log.append(r)
        finally:
            sys.stdout, sys.stderr, sys.displayhook = so, se, dh
        return log


def plain(job):
    """The same lines in both consoles."""
    import code, builtins
    res = []
    for cls in (code.InteractiveConsole, MacroConsole):
        builtins.__dict__.pop("_", None)
        ns = {"__name__": "__console__", "__doc__": None}
        c = cls(ns, filename="<console>")
        so, se = sys.stdout, sys.stderr
        steps = []
        for l in job["lines"]:
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            try:
                try:
                    more = bool(c.push(l))
                except BaseException as e:
                    more = "escaped " + type(e).__name__
                    c.resetbuffer()
                o, x = sys.stdout.getvalue(), sys.stderr.getvalue()
            finally:
                sys.stdout, sys.stderr = so, se
            mask = lambda s: re.sub(r"0x[0-9a-f]+", "0x", s)
            # where exactly the parser points to, and how often it warns, isn't claimed
            rest = lambda s: re.sub(r". Did you mean: 'macro\w*'\?", "", re.sub(r"(?m)^.*SyntaxWarning: .*\n", "", mask(s)))
            short = lambda s: err(s) if err(s) == "SyntaxError" and "Traceback" not in s else rest(s)
            steps.append([more, mask(o), short(x)])
        vals = {k: mask(repr(v))[:300] for k, v in ns.items() if k not in ("__builtins__", "__macro_expander__", "macro", "mcpyrate", "__warningregistry__")}
        res.append([steps, vals])
    a, b = res
    if a == b:
        return ""
    for l, x, y in zip(job["lines"], a[0], b[0]):
        if x != y:
            return "%r: %r in Python's console, %r here" % (l, x, y)
    return "names: %r, %r here" % (a[1], b[1])


def main(fin, fout):
    out = open(fout, "a")
    sys.path.insert(0, os.getcwd())
    for line in open(fin):
        job = json.loads(line)
        res = {"_i": job["_i"]}
        if job["kind"] == "plain":
            res["bad"] = plain(job)
        else:
            s = Session(job, "vr%d_" % job["_i"], os.getcwd())
            res["log"] = s.ipython() if job["front"] == "ipython" else s.console()
            for m in job["mods"]:
                sys.modules.pop(s.pre + m, None)
                p = os.path.join(os.getcwd(), s.pre + m + ".py")
                if os.path.exists(p):
                    os.unlink(p)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
