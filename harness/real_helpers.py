"""Runs programs of helpers."""
import builtins, json, sys, uuid, random

DRAWS = []
_uuid4 = uuid.uuid4


def uuid4():
    if DRAWS:
        return uuid.UUID(int=random.Random(DRAWS.pop(0)).getrandbits(128), version=4)
    return _uuid4()


uuid.uuid4 = uuid4
import ast
from mcpyrate import gensym, unparse, dump
from mcpyrate.bunch import Bunch
from mcpyrate.colorizer import ColorScheme, Style, colorize, setcolor
from mcpyrate.utils import NestingLevelTracker, extract_bindings, flatten, format_location, scrub_uuid

ORIG = ColorScheme.copy()


def nested(c, leaf, tup=False):
    out = []
    for n, x in enumerate(c):
        out.append(None if x["k"] == "n" else leaf(x["v"]) if x["k"] == "x" else nested(x["c"], leaf, tup))
    return tuple(out) if tup and len(out) % 2 else out


class Item:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v not in "ab"


def f1(): pass
def f2(): pass
def f3(): pass


FS = {"f1": f1, "f2": f2, "f3": f3, "len": len}
PIECES = {"STRING": (lambda: unparse(ast.Constant("s"), color=True), "'s'"),
          "NUMBER": (lambda: unparse(ast.Constant(17), color=True), "17"),
          "NAMECONSTANT": (lambda: unparse(ast.Constant(None), color=True), "None"),
          "LANGUAGEKEYWORD": (lambda: unparse(ast.Pass(), color=True), "pass"),
          "BUILTINEXCEPTION": (lambda: unparse(ast.Name("ValueError"), color=True), "ValueError"),
          "BUILTINOTHER": (lambda: unparse(ast.Name("str"), color=True), "str"),
          "DEFNAME": (lambda: unparse(ast.parse("def fun(): pass").body, color=True), "fun"),
          "NODETYPE": (lambda: dump(ast.Name("x", ast.Load()), color=True), "Name"),
          "FIELDNAME": (lambda: dump(ast.Name("x", ast.Load()), color=True), "id"),
          "BAREVALUE": (lambda: dump(ast.Name("x", ast.Load()), color=True), "'x'"),
          "SOURCEFILENAME": (lambda: format_location("file.py", ast.Pass(), None), "file.py")}


class Run:
    def __init__(self, job):
        self.ops = job["ops"]
        DRAWS[:] = job["draws"]
        self.t = [NestingLevelTracker(), NestingLevelTracker(2)]
        self.out = []
        self.names = set()
        ColorScheme.replace(Bunch(**dict(ORIG.items())))

    def rec(self, ret):
        self.out.append({"ret": ret, "levels": [t.value for t in self.t]})

    def inner(self, i):
        """Runs the block that starts at i up to the "end" that closes it."""
        self.rec("in")
        return self.block(i + 1)

    def block(self, i):
        """from operation i (0-based); stops after an "end" that isn't ours."""
        ops = self.ops
        while i < len(ops):
            o = ops[i]
            op = o["op"]
            if op == "end":
                return
            if op in ("set", "chg", "try", "fn"):
                if op == "set":
                    with self.t[o["t"] - 1].set_to(o["n"]):
                        if self.inner(i) == "left":
                            return "left"
                    self.rec("out")
                elif op == "chg":
                    with self.t[o["t"] - 1].changed_by(o["n"]):
                        if self.inner(i) == "left":
                            return "left"
                    self.rec("out")
                elif op == "try":
                    try:
                        if self.inner(i) == "left":
                            return "left"
                    except BaseException as e:
                        self.rec(type(e).__name__)
                    else:
                        self.rec("out")
                else:
                    self.rec("left" if self.inner(i) == "left" else "out")
                i = o["j"]
                continue
            if op == "bad":
                with getattr(self.t[o["t"] - 1], "set_to" if o["n"] else "changed_by")(1.5):
                    self.rec("accepted")
            elif op == "raise":
                raise getattr(builtins, o["b"])("on purpose")
            elif op == "leave":
                return "left"
            else:
                self.rec(self.simple(o, op))
            i += 1

    def simple(self, o, op):
        if op == "gensym":
            b = None if o["b"] == "None" else o["b"]
            x = gensym(b) if o["n"] else gensym(basename=b) if b is not None else gensym()
            if x in self.names:
                return "not new"
            self.names.add(x)
            s = scrub_uuid(x)
            if len(x) < 32 or not all(c in "0123456789abcdef" for c in x[-32:]):
                return "form: " + x
            return x[:-32] + "/" + ("*" if s == x else s)
        if op == "scrub":
            return scrub_uuid("".join(o["xs"]))
        if op == "flat":
            items = []

            def leaf(v):
                items.append(Item(v))
                return items[-1]
            lst = nested(o["c"], leaf)
            before = repr(lst)
            r = flatten(lst)
            if repr(lst) != before or r is lst or type(r) is not list:
                return "changed"
            if len(r) != len(items) or any(x is not y for x, y in zip(r, items)):
                return "not the items: " + repr([getattr(x, "v", x) for x in r])
            return "".join(x.v + " " for x in r)
        if op == "pick":
            b = {x["k"]: FS[x["f"]] for x in o["nb"]}
            before = dict(b)
            r = extract_bindings(b, *[FS[x] for x in o["xs"]])
            if b != before or r is b:
                return "changed"
            return "".join("%s=%s " % (k, v.__name__) for k, v in r.items())
        if op == "color":
            c = nested(o["c"], str, True)
            mark = lambda s: s.replace(Style.RESET_ALL, "~") if Style.RESET_ALL else s
            return mark(setcolor(*c, reset=bool(o["n"])) if o["b"] == "set" else colorize(o["b"], *c))
        if op == "paint":
            self.painted.add(o["b"])
            setattr(ColorScheme, o["b"], nested(o["c"], str, True))
            return "painted"
        if op == "adopt":
            self.painted.update(PIECES)
            c = tuple(nested(o["c"], str, True))
            ColorScheme.replace(Bunch(**{k: c + (k,) for k in ORIG}))
            return "painted"
        if op == "show":
            f, piece = PIECES[o["b"]]
            s, p = f(), 0
            while True:
                p = s.find(piece + Style.RESET_ALL, p)
                if p < 0:
                    return "not shown: " + s
                c = s[:p][s[:p].rfind(Style.RESET_ALL) + len(Style.RESET_ALL):]
                if not any(ch in c for ch in "=(,: "):
                    break
                p += 1
            now = ColorScheme[o["b"]]
            if now == ORIG[o["b"]] and not o["b"] in self.painted:
                return "~?"
            return "~" + c

    def run(self):
        self.painted = set()
        try:
            if self.block(0) == "left":
                self.rec("left")
        except BaseException as e:
            self.rec(type(e).__name__)
        return self.out


def main():
    assert Style.RESET_ALL, "colors are off"
    out = open(sys.argv[2], "a")
    for line in open(sys.argv[1]):
        job = json.loads(line)
        out.write(json.dumps({"_i": job["_i"], "out": Run(job).run()}) + "\n")
        out.flush()


main()
