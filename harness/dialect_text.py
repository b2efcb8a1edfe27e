"""Tokens of Dialects.tla as text, and back."""
import ast


def text(t):
    k, v = t["k"], t["v"]
    if k == "imp":
        base = "from %s import dialects, %s" % (t["m"], ", ".join(t["ns"]))
        if v == "trail":
            return base + "   "
        if v == "comment":
            return base + "  # remark"
        if v == "semi":
            return base + "; q = 1"
        if v == "paren":
            return "from %s import (dialects,\n    %s\n)" % (t["m"], ", ".join(t["ns"]))
        if v == "cont":
            return "from %s import \\\n    dialects, %s" % (t["m"], ", ".join(t["ns"]))
        if v == "as":
            return base + " as Other"
        return base
    if k == "str":
        return 'S = """\nfrom %s import dialects, %s\n"""' % (t["m"], ", ".join(t["ns"]))
    if k == "ifimp":
        return "if 1:\n    from %s import dialects, %s" % (t["m"], ", ".join(t["ns"]))
    return {"log": "log('%s')" % v, "mac": "log(x['%s'])" % v, "macd": "log('x%s')" % v, "mimp": "from %s import macros, x" % t["m"],
            "use": "import %s" % t["m"], "alien": "++++[>++<-]. what ever %s" % v, "void": "# c %s" % v if v else "", "doc": "'doc'",
            "fut": "from __future__ import annotations", "mark": "MARK %s" % v, "asg": "q = 1"}[k]


def tok(k, m="", ns=(), v="", ln=0):
    return {"k": k, "m": m, "ns": list(ns), "v": v, "ln": ln}


def _imp(line, k, v):
    a, b = line.split(" import ", 1)
    b = b.split(",", 1)[1]
    return tok(k, a.strip()[5:], [x.strip() for x in b.split(",")], v)


def parse(s):
    """The tokens of a text made by `text`."""
    lines = s.split("\n")
    out = []
    while lines:
        x = lines.pop(0)
        if x == 'S = """':
            out.append(_imp(lines.pop(0), "str", ""))
            lines.pop(0)
        elif x == "if 1:":
            out.append(_imp(lines.pop(0).strip(), "ifimp", ""))
        elif x.endswith("import (dialects,"):
            out.append(_imp(x[:-len("(dialects,")] + "dialects, " + lines.pop(0).strip(), "imp", "paren"))
            lines.pop(0)
        elif x.endswith("import \\"):
            out.append(_imp(x[:-1] + lines.pop(0).strip(), "imp", "cont"))
        elif x.startswith("from ") and "import dialects" in x:
            for end, v in (("   ", "trail"), ("  # remark", "comment"), ("; q = 1", "semi"), (" as Other", "as"), ("", "")):
                if x.endswith(end):
                    out.append(_imp(x[:len(x) - len(end)], "imp", v))
                    break
        elif x.startswith("from __future__"):
            out.append(tok("fut"))
        elif x.startswith("from "):
            out.append(tok("mimp", x.split()[1], ["x"]))
        elif x.startswith("log(x["):
            out.append(tok("mac", v=x[7:-3]))
        elif x.startswith("log("):
            out.append(tok("log", v=x[5:-2]))
        elif x.startswith("import "):
            out.append(tok("use", x[7:]))
        elif x.startswith("#"):
            out.append(tok("void", v=x[4:]))
        elif x == "":
            out.append(tok("void"))
        elif x == "'doc'":
            out.append(tok("doc"))
        elif x.startswith("++++"):
            out.append(tok("alien", v=x.rsplit(" ", 1)[1]))
        else:
            raise ValueError("what is %r" % x)
    return out


def join(toks):
    return "\n".join(text(t) for t in toks)


def stmts(toks):
    """The canonical text of each statement of tokens that are trees."""
    out = []
    for t in toks:
        if t["k"] == "mark":
            out.append("MARK " + t["v"])
        else:
            out += [ast.unparse(x) for x in ast.parse(text(t)).body]
    return out
