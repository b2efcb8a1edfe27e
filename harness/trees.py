"""Conversion between Python ASTs and the specification's tree records."""
import ast

LOC = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def asc(s):
    """ASCII-only form of a string, injective."""
    return s if s.isascii() and "\\" not in s else s.encode("unicode_escape").decode("ascii")


def lit(x):
    if isinstance(x, str):
        return "s:" + asc(x)
    if x is None or x is True or x is False or x is ...:
        return repr(x)
    return type(x).__name__ + ":" + asc(repr(x))


def posof(n):
    if "lineno" not in n._attributes:
        return ""
    if getattr(n, "lineno", None) is None and getattr(n, "col_offset", None) is None:
        return "?"
    g = lambda a: getattr(n, a, None)
    return "%04d:%s:%s:%s" % (g("lineno") if isinstance(g("lineno"), int) else 0, g("col_offset"), g("end_lineno"), g("end_col_offset"))


import re
COV = re.compile(r"^(.*):(\d+) invoked macro '(\w+)'$", re.S)


def rec(k, v="", p="", c=()):
    return {"k": k, "v": v, "p": p, "c": list(c)}


NIL = rec("~")


def enc(t, loc=True, ctx=False, filename=None):
    """AST (or list, None, primitive) -> tree record."""
    def e(t, isconst=False):
        if isinstance(t, ast.AST):
            k = type(t).__name__
            p = posof(t) if loc else ("" if "lineno" not in t._attributes else "?")
            if k == "Constant":
                v = t.value
                if filename and isinstance(v, str):
                    m = COV.match(v)
                    if m and m.group(1) == filename and m.group(2) == str(getattr(t, "lineno", None)):
                        return rec(k, "", p, [rec("lit", "cov:" + m.group(3)), e(getattr(t, "kind", None))])
                return rec(k, "", p, [rec("lit", lit(v)), e(getattr(t, "kind", None))])
            fields = [f for f in t._fields if ctx or f != "ctx"]
            return rec(k, "", p, [e(getattr(t, f, None)) for f in fields])
        if isinstance(t, (list, tuple)):
            return rec("[]", "", "", [e(x) for x in t])
        if t is None:
            return rec("~")
        if isinstance(t, str):
            return rec("id", asc(t))
        return rec("lit", lit(t))
    return e(t)


def size(r):
    return 1 + sum(size(x) for x in r["c"])


def dec(r, ctxcls=ast.Load):
    """Tree record -> AST. Positions kept; every ctx is Load (fix afterwards)."""
    k = r["k"]
    if k == "~":
        return None
    if k == "[]":
        return [dec(x) for x in r["c"]]
    if k == "id":
        return r["v"]
    if k == "lit":
        v = r["v"]
        if v.startswith("s:"):
            return v[2:] if "\\" not in v else v[2:].encode("ascii").decode("unicode_escape")
        if v in ("None", "True", "False", "Ellipsis"):
            return {"None": None, "True": True, "False": False, "Ellipsis": ...}[v]
        typ, _, rep = v.partition(":")
        if "\\" in rep:
            rep = rep.encode("ascii").decode("unicode_escape")
        if typ in ("float", "complex"):
            return {"float": float, "complex": complex}[typ](rep)
        return ast.literal_eval(rep)
    cls = getattr(ast, k)
    fields = [f for f in cls._fields if f != "ctx"]
    n = cls(**{f: dec(x) for f, x in zip(fields, r["c"])})
    if "ctx" in cls._fields:
        n.ctx = ctxcls()
    if r["p"] not in ("", "?"):
        for a, x in zip(LOC, r["p"].split(":")):
            setattr(n, a, int(x))
    return n
