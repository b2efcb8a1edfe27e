"""Carries out the plans of Clean.tla in the real code."""
import ast, json, sys, types, warnings
warnings.simplefilter("ignore")
import trees
from trees import rec, NIL
from mcpyrate import core, compiler, markers

FILENAME = "/nowhere/prog.py"


class UMark(markers.ASTMarker):
    pass


CLS = {"UMark": UMark, "Done": core.Done}
CTX = {"": ast.Load, "c:Store": ast.Store, "c:Del": ast.Del}


def dec(r, shared):
    k, tag = r["k"], r["v"]
    if k in ("~", "id", "lit"):
        return trees.dec(r)
    if k == "[]":
        return [dec(x, shared) for x in r["c"]]
    if tag in shared:
        return shared[tag]
    cls = CLS.get(k) or getattr(ast, k)
    if k in CLS:
        return cls(dec(r["c"][0], shared))
    n = cls(**{f: dec(x, shared) for f, x in zip([f for f in cls._fields if f != "ctx"], r["c"])})
    if "ctx" in cls._fields:
        if tag != "c:none":
            n.ctx = CTX.get(tag, ast.Load)()
    if tag.startswith("#"):
        shared[tag] = n
    if r["p"] not in ("", "?"):
        for a, x in zip(trees.LOC, r["p"].split(":")):
            setattr(n, a, int(x))
    return n


def enc(t):
    """With the ctx of each node in its v."""
    if isinstance(t, list):
        return rec("[]", c=[enc(x) for x in t])
    if not isinstance(t, ast.AST):
        return trees.enc(t)
    if type(t).__name__ == "Constant":
        return trees.enc(t, filename=FILENAME)
    r = rec(type(t).__name__, "", trees.posof(t), [enc(getattr(t, f, None)) for f in t._fields if f != "ctx"])
    if "ctx" in t._fields:
        c = getattr(t, "ctx", None)
        r["v"] = type(c).__name__ if c is not None else "none"
    return r


def main(fin, fout):
    mod = types.ModuleType("vp_macros")
    box = {}

    def put(tree, **kw):
        return dec(box["t"], {})
    mod.put = put
    sys.modules["vp_macros"] = mod
    log = []

    def inner(t):
        # the macro-import at line 1 is not part of the observation
        m = enc(t)
        m["c"][0]["c"] = [s for s in m["c"][0]["c"] if not s["p"].startswith("0001:")]
        return m

    def mk(h):
        def hook(tree):
            log.append({"e": "hook", "h": h, "t": inner(tree)})
            e = ast.Expr(value=ast.Constant(value=h))
            if h in ("a", "b"):
                tree.body.append(e)
                return tree
            if h == "w":
                return ast.Module(body=[e] + tree.body, type_ignores=[])
            if h == "d":
                return markers.delete_markers(tree, cls=UMark)
            tree.body.append(UMark(e))
            return tree
        return hook
    H = {h: mk(h) for h in "abwdu"}
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        del core.global_postprocessors[:]
        del log[:]
        for op in job["plan"]:
            if op["op"] == "add":
                core.add_postprocessor(H[op["h"]])
            elif op["op"] == "rem":
                core.remove_postprocessor(H[op["h"]])
            else:
                box["t"] = rec("[]", c=op["t"])
                try:
                    m = compiler.expand("from vp_macros import macros, put\nwith put:\n    pass\n", FILENAME)
                    log.append({"e": "out", "h": "", "t": inner(m)})
                except core.MacroExpansionError as err:
                    log.append({"e": "err", "h": "markers" if "markers remaining" in str(err) else trees.asc(str(err)[:200]), "t": NIL})
                except Exception as err:
                    log.append({"e": "err", "h": trees.asc(repr(err)[:200]), "t": NIL})
        out.write(json.dumps({"_i": job["_i"], "log": log}) + "\n")
        out.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
