"""Applies the fixers of locations and of contexts to trees."""
import ast, json, random, sys, warnings
warnings.simplefilter("ignore")
from mcpyrate.astfixers import fix_ctx, fix_locations
from mcpyrate.markers import ASTMarker
from mcpyrate.core import Done


class Mark(ASTMarker):
    pass


CX = ("Name", "Attribute", "Subscript", "Starred", "List", "Tuple")
ENDS = {"lineno": "end_lineno", "col_offset": "end_col_offset"}


def preorder(t, out, objs, par=0, slot=0):
    if isinstance(t, list):
        for x in t:
            preorder(x, out, objs, par, slot)
        return
    if not isinstance(t, ast.AST) or isinstance(t, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
        return
    k = type(t).__name__
    has = "lineno" in t._attributes
    g = lambda a: str(vars(t)[a]) if a in vars(t) else "?"
    objs.setdefault(id(t), (len(objs) + 1, t))
    out.append({"v": str(getattr(t, "id", getattr(t, "attr", ""))), "k": "Mark" if isinstance(t, ASTMarker) else k, "par": par, "slot": slot, "has": has, "l": g("lineno") if has else "-",
                "el": str(getattr(t, "end_lineno", None)) if has and "lineno" in vars(t) else "-", "c": g("col_offset") if has else "-",
                "ec": str(getattr(t, "end_col_offset", None)) if has and "col_offset" in vars(t) else "-",
                "cx": type(t.ctx).__name__ if "ctx" in vars(t) else "none" if k in CX else "-", "obj": objs[id(t)][0]})
    me = len(out)
    for n, f in enumerate([f for f in t._fields if f != "ctx"]):
        preorder(getattr(t, f, None), out, objs, me, n + 1)


def targets(t):
    """The ids of the nodes that are written or deleted: they stay what they are."""
    return {id(n) for x in (t if isinstance(t, list) else [t]) for n in ast.walk(x) if isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del))}


def build(job):
    R = random.Random(job["seed"])
    t = ast.parse(job["src"])
    t = t if job["as"] == "module" else t.body if job["as"] == "list" else t.body[0]
    ns = lambda: [n for x in (t if isinstance(t, list) else [t]) for n in ast.walk(x)]
    if job["mode"] == "copy":
        # names, attributes and lists of things written also where something is read
        st = targets(t)
        pool = [n for n in ns() if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n))]
        for n in ns():
            for f, v in list(ast.iter_fields(n)):
                inner = lambda x: {id(y) for y in ast.walk(x)}
                fits = lambda x: [p for p in pool if id(n) not in inner(p)]
                if isinstance(v, (ast.Name, ast.Constant)) and id(v) not in st and not isinstance(n, (ast.JoinedStr, ast.FormattedValue)) and R.random() < .6 and type(n).__module__ in ("ast", "_ast"):
                    ps = fits(v)
                    if ps and not type(n).__name__.startswith("Match"):
                        setattr(n, f, R.choice(ps))
                elif isinstance(v, list) and R.random() < .5 and not isinstance(n, ast.JoinedStr):
                    for i, x in enumerate(v):
                        ps = fits(x) if isinstance(x, (ast.Name, ast.Constant)) and id(x) not in st else ()
                        if ps and not type(n).__name__.startswith("Match"):
                            v[i] = R.choice(ps)
        for n in ns():                                  # a list in two places
            if isinstance(n, ast.If) and R.random() < .5:
                n.orelse = n.body
    if R.random() < .4:
        for n in ns():
            if R.random() < .2:
                for f, v in ast.iter_fields(n):
                    if isinstance(v, ast.expr):
                        setattr(n, f, (Mark if R.random() < .5 else Done)(v))
                        break
                    if isinstance(v, list) and v and isinstance(v[0], (ast.stmt, ast.expr)):
                        v[0] = Mark(v[0])
                        break
    p = R.choice([0, .1, .5, .9, 1])
    for n in ns():
        for a, b in ENDS.items():
            if a in vars(n) and R.random() < p:
                delattr(n, a)
                if b in vars(n):
                    delattr(n, b)
        if a in vars(n) and R.random() < .2:            # from elsewhere
            n.col_offset, n.end_col_offset = R.randint(0, 9), R.randint(10, 20)
        if job["mode"] in ("ctx", "copy") and "ctx" in n._fields:
            r = R.random()
            if r < .3 and "ctx" in vars(n):
                del n.ctx
            elif r < .8:
                n.ctx = R.choice([ast.Load, ast.Store, ast.Del])()
    k = R.choice([0, 1, 1, 1, 1, 2, 3])
    ref = ast.Constant(value=1)
    if k:
        ref.lineno, ref.col_offset = 900, 90
    if k == 1:
        ref.end_lineno, ref.end_col_offset = 901, 91
    if k == 3:
        del ref.col_offset
    return t, ref, {"has": k in (1, 2), "l": "900", "c": "90", "el": "901" if k == 1 else "None", "ec": "91" if k == 1 else "None"}


def main(fin, fout):
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        t, ref, r = build(job)
        before, after, objs = [], [], {}
        preorder(t, before, objs)
        m = job["mode"]
        u = fix_ctx(t, copy_seen_nodes=m == "copy") if m in ("ctx", "copy") else fix_locations(t, ref, mode=m)
        n = len(objs)
        preorder(u, after, objs)
        for x in after:
            if x["obj"] > n:
                x["obj"] = 0            # a new object
        lists = []
        for v in [w for x in (u if isinstance(u, list) else [u]) for y in ast.walk(x) for w in vars(y).values() if isinstance(w, list) and w]:
            lists.append(id(v))
        refs = {k: getattr(ref, k, None) for k in ("lineno", "col_offset", "end_lineno", "end_col_offset")}
        none = fix_locations(None, ref, mode="reference") is None
        out.write(json.dumps({"_i": job["_i"], "nodes": before, "ref": r, "after": after, "same": u is t, "none": none,
                              "refs": [str(refs[k]) for k in refs]}) + "\n")
        out.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
