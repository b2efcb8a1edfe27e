"""Splices code into templates and reports the results, and which nodes are whose."""
import ast, json, sys, warnings
warnings.simplefilter("ignore")
import trees
from mcpyrate import coreutils, splicing
from mcpyrate.markers import ASTMarker


class Mk(ASTMarker):
    pass


def dec(r):
    """Like trees.dec, with markers."""
    if r["k"] == "Mk":
        return Mk(dec(r["c"][0]))
    if r["k"] in ("~", "id", "lit"):
        return trees.dec(r)
    if r["k"] == "[]":
        return [dec(x) for x in r["c"]]
    cls = getattr(ast, r["k"])
    n = cls(**{f: dec(x) for f, x in zip([f for f in cls._fields if f != "ctx"], r["c"])})
    if "ctx" in cls._fields:
        n.ctx = ast.Load()
    if r["p"] not in ("", "?"):
        for a, x in zip(trees.LOC, r["p"].split(":")):
            setattr(n, a, int(x) if x != "None" else None)
    return n


def nodes(t):
    if isinstance(t, list):
        for x in t:
            yield from nodes(x)
    elif isinstance(t, ast.AST):
        yield t
        for f in t._fields:
            if f != "ctx":
                yield from nodes(getattr(t, f, None))


def main(fin, fout):
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        x = job["in"]
        body, tmpl = dec(x["body"]), dec(x["tmpl"])
        mine = {id(n): n for n in nodes(body)}
        theirs = {id(n): n for n in nodes(tmpl)}
        kw = {} if x["tag"] == "__paste_here__" and job["_i"] % 2 else {"tag": x["tag"]}
        res = {"_i": job["_i"], "err": "", "flaws": []}
        try:
            if x["op"] == "expr":
                got = splicing.splice_expression(body, tmpl, **kw)
            elif x["op"] == "stmts":
                got = splicing.splice_statements(body, tmpl, **kw)
            elif x["op"] == "inject":
                got = coreutils.inject_after_futureimports(body, tmpl)
            else:
                if x["loc"]:
                    p = x["loc"].split(":")
                    kw.update(lineno=int(p[0]), col_offset=int(p[1]))
                got = splicing.splice_dialect(body, tmpl, **kw)
            res["out"] = trees.enc(got)
        except (TypeError, ValueError) as err:
            res["err"] = type(err).__name__
            out.write(json.dumps(res) + "\n")
            continue
        # every node of the result is there once; the first paste is the code itself, others are copies
        seen = {}
        for n in nodes(got):
            if id(n) in seen:
                res["flaws"].append("a %s node is in two places" % type(n).__name__)
                break
            seen[id(n)] = n
        copies = job["copies"]
        have = sum(1 for i in mine if i in seen)
        if x["op"] in ("expr", "stmts") and (copies or tmpl in ([], None)) and have != len(mine):
            res["flaws"].append("the code itself is not in the result")
        if x["op"] in ("expr", "stmts") and not copies and tmpl and have:
            res["flaws"].append("the code is in the result, without a marker")
        if x["op"] == "inject" and set(seen) != set(mine) | set(theirs):
            res["flaws"].append("not the statements themselves")
        if isinstance(tmpl, (list, ast.AST)) and tmpl and x["op"] not in ("dialect", "inject") and isinstance(x["tmpl"], dict):
            if isinstance(tmpl, list) and got is not tmpl:
                res["flaws"].append("the result is not the template itself")
            if isinstance(tmpl, ast.AST) and x["op"] == "expr" and copies and got is not tmpl and got is not body:
                res["flaws"].append("the result is not the template itself")
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main(*sys.argv[1:])
