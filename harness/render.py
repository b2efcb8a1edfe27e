"""Renders trees of the specification as the debug aids would show them."""
import json, sys, textwrap, warnings
warnings.simplefilter("ignore")
import real_clean, trees
from mcpyrate.unparser import unparse_with_fallbacks


def fix(r):
    if r["k"] == "Constant" and r["c"] and r["c"][0]["v"].startswith("cov:"):
        line = int(r["p"].split(":")[0])
        return dict(r, c=[trees.rec("lit", "s:%s:%d invoked macro '%s'" % (real_clean.FILENAME, line, r["c"][0]["v"][4:])), r["c"][1]])
    return dict(r, c=[fix(x) for x in r["c"]])


def main(fin, fout):
    out = open(fout, "a")
    for line in open(fin):
        job = json.loads(line)
        t = real_clean.dec(fix(job["tree"]), {})
        txt = unparse_with_fallbacks(t, debug=True)
        out.write(json.dumps({"_i": job["_i"], "text": [trees.asc(x) for x in txt.split("\n")]}) + "\n")


if __name__ == "__main__":
    sys.setrecursionlimit(5000)
    main(sys.argv[1], sys.argv[2])
