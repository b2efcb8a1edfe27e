"""Renames names in trees."""
import ast, json, sys, warnings
warnings.simplefilter("ignore")
import trees
from real_splice import dec
from mcpyrate.utils import rename

out = open(sys.argv[2], "a")
for line in open(sys.argv[1]):
    job = json.loads(line)
    t = dec(job["tree"])
    flaws = []
    r = rename(job["old"], job["new"], t)
    if r is not t:
        flaws.append("the tree is not renamed in place")
    first = trees.enc(r)
    r = rename(job["new"], job["old"], r)
    out.write(json.dumps({"_i": job["_i"], "first": first, "tree": trees.enc(r), "flaws": flaws}) + "\n")
    out.flush()
