"""C19: cleaning bytecode caches, against Cleaner.tla."""
import json
import common, tlc

INV = ["OnlyCaches", "NothingNew", "DryDeletesNothing", "AllGone", "ListRight", "LockedKept", "Shape", "Report"]


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    stride = 1213 if c.thorough else 6007
    r = tlc.run("CleanerMC", {"Stride": str(stride), "Offset": str(c.rng.randrange(stride)), "In": "<- In_", "N": "<- Count"}, INV)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    by = {}
    for x in r.reports:
        by.setdefault(x["id"], []).append(x)
    ids = sorted(by)
    res = common.run_jobs("real_cleaner.py", [by[i][0] for i in ids], per_chunk_max=max(1, len(ids) // 16 + 1))
    for i, g in zip(ids, res):
        j = by[i][0]
        c.traces += 1
        caches = sorted(j["listed"])
        where = "%s %s%s%s caches %s" % ({1: "delete", 2: "delete", 3: "list", 4: "-c", 5: "-c -n"}[j["how"]], "/".join(j["root"]),
                                         " gone " + "/".join(j["gone"]) if j["gone"] else "", " locked " + "/".join(j["locked"]) if j["locked"] else "",
                                         ["/".join(x) for x in caches])
        if "_dead" in g:
            c.violation(where + ": " + g["_dead"][-400:], j)
            continue
        outs = {x["out"] for x in by[i]}
        want = sorted([e["p"], e["k"]] for e in j["fs"])
        if want != g["before"]:
            raise RuntimeError("harness: scratch tree not as specified: %s" % (where,))
        bad = None
        if outs == {"failed"}:
            if not g["out"].startswith("failed"):
                bad = "a directory that cannot be emptied gives %s" % g["out"]
            mayGo = {tuple(e["p"]) for e in j["fs"] if any(e["p"][:len(d)] == d for d in caches)} - {tuple(e["p"]) for e in j["fs"] if e["p"][:-1] == j["locked"] and len(e["p"]) > 1}
            lost = [x for x in want if x not in g["after"] and tuple(x[0]) not in mayGo]
            if lost:
                bad = "removed %s" % lost[:3]
            if [x for x in g["after"] if x not in want]:
                bad = "changed %s" % [x for x in g["after"] if x not in want][:3]
        elif "failed" in outs:
            raise RuntimeError("mixed outcomes %s" % where)
        else:
            after = sorted([e["p"], e["k"]] for e in by[i][0]["after"])
            if len({json.dumps(sorted(e["p"] for e in x["after"])) for x in by[i]}) != 1:
                raise RuntimeError("the specification has several outcomes: " + where)
            if g["out"] != by[i][0]["out"]:
                bad = "want %s got %s" % (by[i][0]["out"], g["out"])
            elif after != g["after"]:
                bad = "wrongly removed %s, wrongly kept %s" % ([x for x in after if x not in g["after"]][:3], [x for x in g["after"] if x not in after][:3])
            elif g["code"] not in (0, None):
                bad = "exit status %s" % g["code"]
        if not bad and g["listed"] is not None and g["listed"] != caches:
            bad = "listed %s" % g["listed"]
        if bad:
            c.violation(where + ": " + bad, {"job": j, "got": g})
        elif j["listed"]:
            c.sample({"what": where, "outcome": g["out"]}, 4)
    c.assumptions = ["Run as an unprivileged user in scratch directories; names with spaces, newlines and leading dots are included, unreadable directories are not.",
                     "A symbolic link named __pycache__ to a directory is listed and itself removed; its target must stay."]
    return c.finish()
