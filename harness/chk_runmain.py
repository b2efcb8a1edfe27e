"""C24: running main programs, against RunMain.tla; the specification itself is compared with Python."""
import json
import common, tlc

INV = ["OneMain", "AtMostOnce", "GuardedMain", "ParentsFirst", "RefusedRight", "StatusRight", "Report"]


def expected(x):
    path0 = "/".join(x["path0"]) or "."
    log = []
    for l in x["log"]:
        f, n, p = "/".join(l["file"]), ".".join(l["name"]), ".".join(l["pkg"])
        if l["what"] == "L":
            log.append(["L", f, n, p, n == "__main__", path0])
        elif l["what"] == "phase1":
            log.append(["phase1", n])
        elif l["what"] in ("dialect", "selfmacro"):
            log.append([l["what"], n, p])
        else:
            log.append([l["what"], f, n, p])
    return log + [["bye", True] if x["out"] in ("0", "3") else ["bye"]] * x["byes"]


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    stride = 17 if c.thorough else 211
    r = tlc.run("RunMainMC", {"Stride": str(stride), "Offset": str(c.rng.randrange(stride)), "In": "<- In_", "N": "<- Count", "Files": "<- Files_",
                              "Packages": "<- Packages_", "NameSpaces": "<- NameSpaces_", "Bad": "<- Bad_"}, INV)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    files = [x for x in r.reports if "files" in x][0]["files"]
    reps = sorted((x for x in r.reports if "id" in x), key=lambda x: x["id"])
    jobs = []
    for x in reps:
        if x["out"] == "refused" and x["id"] % 6:
            continue
        x["files"] = files
        x["spell"] = (x["id"] + c.seed) % 3
        x["how"] = "module" if x["out"] not in ("error", "refused") and x["id"] % 4 == 0 else "console"
        x["more"] = x["out"] not in ("error", "refused") and x["id"] % 3 != 0 and x["how"] == "console"
        jobs.append(x)
        if x["cf"] in ("-", "SY") and x["id"] % 2:
            jobs.append(dict(x, how="python"))
    res = common.run_jobs("real_runmain.py", jobs, per_chunk_max=max(1, len(jobs) // 24 + 1))
    for x, g in zip(jobs, res):
        c.traces += 1
        what = ("%s in T/%s with %s" % ("/".join(x["script"]) + ".py" + ("", " (absolute)", " (by a link)")[x["spell"]] if x["script"] else "-m " + ".".join(x["name"]), "/".join(x["cwd"]),
                                        " ".join([x["cf"]] + x["prog"] + [x["end"]])))
        if "_dead" in g:
            c.violation(what + ": " + g["_dead"][-300:], x)
            continue
        want = expected(x)
        bad = None
        if g["log"] != want:
            i = next((i for i in range(min(len(want), len(g["log"]))) if want[i] != g["log"][i]), min(len(want), len(g["log"])))
            bad = "output line %d: want %s got %s (%s)" % (i + 1, want[i:i + 1], g["log"][i:i + 1], g["err"])
        else:
            ok = {"error": g["rc"] == 1, "refused": g["rc"] not in (0,), "0": g["rc"] == 0, "3": g["rc"] == 3, "1": g["rc"] == 1 and g["err"].endswith("stop"),
                  "interrupt": g["rc"] in (-2, 130)}[x["out"]]
            if not ok:
                bad = "exit status: want %s got %s (%s)" % (x["out"], g["rc"], g["err"])
        if bad and x["how"] == "python":
            raise RuntimeError("the specification is not what Python does: %s: %s" % (what, bad))
        if bad:
            c.violation("%s: %s: %s" % (x["how"], what, bad), {"job": x, "want": want, "got": g})
        elif x["how"] != "python":
            c.sample({"what": what, "status": x["out"], "lines": len(want)}, 4)
    c.extra["runs_of_python_agreeing_with_the_specification"] = sum(1 for x in jobs if x["how"] == "python")
    c.assumptions = ["Scripts are .py files; arguments for the program are not supported by the command line. The installed entry point is imitated by a small script.",
                     "The rest of the search path after its start is not compared."]
    return c.finish()
