"""C23: from a source path to its module name, against PathModule.tla."""
import common, tlc

INV = ["NoLinks", "RefusedOutside", "RootAbove", "RoundTrip", "PkgRight", "Report"]


def wr(w):
    return ("T/" if w["abs"] else "") + "/".join(w["c"])


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    stride = 11 if c.thorough else 401
    r = tlc.run("PathModuleMC", {"Stride": str(stride), "Offset": str(c.rng.randrange(stride)), "In": "<- In_", "N": "<- Count", "Dirs": "<- Dirs_",
                                 "Files": "<- Files_", "Links": "<- Links_", "HomeDir": "<- HomeDir_"}, INV)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    fs = [x for x in r.reports if "dirs" in x][0]
    reps = sorted((x for x in r.reports if "id" in x), key=lambda x: x["id"])
    for x in reps:
        x["fs"] = fs
    mtimes = {tuple(f): 1000 + i if f[-1] == "mac.py" else 0 for i, f in enumerate(sorted(fs["files"]))}
    res = common.run_jobs("real_paths.py", reps, per_chunk_max=len(reps) // 16 + 1)
    for x, g in zip(reps, res):
        c.traces += 1
        where = "search path %s, in T/%s: %s (level %d)" % ([wr(e) for e in x["entries"]], "/".join(x["cwd"]), wr(x["query"]), x["level"])
        if "_dead" in g:
            c.violation(where + ": " + g["_dead"][-400:], x)
            continue
        o = x["out"]
        pairs = [("relative path", o["rel"], g["rel"]),
                 ("search path entry", {k: v for k, v in o["rel"].items() if k != "rel"}, g["match"]),
                 ("search path entry for a Path", {k: v for k, v in o["rel"].items() if k != "rel"}, g["rel2"]),
                 ("package", {"kind": "ok", "name": o["pkg"]["rel"]} if o["pkg"]["kind"] == "ok" else o["pkg"], g["pkg"])]
        if "found" in g:
            f = dict(o["found"])
            f.pop("path", None)
            pairs.append(("Python's import of %s" % ".".join(o["name"]), f, g["found"]))
        m = o["mac"]
        if "mac" in g:
            w = dict(m, same=True) if m["kind"] == "ok" else {"kind": "ModuleNotFoundError"} if m["kind"] in ("NotFound", "NoParent") else m
            pairs.append(("relative macro-import", w, g["mac"]))
        if "stats" in g:
            w = {"kind": "ok", "mtime": mtimes[tuple(m["file"])]} if m["kind"] == "ok" else {"kind": "ok", "mtime": 0} if m["kind"] == "NotFound" else \
                {"kind": "ModuleNotFoundError"} if m["kind"] == "NoParent" else m
            pairs.append(("time of the macros of the file", w, g["stats"]))
        for what, want, got in pairs:
            if want != got:
                c.violation("%s: %s: want %s got %s" % (where, what, want, got), {"job": x, "got": g})
                break
        else:
            if o["name"]:
                c.sample({"what": where, "name": ".".join(o["name"])}, 4)
    c.assumptions = ["Symbolic links are resolved before matching, and the deepest matching search-path entry counts; directory names with dots are not included.",
                     "Python's import is specified as PyFind and compared with importlib's path finder for every name."]
    return c.finish()
