"""C05: macro-imports, against MacroImports.tla."""
import json
import common, tlc
from real_imports_src import source

INV = ["ExactlyImported", "LastWins", "NoMacroNameLeft", "SamePlaces", "LoadedOnce", "Report"]


def compare(c, reps, label):
    res = common.run_jobs("real_imports.py", [x["inp"] for x in reps])
    for x, g in zip(reps, res):
        c.traces += 1
        inp = x["inp"]
        where = "%s: place %s self %r reload %s:\n%s" % (label, inp["place"], inp["self"], inp["reload"], "\n".join(source(s) for s in inp["prog"]))
        if "_dead" in g:
            c.violation(where + "\n crash: " + g["_dead"][-300:], inp)
            continue
        want = {"status": x["status"], "loads": x["loads"]}
        if x["status"] == "ok":
            b = x["bind"] or {}
            want["bind"] = {k: [".".join(v["m"]), v["n"], v["g"]] for k, v in b.items()}
            want["out"] = x["out"]
            want["names"] = sorted(x["names"])
            want["uses"] = ["%s:%s#%d" % tuple(want["bind"][n]) if n in want["bind"] else "-" for n in "mnkz"]
        got = {k: v for k, v in g.items() if k != "_i"}
        if got != want:
            d = {k: (want.get(k), got.get(k)) for k in set(want) | set(got) if want.get(k) != got.get(k)}
            c.violation(where + "\n  (wanted, got): " + json.dumps(d, sort_keys=True)[:400], {"input": inp, "want": want, "got": got})
        else:
            c.sample({"program": where, "outcome": got}, 3)


def rand_inputs(c, n):
    R = c.rng
    out = []
    for _ in range(n):
        prog = []
        for _ in range(R.randint(2, 7)):
            k = R.random()
            if k < .12:
                prog.append({"k": "plain", "lv": 0, "m": [], "names": [], "nest": False})
                continue
            if k < .2:
                prog.append({"k": "import", "lv": 0, "m": R.choice([["a"], ["pkg"], ["pkg", "mod"], ["mod"]]), "names": [], "nest": False})
                continue
            lv = R.choice([0, 0, 0, 1, 1, 2]) if R.random() < .95 else 3
            m = R.choice([["a"], ["mod"], ["pkg"], ["pkg", "mod"], ["pkg", "sub", "mod"], ["pkg", "sub", "deep"], ["__self__"]]) if lv == 0 else \
                R.choice([["mod"], ["mod"], ["sub", "deep"], ["sub"], ["deep"]])
            if R.random() < .03:
                m = R.choice([["nope"], ["pkg", "zip"], ["broken"]])
            names = []
            for _ in range(R.choice([1, 1, 2, 3])):
                nm = R.choice(["m", "n", "k"]) if R.random() < .97 else R.choice(["v", "zz"])
                names.append({"n": nm, "a": R.choice(["", "", "m", "n", "k", "z"])})
            mac = lv > 0 or m == ["__self__"] or R.random() < .85
            if mac:
                names = [{"n": "macros", "a": ""}] + names
            elif m[0] not in ("a", "mod", "pkg"):
                continue
            prog.append({"k": "from", "lv": lv, "m": m, "names": names, "nest": False})
        out.append({"prog": prog, "place": R.choice(["top", "pkg", "pkginit", "sub", "sub", "subinit", "subinit", "outside"]),
                    "self": R.choice(["", "selfm", "selfm"]), "reload": R.random() < .3})
    return out


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["the world of importable modules is the one in MacroImports.tla"]
    stride = 11 if c.thorough else 101
    r = tlc.run("MacroImports", {"In": "<- MCIn", "NumIn": "<- MCNum", "Stride": str(stride), "Offset": str(c.seed % stride)}, INV)
    if r.violated:
        raise tlc.TLCError("the specification violates %s\n%s" % (r.violated, r.output[-2000:]))
    c.tlc(r)
    compare(c, r.reports, "pair")
    c.extra["model_programs_replayed"] = len(r.reports)
    inputs = rand_inputs(c, 6000 if c.thorough else 1500)
    r = tlc.run("MacroImports", {"In": "<- JsonIn", "NumIn": "<- JsonNum", "Stride": "1", "Offset": "0"}, INV,
                files={"input.json": json.dumps(inputs)})
    if r.violated:
        raise tlc.TLCError("the specification violates %s\n%s" % (r.violated, r.output[-2000:]))
    c.tlc(r)
    compare(c, r.reports, "random")
    c.extra["random_programs"] = len(r.reports)
    return c.finish()
