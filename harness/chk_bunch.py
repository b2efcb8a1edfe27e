"""C26: bunches, against Bunch.tla."""
import itertools, json
import common, tlc

KEYS = ["a", "b", "get", "keys", "__len__", "copy"]


def op(name, h=1, g=1, k="a", v="x", kw=()):
    return {"op": name, "h": h, "g": g, "k": k, "v": v, "kw": [{"k": a, "v": b} for a, b in kw]}


LOOK = ["getattr", "getattrdef", "hasattr", "getitem", "in", "get", "getdef"]
WRITE = ["setattr", "setitem", "delattr", "delitem", "pop", "popdef", "setdefault", "setdefault0"]
PLAIN = ["popitem", "clear", "len", "list", "repr"]
MAKE = ["bunchify", "copy", "deepcopy", "pickle"]


def alphabet(hs):
    out = []
    for h in hs:
        for k in ("a", "b", "get"):
            out += [op(n, h, k=k) for n in LOOK + WRITE]
        out += [op(n, h) for n in PLAIN + MAKE]
        out.append(op("update", h, kw=[("b", "y"), ("a", "z")]))
        for g in hs:
            out += [op(n, h, g) for n in ("eq", "ne", "replace")]
    return out


STARTS = [[op("bunch", kw=[("a", "x")]), op("dict", kw=[("b", "y")])],
          [op("dict", kw=[("a", "x"), ("b", "None")]), op("bunchify", 1)],
          [op("bunch"), op("bunch", kw=[("b", "y"), ("a", "x")])],
          [op("bunch", kw=[("b", "x"), ("a", "y")]), op("twin", 1, k="bunch")],
          [op("dict", kw=[("b", "x"), ("a", "None")]), op("twin", 1, k="bunch")],
          [op("dict", kw=[("no name", "x")]), op("bunch", kw=[("get", "x"), ("c", "z")])]]


def randop(r, n):
    h, g = r.randint(1, max(1, n)), r.randint(1, max(1, n))
    k, v = r.choice(KEYS + ["a", "b", "c", "c"]), r.choice(["x", "y", "z", "None"])
    kw = [(x, r.choice(["x", "y", "z", "None"])) for x in r.sample(["a", "b", "c", "get"], r.randint(0, 3))]
    x = r.random()
    if x < .05 or n == 0:
        return op(r.choice(["bunch", "dict"]), kw=kw)
    if x < .1 and n < 5:
        return op("twin", h, k=r.choice(["bunch", "dict"]))
    if x < .17 and n < 5:
        return op(r.choice(MAKE), h)
    if x < .3:
        return op(r.choice(["eq", "ne", "replace"]), h, g)
    if x < .42:
        return op(r.choice(PLAIN), h)
    if x < .5:
        return op("update", h, kw=kw)
    if x < .52:
        return op("setitem", h, k="no name", v=v)
    return op(r.choice(LOOK + WRITE + WRITE), h, k=k, v=v)


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    progs = []
    for s in STARTS:
        al = alphabet([1, 2])
        for x in al:
            for y in (al if c.thorough else c.rng.sample(al, 12)):
                progs.append(s + [x, y] + [op("list", 1), op("list", 2)])
    model = len(progs)
    for _ in range(6000 if c.thorough else 1200):
        n, p = 0, []
        for _ in range(c.rng.choice([6, 10, 16])):
            o = randop(c.rng, n)
            p.append(o)
            if o["op"] in ("bunch", "dict", "copy", "deepcopy", "pickle", "twin"):
                n += 1          # (bunchify need not make one)
        progs.append(p)
    for k in range(0, len(progs), 3000):
        part = progs[k:k + 3000]
        r = tlc.run("Bunch", {"In": "<- JIn", "N": "<- JN"}, ["Keyed", "Report"], ["Apart", "Kept", "Pure"], files={"input.json": json.dumps(part)})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        reps = sorted(r.reports, key=lambda x: x["id"])
        if len(reps) != len(part):
            raise tlc.TLCError("%d of %d answers\n%s" % (len(reps), len(part), r.output[-2000:]))
        for p, x, g in zip(part, reps, common.run_jobs("real_bunch.py", [{"ops": p} for p in part])):
            c.traces += 1
            what = "; ".join("%s(%s)" % (o["op"], ", ".join([str(o["h"])] + [str(o["g"])] * (o["op"] in ("eq", "ne", "replace")) + [o["k"], o["v"]] + ["%(k)s=%(v)s" % y for y in o["kw"]])) for o in p)
            if "_dead" in g:
                c.violation(g["_dead"][-300:] + ": " + what, {"ops": p})
                continue
            for n, (a, b) in enumerate(zip(x["out"], g["out"])):
                if a != b:
                    c.violation("operation %d gives %s, not %s: %s" % (n + 1, json.dumps(b), json.dumps(a), what), {"ops": p, "want": x["out"], "got": g["out"]})
                    break
            else:
                c.sample({"ops": what, "last": x["out"][-1]}, 4)
    c.extra.update(exhaustive_programs=model, random_programs=len(progs) - model)
    c.assumptions = ["Keys of keyword form are identifiers; the private attributes are not touched.", "What `copy.copy` of a bunch shares is not specified."]
    return c.finish()
