"""Runs operations on real bunches and dictionaries."""
import collections.abc, copy, json, pickle, sys
from mcpyrate.bunch import Bunch, bunchify

ABCS = ("Mapping", "MutableMapping", "Container", "Iterable", "Sized")
OBJ = {}


class Obj:
    def __new__(cls, name):
        if name not in OBJ:
            OBJ[name] = object.__new__(cls)
            OBJ[name].name = name
        return OBJ[name]

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return Obj(self.name + "'")

    def __reduce__(self):
        return (Obj, (self.name + "'",))


def val(x):
    return None if x == "None" else Obj(x)


def text(s):
    return ", ".join("%s=%s" % (k, v) for k, v in s)


def run(hs, o):
    op, k = o["op"], o["k"]
    v = val(o["v"])
    kw = {x["k"]: val(x["v"]) for x in o["kw"]}
    if op == "bunch":
        hs.append(Bunch(**kw))
        return "new"
    if op == "dict":
        hs.append(dict(kw))
        return "new"
    h, g = hs[o["h"] - 1], hs[o["g"] - 1]
    b = type(h) is Bunch
    if op == "bunchify":
        r = bunchify(h)
        if r is h:
            return "same"
        hs.append(r)
        return "new"
    if op == "twin":
        d = {} if k == "dict" else Bunch()
        for a, x in reversed(list(h.items())):
            d[a] = x
        hs.append(d)
        return "new"
    if op in ("copy", "deepcopy", "pickle"):
        hs.append(h.copy() if op == "copy" else copy.deepcopy(h) if op == "deepcopy" else pickle.loads(pickle.dumps(h)))
        return "new"
    if not b and op in ("replace", "getattr", "getattrdef", "hasattr", "setattr", "delattr", "repr"):
        return "skip"
    if op == "replace":
        return h.replace(g)
    if op == "getattr":
        return getattr(h, k)
    if op == "getattrdef":
        return getattr(h, k, v)
    if op == "hasattr":
        return hasattr(h, k)
    if op == "setattr":
        return setattr(h, k, v)
    if op == "delattr":
        return "skip" if k in ("get", "keys", "pop", "copy", "replace", "items", "__len__") else delattr(h, k)
    if op == "getitem":
        return h[k]
    if op == "setitem":
        h[k] = v
        return None
    if op == "delitem":
        del h[k]
        return None
    if op == "in":
        return k in h
    if op == "get":
        return h.get(k)
    if op == "getdef":
        return h.get(k, v)
    if op == "pop":
        return h.pop(k)
    if op == "popdef":
        return h.pop(k, v)
    if op == "popitem":
        r = h.popitem()
        return "%s:%s" % r if type(r) is tuple else "not a pair"
    if op == "clear":
        return h.clear()
    if op == "update":
        return h.update(**kw)
    if op == "setdefault":
        return h.setdefault(k, v)
    if op == "setdefault0":
        return h.setdefault(k)
    if op == "len":
        return str(len(h))
    if op == "list":
        r = list(h.items())
        if not (list(h) == list(h.keys()) == [x for x, y in r] and list(h.values()) == [y for x, y in r] and bool(h) == bool(r)):
            return "views differ"
        if not all(isinstance(h, getattr(collections.abc, a)) for a in ABCS):
            return "not a mapping"
        return text(r)
    if op == "eq":
        r = h == g
        return r if r == (g == h) else "unequal the other way round"
    if op == "ne":
        r = h != g
        return r if r == (g != h) else "unequal the other way round"
    if op == "repr":
        return repr(h)


def main():
    out = open(sys.argv[2], "a")
    for line in open(sys.argv[1]):
        job = json.loads(line)
        hs, got = [], []
        for o in job["ops"]:
            before = list(hs)
            try:
                r = run(hs, o)
                if callable(r):
                    r = "method"
                elif isinstance(r, (bool, type(None), Obj)):
                    r = str(r)
            except Exception as e:
                r = type(e).__name__
            if any(x is not y for x, y in zip(before, hs)):
                r = "handles changed"
            got.append({"ret": r, "obs": [[{"k": k, "v": str(v)} for k, v in h.items()] for h in hs]})
        out.write(json.dumps({"_i": job["_i"], "out": got}) + "\n")
        out.flush()


main()
