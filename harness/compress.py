"""Replace macro-free code of the input program by opaque leaves, in the program
and in every recorded tree. A leaf's name is a function of the exact content
(structure and positions), so equal leaves mean equal code."""
SKIP = {"[]", "~", "id", "lit", "Tuple", "Subscript", "Call", "Name", "Constant", "withitem"}


class Compressor:
    def __init__(self, bound):
        self.bound = set(bound)
        self.table = {}

    def key(self, r):
        return (r["k"], r["v"], r["p"], tuple(self.key(c) for c in r["c"]))

    def mentions(self, r):
        if r["k"] == "id" and r["v"] in self.bound:
            return True
        if r["k"] == "Done":
            return True
        return any(self.mentions(c) for c in r["c"])

    def size(self, r):
        return 1 + sum(map(self.size, r["c"]))

    def learn(self, r):
        if r["k"] not in SKIP and r["p"] and not self.mentions(r) and self.size(r) >= 5:
            self.table.setdefault(self.key(r), {"k": "lit", "v": "#%d" % len(self.table), "p": r["p"], "c": []})
            return
        for c in r["c"]:
            self.learn(c)

    def apply(self, r):
        if r["k"] not in SKIP and r["p"]:
            x = self.table.get(self.key(r))
            if x is not None:
                return x
        if not r["c"]:
            return r
        return {"k": r["k"], "v": r["v"], "p": r["p"], "c": [self.apply(c) for c in r["c"]]}
