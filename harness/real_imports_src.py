def source(s):
    if s["k"] == "plain":
        return "x = 1"
    if s["k"] == "import":
        return "import " + ".".join(s["m"])
    t = "from %s%s import %s" % ("." * s["lv"], ".".join(s["m"]),
                                 ", ".join(n["n"] + (" as " + n["a"] if n["a"] else "") for n in s["names"]))
    return "if True:\n    " + t if s["nest"] else t


