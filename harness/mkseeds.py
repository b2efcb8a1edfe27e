"""Write the table of planted bugs into DESIGN.md."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRONGER = {
    "b36": "postprocessors that return new trees", "b38": "positions with column 0", "b41": "programs with few names", "b42": "programs with few names",
    "b49": "each compound statement in every block of every other", "b53": "the same quoted code evaluated repeatedly", "b55": "a second macro module with the same names",
    "b60": "all unquotes in statically expanded code",
    "b67": "several imports from mcpyrate.debug", "b72": "starred arguments in every position",
    "b47": "all parameter lists", "b77": "sampling of the stepped programs", "b81": "bunches with the same items in another order", "b82": "errors that are not Exceptions",
    "b93": "files replaced by older ones", "b90": "debug rendering of each capture compared", "b95": "sessions that delete and re-import their own macros",
    "b73": "macros that return the bare name of another macro", "b76": "original exceptions that were themselves raised from another",
}
if __name__ == "__main__":
    rows = ["| id | property | file | what it breaks | needs |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        i = os.path.basename(d)
        m = json.load(open(d + "/meta.json"))
        fs = [l.split(" b/mcpyrate/")[-1].strip() for l in open(d + "/patch.diff") if l.startswith("diff")]
        rows.append("| %s%s | %s | %s | %s | %s%s |" % (i, "+" if i in STRONGER else "", m["property"], ", ".join(fs), m["what_it_breaks"], m["needs"],
                                                   " *(added: %s)*" % STRONGER[i] if i in STRONGER else ""))
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    a, b = s.split("<!-- seeds -->")[0], s.split("<!-- /seeds -->")[1]
    open(p, "w").write(a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->" + b)
