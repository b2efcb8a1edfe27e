"""Snippets that cover the syntax of Python 3.12, and random programs."""
import ast, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
STMTS = open(os.path.join(HERE, "corpus_stmts.txt"), encoding="utf8").read()
EXPRS = open(os.path.join(HERE, "corpus_exprs.txt"), encoding="utf8").read()


def split(text):
    out, lines = [], text.strip("\n").split("\n")
    while lines:
        x = lines.pop(0)
        if x.count('"""') % 2 == 1:
            x += "\n" + lines.pop(0)
        if x.startswith("@"):
            while x.split("\n")[-1].startswith("@"):
                x += "\n" + lines.pop(0)
        out.append(x)
    return out


def stmts():
    # "|" separates lines (not in expressions)
    out = []
    for x in split(STMTS):
        parts = x
        try:
            ast.parse(x)
        except SyntaxError:
            parts = x.replace("|    ", "\n    ")
            parts = re.sub(r"\|(?=(else|elif|except|finally)\b)", "\n", parts)
        out.append(parts)
    return out


def exprs():
    return split(EXPRS)


def ok(src, mode="exec"):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ast.parse(src, mode=mode)
            return True
        except SyntaxError:
            return False


if __name__ == "__main__":
    for s in stmts():
        if not ok(s):
            print("bad", repr(s))
    for s in exprs():
        if not ok(s, "eval"):
            print("bad", repr(s))
    kinds = {type(n).__name__ for s in stmts() + exprs() if ok(s) for n in ast.walk(ast.parse(s))}
    print(len(stmts()), len(exprs()), sorted({k for k, v in vars(ast).items() if isinstance(v, type) and issubclass(v, ast.AST) and not v.__subclasses__()} - kinds))
