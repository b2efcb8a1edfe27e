"""What the macros of the sessions of C25 do."""
import ast


def named(f):
    from mcpyrate import namemacro
    return namemacro(f)


def act(id, beh, to, tree, kw):
    if beh == "raise":
        raise ZeroDivisionError(id)
    if beh == "bad":
        return 42
    if beh == "badtree":
        return ast.BinOp(left=ast.Constant(value=1), op=ast.Constant(value=2), right=tree)
    if beh == "emit":
        return ast.Subscript(value=ast.Name(id=to, ctx=ast.Load()), slice=tree, ctx=ast.Load())
    if kw["syntax"] == "name":
        return ast.Constant(value=id)
    return ast.Tuple(elts=[ast.Constant(value=id), tree], ctx=ast.Load())


def closure(id, beh, to):
    def wrapper(tree, **kw):
        return act(id, beh, to, tree, kw)
    wrapper.__doc__ = "doc " + id
    return named(wrapper) if beh == "name" else wrapper


def lam(id, beh, to):
    f = lambda tree, **kw: act(id, beh, to, tree, kw)
    f.__doc__ = "doc " + id
    return named(f) if beh == "name" else f


def source(f, indent="", decorator=""):
    """Source code of the definition of f."""
    lib = "__import__('vrepl_lib')"
    if f["b"] == "const":
        ls = ["%s = %d" % (f["n"], f["v"])]
    elif f["nm"] == "wrapper":
        ls = ["%s = %s.closure(%r, %r, %r)" % (f["n"], lib, f["id"], f["b"], f["to"])]
    elif f["nm"] == "<lambda>":
        ls = ["%s = %s.lam(%r, %r, %r)" % (f["n"], lib, f["id"], f["b"], f["to"])]
    else:
        ls = ["@" + decorator] if decorator else []
        ls += ["@%s.named" % lib] if f["b"] == "name" else []
        ls += ["def %s(tree, **kw):" % f["n"], "    'doc %s'" % f["id"], "    return %s.act(%r, %r, %r, tree, kw)" % (lib, f["id"], f["b"], f["to"])]
    return [indent + x for x in ls]
