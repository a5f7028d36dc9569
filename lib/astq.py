"""Helpers over the syntax trees written by tools/astdump."""


def kids(n):
    return [x for x in n.get("c", ()) if x is not None]


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st.extend(reversed(x.get("c", ())))


def walkp(n, path=()):
    """(node, ancestors outermost first)"""
    st = [(n, ())]
    while st:
        x, p = st.pop()
        if x is None:
            continue
        yield x, p
        q = p + (x,)
        for c in reversed(x.get("c", ())):
            st.append((c, q))


TRANSPARENT = {"ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr",
               "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr"}


def strip(n):
    """Look through parentheses, casts and temporaries, and elidable copies."""
    while n is not None:
        if n["k"] in TRANSPARENT and kids(n):
            n = kids(n)[0]
        elif n["k"] == "CXXConstructExpr" and n.get("copy") and len(kids(n)) == 1:
            n = kids(n)[0]
        else:
            return n
    return n


def callee_object(n):
    """The implicit object of a member call."""
    if n["k"] == "CXXMemberCallExpr":
        m = strip(kids(n)[0])
        if m["k"] == "MemberExpr" and kids(m):
            return kids(m)[0]
    if n["k"] == "CXXOperatorCallExpr" and len(kids(n)) > 1:
        return kids(n)[1]
    return None


def args(n):
    c = kids(n)
    if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return c
    return c[1:]


def asserted(n):
    """Does the node come out of an assertion?"""
    return any(m.split("#")[0] == "PLY_ASSERT" for m in n.get("m", ()))


def where(f, n=None):
    return "%s:%d (%s)" % (f["file"], (n or f)["l"], f["n"])
