"""Structured forward dataflow over the syntax trees of tools/astdump.

A client subclasses Flow and keeps its facts in self.st (None: unreachable). The walker follows evaluation order, the
short-circuit operators, branches, loops (to a fixed point, at most MAXLOOP turns), switch, break, continue, return,
goto and labels. visit(n) is called after the operands of n; refine(e, truth) when a condition is known to be true or
false; use of lambda bodies is walked in place, as if called once or not at all.
"""
from astq import kids, strip

LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
NORETURN = {"abort", "exit", "_exit", "__builtin_trap", "__builtin_unreachable", "longjmp", "std::abort", "std::exit", "std::terminate"}


class Flow:
    MAXLOOP = 4

    def __init__(self, f):
        self.f = f
        self.st = None
        self.quiet = 0          # while a loop is being iterated, reports are dropped

    # --- to be provided by the client
    def join(self, a, b):
        raise NotImplementedError

    def copy(self, a):
        return dict(a)

    def visit(self, n):
        pass

    def refine(self, e, truth):
        pass

    def backedge(self, loop):
        pass

    def atreturn(self, n):
        pass

    def enter_range(self, loop):
        pass

    # --- driver
    def run(self, init):
        self.labels, self.gotos = {}, {}
        for turn in range(4):
            self.exit = None
            self.brk, self.cont = [], []
            self.switches = []
            self.gotos = {}
            self.st = self.copy(init)
            self.begin_round(turn)
            for q in self.f.get("inits", ()):
                if q.get("e"):
                    self.expr(q["e"])
                    self.member_init(q)
            self.stmt(self.f["body"])
            self.exit = self.j(self.exit, self.st)
            if self.st is not None:
                self.atend()
            new = dict(self.labels)
            for k, v in self.gotos.items():
                new[k] = self.j(new.get(k), v)
            if not self.gotos or all(self.labels.get(k) == new[k] for k in new):
                break
            self.labels = new
        return self.exit

    def begin_round(self, turn):
        pass

    def member_init(self, q):
        pass

    def atend(self):
        pass

    def j(self, a, b):
        if a is None:
            return None if b is None else self.copy(b)
        if b is None:
            return a
        return self.join(a, b)

    # --- expressions
    def expr(self, n):
        if n is None or self.st is None:
            return
        k = n["k"]
        if k in ("BinaryOperator",) and n["op"] in ("&&", "||") or k in ("ConditionalOperator", "BinaryConditionalOperator"):
            if k == "BinaryOperator":
                t, f = self.cond(n)
                self.st = self.j(t, f)
                self.visit_if(n)
                return
            c = kids(n)
            if k == "ConditionalOperator":
                t, f = self.cond(c[0])
                self.st = t
                self.expr(c[1])
                self.picked(n, c[1])
                a = self.st
                self.st = f
                self.expr(c[2])
                self.picked(n, c[2])
                self.st = self.j(a, self.st)
                self.visit_if(n)
                return
        if k == "LambdaExpr":
            self.lam(n)
            return
        if k == "StmtExpr":
            for c in kids(n):
                self.stmt(c)
            return
        if k in ("DeclStmt",):
            for c in kids(n):
                self.expr(c)
            return
        c = n.get("c", ())
        if k == "BinaryOperator" and n["op"] == "=" or k == "CompoundAssignOperator":
            order = [c[1], c[0]]
        elif k == "CXXOperatorCallExpr" and n.get("oper", "").endswith("=") and n["oper"] not in ("==", "!=", "<=", ">=") and len(c) == 3:
            order = [c[0], c[2], c[1]]
        else:
            order = c
        for x in order:
            if x is not None:
                if not self.skip_operand(n, x):
                    self.expr(x)
        self.visit_if(n)
        if self.st is not None and k == "CallExpr" and n.get("n") in NORETURN:
            self.st = None
        if self.st is not None and any(m.split("#")[0] == "PLY_FORCE_CRASH" for m in n.get("m", ())):
            self.st = None

    def picked(self, n, x):
        pass

    def skip_operand(self, n, x):
        return False

    def visit_if(self, n):
        if self.st is not None:
            self.visit(n)

    def lam(self, n):
        c = kids(n)
        for x in c[:-1]:
            self.expr(x)
        if self.st is None or not c:
            return
        before = self.copy(self.st)
        save = (self.exit, self.brk, self.cont, self.switches)
        self.exit, self.brk, self.cont, self.switches = None, [], [], []
        self.inlambda = getattr(self, "inlambda", 0) + 1
        self.stmt(c[-1])
        after = self.j(self.exit, self.st)
        self.inlambda -= 1
        self.exit, self.brk, self.cont, self.switches = save
        self.st = self.j(before, after)
        self.visit_if(n)

    def cond(self, e):
        """States when e is true and when it is false."""
        if self.st is None:
            return None, None
        x = e
        while x["k"] in ("ParenExpr", "ExprWithCleanups", "ConstantExpr") or x["k"] == "ImplicitCastExpr" and x.get("ck") in ("NoOp", "LValueToRValue") and kids(x):
            if x["k"] == "ImplicitCastExpr" and kids(x)[0]["k"] not in ("ParenExpr", "BinaryOperator", "UnaryOperator"):
                break
            x = kids(x)[0]
        c = kids(x)
        if x["k"] == "BinaryOperator" and x["op"] == "&&":
            t, f = self.cond(c[0])
            self.st = t
            t2, f2 = self.cond(c[1])
            return t2, self.j(f, f2)
        if x["k"] == "BinaryOperator" and x["op"] == "||":
            t, f = self.cond(c[0])
            self.st = f
            t2, f2 = self.cond(c[1])
            return self.j(t, t2), f2
        if x["k"] == "UnaryOperator" and x["op"] == "!":
            t, f = self.cond(c[0])
            return f, t
        if "const" in x:
            v = x["const"] not in ("0", "false")
            s = self.st
            return (s, None) if v else (None, s)
        self.expr(x)
        if self.st is None:
            return None, None
        s = self.st
        self.st = self.copy(s)
        self.refine(x, True)
        t = self.st
        self.st = self.copy(s)
        self.refine(x, False)
        f = self.st
        self.st = s
        return t, f

    # --- statements
    def stmt(self, s):
        if s is None:
            return
        k = s["k"]
        if k == "LabelStmt":
            # jumps recorded so far in this round, and those of earlier rounds
            for src in (self.gotos.get(s["n"]), self.labels.get(s["n"])):
                if src is not None:
                    self.st = self.j(self.st, self.copy(src))
            for c in kids(s):
                self.stmt(c)
            return
        if k in ("CaseStmt", "DefaultStmt"):
            if self.switches:
                self.st = self.j(self.st, self.case_state(s, self.switches[-1]))
                if k == "DefaultStmt":
                    self.switches[-1]["default"] = True
            self.stmt(kids(s)[-1])
            return
        if self.st is None and not self.haslabel(s):
            return
        c = s.get("c", ())
        if k == "CompoundStmt":
            for x in c:
                self.stmt(x)
        elif k == "IfStmt":
            if c[0] is not None:
                self.expr(c[0])
            t, f = self.cond(c[1]) if self.st is not None else (None, None)
            self.st = t
            self.stmt(c[2])
            a = self.st
            self.st = f
            self.stmt(c[3] if len(c) > 3 else None)
            self.st = self.j(a, self.st)
        elif k in LOOPS:
            self.loop(s)
        elif k == "SwitchStmt":
            body = c[-1]
            for x in c[:-1]:
                self.expr(x)
            sw = {"st": self.st, "default": False, "n": s}
            self.switches.append(sw)
            self.brk.append(None)
            before = self.st
            self.st = None
            self.stmt(body)
            b = self.brk.pop()
            self.switches.pop()
            r = self.j(self.st, b)
            if not sw["default"] and before is not None and not self.exhaustive(s):
                r = self.j(r, self.copy(before))
            self.st = r
        elif k == "BreakStmt":
            if self.st is not None and self.brk:
                self.brk[-1] = self.j(self.brk[-1], self.st)
            self.st = None
        elif k == "ContinueStmt":
            if self.st is not None and self.cont:
                self.cont[-1] = self.j(self.cont[-1], self.st)
            self.st = None
        elif k == "ReturnStmt":
            for x in kids(s):
                self.expr(x)
            if self.st is not None:
                self.atreturn(s)
                self.exit = self.j(self.exit, self.st)
            self.st = None
        elif k == "GotoStmt":
            if self.st is not None:
                self.gotos[s["n"]] = self.j(self.gotos.get(s["n"]), self.st)
            self.st = None
        elif k in ("NullStmt", "GCCAsmStmt"):
            pass
        elif k == "AttributedStmt":
            for x in kids(s):
                self.stmt(x)
        else:
            self.expr(s)

    def exhaustive(self, s):
        return False

    def case_state(self, s, sw):
        return None if sw["st"] is None else self.copy(sw["st"])

    def haslabel(self, s):
        r = s.get("_lab")
        if r is None:
            from astq import walk
            r = s["_lab"] = any(x["k"] in ("LabelStmt", "CaseStmt", "DefaultStmt") for x in walk(s))
        return r

    def loop(self, s):
        c = s.get("c", ())
        k = s["k"]
        inc = None
        if k == "ForStmt":
            init, cv, cnd, inc, body = c
            self.stmt(init)
        elif k == "WhileStmt":
            cv, cnd, body = c
        elif k == "DoStmt":
            body, cnd = c
            cv = None
        else:
            rng, beg, end, cnd, inc, lv, body = c
            for x in (rng, beg, end):
                self.stmt(x)
            cv = None
            if self.st is not None:
                self.enter_range(s)
        head = self.st
        out = None
        self.quiet += 1
        for turn in range(self.MAXLOOP):
            last = turn == self.MAXLOOP - 1
            self.st = None if head is None else self.copy(head)
            nh, _ = self.turn(s, k, cv, cnd, inc, body)
            n2 = self.j(None if head is None else self.copy(head), nh)
            if n2 == head:
                break
            head = n2
        self.quiet -= 1
        # a last turn from the fixed point, reporting
        self.st = None if head is None else self.copy(head)
        nh, out = self.turn(s, k, cv, cnd, inc, body)
        self.st = out

    def turn(self, s, k, cv, cnd, inc, body):
        """One turn: (state at the back edge, state after leaving the loop)"""
        out = None
        if k != "DoStmt":
            if cv is not None:
                self.expr(cv)
            if cnd is not None and self.st is not None:
                if k == "CXXForRangeStmt":
                    t, f = self.copy(self.st), self.copy(self.st)
                else:
                    t, f = self.cond(cnd)
            else:
                t, f = self.st, None
            out = f
            self.st = t
            if k == "CXXForRangeStmt":
                self.stmt(s["c"][5])
        self.brk.append(None)
        self.cont.append(None)
        self.stmt(body)
        b, ct = self.brk.pop(), self.cont.pop()
        self.st = self.j(self.st, ct)
        if k == "DoStmt":
            if self.st is not None:
                t, f = self.cond(cnd)
                self.st = t
                out = f
        out = self.j(out, b)
        if self.st is not None:
            if inc is not None and k != "CXXForRangeStmt":
                self.expr(inc)
            if self.st is not None:
                self.backedge(s)
        return self.st, out
