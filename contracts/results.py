"""Contracts of VaultOperationResult: the code it holds, the description of each code, and equality."""
from .vault import *
from vp.contract import frame

KEY = "VaultOperationResult::"


class SetOpResult(FnContract):
    """the code is stored; nothing else changes"""
    def modifies(self, c):
        return [c.eng.member(c.this, "ResultCode")]

    def result(self, c):
        return CT("void")

    def post(self, c):
        yield "the code is stored", c.new(c.eng.member(c.this, "ResultCode")).t == c.old(c.args[0]).t


class Equal(FnContract):
    """two results are equal exactly when all their parts are"""
    def modifies(self, c):
        return []

    def result(self, c):
        return BOOL

    def post(self, c):
        a, b = c.old(c.args[0]), c.old(c.args[1])
        yield "equal exactly when all parts are equal", c.ret.t == z3.And(*[a.c[k] == b.c[k] for k in a.c])


class Descriptions(FnContract):
    """each code has a description of its own, which is not empty. The body runs once for each code, for any content of the rest"""
    def modifies(self, c):
        return []

    def result(self, c):
        return CT("std::string")


def prove_descriptions(eng, con):
    code(eng, "Success")
    info = eng.find(con.key, con.pred)
    st = State()
    init(eng, st)
    eng.current = con.label
    st.env = {"tu": info.tu, "fkey": con.key}
    this, args = con.setup(eng, st, info)
    eng.under.add(con.label)
    eng.cover(st, "precondition can hold")
    got = []
    for nm, n in CODE.items():
        s = st.copy()
        eng.store(s, eng.member(this, "ResultCode"), V(CT("VaultOperationResultCode"), {"": z3.IntVal(n)}))
        c = Ctx(eng, s.copy(), this, args)
        some = False
        for x, r in eng.inline(s, info.tu, info.node, this, list(args)):
            some = True
            v = eng.load(x, r)
            got.append((nm, x, v.t))
            c.s1, c.ret = x, v
            frame(eng, con, c)
        if not some:
            eng.oblige(State(), "some path reaches the end for the code " + nm, FALSE)
    # texts in the code differ when their bytes do; the empty text is the default of a string
    known = list(strs.values())
    if lit_str([]) not in known:
        known.append(lit_str([]))
    law = [z3.Distinct(*strs.values())] if len(strs) > 1 else []
    for nm, x, t in got:
        y = x.copy()
        y.assume(*law)
        eng.oblige(y, "postcondition: the description of %s is not empty" % nm, t != lit_str([]))
        for mm, z, u in got:
            if mm < nm:
                w = y.copy()
                w.pc = w.pc + [f for f in z.pc if not any(f.eq(g) for g in w.pc)]
                eng.oblige(w, "postcondition: the descriptions of %s and %s differ" % (mm, nm), t != u)
    return len(got)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def proof():
    eng = vault_engine()
    del eng.u.hooks["VaultOperationResult::SetOpResult/1"]
    p = Proof()
    for con in (SetOpResult(KEY + "SetOpResult/1"), Equal("operator==/2", pred=lambda n: "VaultOperationResult" in n["type"]["qualType"])):
        p.run(eng, con.label, lambda: verify(eng, con, init))
    con = Descriptions(KEY + "ResultCodeString/0")
    p.run(eng, con.label, lambda: prove_descriptions(eng, con))
    p.assumptions.add("texts of a program are equal when their bytes are (std::string)")
    return p.close(eng)
