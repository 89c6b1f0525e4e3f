"""Contracts of the functions that look records up and hand them out."""
from .vault_refs import *


def resolved(h, v):
    """the vault that references to records of v know"""
    return z3.If(h.isset(v), h.par(v), v)


class GetRecord(Keyed):
    heaps = RCNT

    def modifies(self, c):
        return VC.modifies(self, c) + [c.args[2]]

    def needs(self, c):
        yield from Keyed.needs(self, c)
        h = self.h0(c)
        a = c.args[2]
        v = self.ref(c)
        yield "the reference counts", sound(h, ptr_of(c, a), vlt_of(c, a))
        yield "the set has a vault", imp(h.isset(v), h.par(v) != NOV)

    def unchanged(self, c):
        a = c.args[2]
        return z3.And(Keyed.unchanged(self, c), ptr_of(c, a, True) == ptr_of(c, a), vlt_of(c, a, True) == vlt_of(c, a))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        key, x = self.kv(c)
        a = c.args[2]
        yield from self.refusals(c)
        fits, some, m = self.fits(c), self.any(c), self.match(c)
        p, q = ptr_of(c, a), ptr_of(c, a, True)
        yield "a value no record has is reported", imp(z3.And(fits, z3.Not(some)), z3.And(result_is(c, c.eng, False, "WrongValue", key, tyT, tyT), q == NOREC))
        yield "success", imp(z3.And(fits, some), result_is(c, c.eng, True, "Success", key, tyT, tyT))
        yield "the record has the value", imp(z3.And(fits, some), m(q))
        yield "the reference knows the vault", imp(fits, vlt_of(c, a, True) == resolved(h0, v))
        for n, f in counted(h0, h1, lambda r: one(z3.And(r == q, r != NOREC)), lambda r: one(z3.And(r == p, r != NOREC))):
            yield n, imp(fits, f)
        yield "the reference counts", sound(h1, q, vlt_of(c, a, True))


class GetRecords(Keyed):
    heaps = RCNT

    def modifies(self, c):
        return VC.modifies(self, c) + [c.args[2]]

    def vec(self, c, new=False):
        return (c.new if new else c.old)(c.args[2])

    def needs(self, c):
        yield from Keyed.needs(self, c)
        h = self.h0(c)
        v = self.ref(c)
        w = self.vec(c)
        yield "the references count", refs_sound(h, w)
        yield "the set has a vault", imp(h.isset(v), h.par(v) != NOV)

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        key, x = self.kv(c)
        n = c.old(c.args[3]).t
        yield "an unknown key is refused", imp(z3.Not(h0.kt(v, key)), result_is(c, c.eng, False, "WrongKey", key, tyT))
        yield "another type is refused", imp(z3.And(h0.kt(v, key), h0.ktv(v, key) != tyT), result_is(c, c.eng, False, "WrongType", key, tyT, h0.ktv(v, key)))
        fits, some, m = self.fits(c), self.any(c), self.match(c)
        yield "a value no record has is reported", imp(z3.And(fits, z3.Not(some)), result_is(c, c.eng, False, "WrongValue", key, tyT, tyT))
        yield "success", imp(z3.And(fits, some), result_is(c, c.eng, True, "Success", key, tyT, tyT))
        w0, w = self.vec(c), self.vec(c, True)
        C, N = name(c.s1, "cnt", w.c["cnt"]), w.c["size"]
        ok = z3.And(fits, some)
        yield "nothing is handed out otherwise", imp(z3.Not(ok), z3.And(N == 0, C == z3.K(RRef, z3.IntVal(0))))
        yield "records with the value are handed out, each once", imp(ok, forall([RRef], lambda r: z3.And(C[r] >= 0, C[r] <= 1, imp(C[r] == 1, m(r))), lambda r: [C[r]]))
        yield "no more than asked for", imp(ok, z3.And(N >= 1, z3.Or(N <= n, N == 1)))
        yield "all of them unless the amount is reached", imp(z3.And(ok, N < n), forall([RRef], lambda r: imp(m(r), C[r] == 1), lambda r: [h0.rs(v, r)]))
        yield "the references know the vault", forall([Int], lambda i: imp(z3.And(i >= 0, i < N), z3.And(C[sel(w.c["at.VaultRecordPtr."], i)] == 1, sel(w.c["at.Vlt."], i) == resolved(h0, v))), lambda i: [sel(w.c["at.Vlt."], i), sel(w.c["at.VaultRecordPtr."], i)])
        yield from counted(h0, h1, lambda r: C[r], lambda r: w0.c["cnt"][r])
        yield "the references count", refs_sound(h1, w)

    def loop(self, eng, st, node, kind, loc):
        if kind != "for":
            return Keyed.loop(self, eng, st, node, kind, loc)
        c = eng.cur[1]
        v = self.ref(c)
        key, x = self.kv(c)
        out = c.args[2]
        cur = only(stepped(st, node), "iterator of the loop")
        counter = loop_counter(eng, st)
        amount = c.old(c.args[3]).t

        def inv(eng, a, b):
            h0, h1, ha = H(c.s0), H(b), H(a)
            first, e = eng.load(a, cur), eng.load(b, cur)
            end = end_of(eng, a, node, cur)
            p = place_of(eng, e)
            w = eng.model(p.ct).read(b, p)
            P, AT, IN = w.c["pos"], w.c["at"], w.c["in"]
            lo, at, hi = P[first.t], P[e.t], P[end.t]
            o = eng.load(b, out)
            C, N = name(b, "cnt", o.c["cnt"]), o.c["size"]
            n = eng.load(b, counter).t
            yield "it moves through the range", z3.And(lo <= at, at <= hi, AT[at] == e.t, n == at - lo, N == n, z3.Or(n == 0, n < amount))
            yield "what was passed is handed out", forall([RRef], lambda r: C[r] == one(z3.And(IN[r], lo <= P[r], P[r] < at)), lambda r: [C[r]])
            yield "with its vault", forall([Int], lambda i: imp(z3.And(i >= 0, i < N), z3.And(C[sel(o.c["at.VaultRecordPtr."], i)] == 1, sel(o.c["at.Vlt."], i) == resolved(h0, v))), lambda i: [sel(o.c["at.Vlt."], i), sel(o.c["at.VaultRecordPtr."], i)])
            yield from counted(ha, h1, lambda r: C[r], lambda r: z3.IntVal(0))
        return Spec("over the records", inv)


def loop_counter(eng, st):
    return only(locals_of(eng, st, lambda ct: str(ct) == "unsigned long"), "counter")


def end_of(eng, st, node, cur):
    """the value that the iterator is compared with in the condition of a loop"""
    x = node["inner"][2]
    while x.get("kind") in ("ExprWithCleanups", "ImplicitCastExpr", "ParenExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr"):
        x = x["inner"][0]
    if x.get("kind") == "CXXOperatorCallExpr":
        for y in x["inner"][1:]:
            s = st.copy()
            rs = eng.ev(y, s)
            if len(rs) == 1:
                l = rs[0][1]
                if isinstance(l, LV) and l.same(cur):
                    continue
                v = eng.load(rs[0][0], l)
                if v.ct.name == "AllMapIterator":
                    return v
    raise Unattached("end of a loop")


def refs_sound(h, w):
    C = w.c["cnt"]
    return forall([RRef], lambda r: z3.And(C[r] >= 0, imp(C[r] > 0, z3.And(r != NOREC, h.live(r), h.g("R", "RefCounter.", r) >= C[r]))), lambda r: [C[r]])


# ------------------------------------------------------------------ requests
KINDS = ("Equal", "GreaterOrEqual", "Greater", "Less", "LessOrEqual", "Interval")


def kinds(eng):
    out = {}
    for tu_ in eng.tus:
        for x in tu_.decl.values():
            if x.get("kind") == "EnumDecl" and x.get("name") == "VaultRequestType":
                n = 0
                for y in x.get("inner", ()):
                    if y.get("kind") == "EnumConstantDecl":
                        for q in y.get("inner", ()):
                            if q.get("kind") == "ConstantExpr" and "value" in q:
                                n = int(q["value"])
                        out[y["name"]] = n
                        n += 1
    if not set(KINDS) <= set(out):
        raise Unattached("kinds of requests")
    return out


def fitting(k, t, b, e, ib, ie, x):
    """value x satisfies a request of kind t with bounds b and e"""
    lo, hi, y = rank(b), rank(e), rank(x)
    return z3.Or(z3.And(t == k["Equal"], x == b), z3.And(t == k["GreaterOrEqual"], y >= lo), z3.And(t == k["Greater"], y > lo), z3.And(t == k["Less"], y < lo), z3.And(t == k["LessOrEqual"], y <= lo),
                 z3.And(t == k["Interval"], z3.Or(y > lo, z3.And(ib, y == lo)), z3.Or(y < hi, z3.And(ie, y == hi)),
                        # an interval of one point is empty unless both ends belong to it
                        z3.Or(lo < hi, z3.And(ib, ie))))


DEFPRED = z3.Const("the default predicate", Clo)


class RequestRecordsSet(Op):
    """selects records into a set of pointers"""
    heaps = ()
    default = False

    def __init__(self, key, default=False, **k):
        Op.__init__(self, key, **k)
        self.default = default

    def modifies(self, c):
        return [c.args[4]]

    def result(self, c):
        return CT("VaultOperationResult")

    def param(self, eng, st, p):
        if self.default and ctype(p).plain().name == "std::function":
            return default_predicate(eng, st)
        return VC.param(self, eng, st, p)

    def apply(self, eng, st, this, args, e):
        eng.model(args[4].ct).read(st, args[4])
        return Op.apply(self, eng, st, this, args, e)

    def parts(self, c):
        o = lambda i: c.old(c.args[i]).t
        return dict(t=o(0), key=o(1), b=o(2), e=o(3), ib=o(5), ie=o(6), n=o(7), f=c.old(c.args[8]).t)

    def pre(self, c):
        h = self.h0(c)
        a = self.parts(c)
        k = kinds(c.eng)
        v = self.ref(c)
        yield "the values have the type of the call", z3.And(ty(a["b"]) == tyT, ty(a["e"]) == tyT)
        yield "a kind of request", z3.Or(*[a["t"] == k[n] for n in KINDS])
        yield "one bound unless it is an interval", imp(a["t"] != k["Interval"], a["b"] == a["e"])
        yield "the set has a vault", imp(h.isset(v), z3.And(h.par(v) != NOV, h.base(h.par(v))))
        yield "kind", z3.Or(h.isset(v), h.base(v))
        for n, f in list(h.schema()) + list(h.content()):
            yield n, f
        yield "records are alive", forall([RRef], lambda r: imp(h.rs(v, r), z3.And(h.live(r), r != NOREC, h.valid(r))), lambda r: [h.rs(v, r)])
        yield "reference counts are not negative", forall([RRef], lambda r: h.g("R", "RefCounter.", r) >= 0, lambda r: [h.g("R", "RefCounter.", r)])
        yield "accepts all", forall([RRef], lambda r: pred(DEFPRED, r), lambda r: [pred(DEFPRED, r)])

    def facts(self, c):
        return equal_sizes(self.h0(c), self.ref(c), self.parts(c)["key"])

    def sel(self, c):
        h0 = self.h0(c)
        v = self.ref(c)
        a = self.parts(c)
        k = kinds(c.eng)
        return lambda r: z3.And(h0.rs(v, r), fitting(k, a["t"], a["b"], a["e"], a["ib"], a["ie"], h0.rv(r, a["key"])))

    def post(self, c):
        h0 = self.h0(c)
        v = self.ref(c)
        a = self.parts(c)
        key = a["key"]
        A, B = c.old(c.args[4]), c.new(c.args[4])
        same_ = z3.And(A.c["in"] == B.c["in"], A.c["size"] == B.c["size"])
        bad = z3.Or(z3.Not(h0.kt(v, key)), h0.ktv(v, key) != tyT)
        yield "an unknown key is refused", imp(z3.Not(h0.kt(v, key)), result_is(c, c.eng, False, "WrongKey", key, tyT))
        yield "another type is refused", imp(z3.And(h0.kt(v, key), h0.ktv(v, key) != tyT), result_is(c, c.eng, False, "WrongType", key, tyT, h0.ktv(v, key)))
        yield "a refused request selects nothing", imp(bad, same_)
        ok = z3.Not(bad)
        yield "success", imp(ok, result_is(c, c.eng, True, "Success", key, tyT, tyT))
        s = self.sel(c)
        I, J = A.c["in"], B.c["in"]
        n = a["n"]
        yield "what was there stays", imp(ok, forall([RRef], lambda r: imp(sel(I, r), sel(J, r)), lambda r: [sel(J, r)]))
        yield "only records that satisfy the request", imp(ok, forall([RRef], lambda r: imp(z3.And(sel(J, r), z3.Not(sel(I, r))), z3.And(s(r), pred(a["f"], r))), lambda r: [sel(J, r)]))
        yield "no more than asked for", imp(ok, z3.And(B.c["size"] - A.c["size"] <= n, B.c["size"] >= A.c["size"]))
        every = forall([RRef], lambda r: imp(z3.And(s(r), pred(a["f"], r)), sel(J, r)), lambda r: [sel(J, r), h0.rs(v, r)])
        yield "all of them if the amount allows", imp(z3.And(ok, n >= h0.g("V", "RecordsSet.size", v)), every)
        empty = I == z3.K(RRef, z3.BoolVal(False))
        allp = forall([RRef], lambda r: imp(s(r), pred(a["f"], r)), lambda r: [pred(a["f"], r), h0.rs(v, r)])
        yield "all of them unless the amount is reached", imp(z3.And(ok, empty, A.c["size"] == 0, allp, B.c["size"] < n), every)

    def loop(self, eng, st, node, kind, loc):
        if kind != "for":
            return None
        c = eng.cur[1]
        v = self.ref(c)
        a_ = self.parts(c)
        out = c.args[4]
        cur = only(stepped(st, node), "iterator of the loop")
        counter = loop_counter(eng, st)

        def inv(eng, a, b):
            first, e = eng.load(a, cur), eng.load(b, cur)
            end = end_of(eng, a, node, cur)
            p = place_of(eng, e)
            w = eng.model(p.ct).read(b, p)
            P, AT, IN = w.c["pos"], w.c["at"], w.c["in"]
            lo, at, hi = P[first.t], P[e.t], P[end.t]
            A, B = eng.load(a, out), eng.load(b, out)
            n = eng.load(b, counter).t
            F = a_["f"]
            yield "it moves through the range", z3.And(imp(lo <= hi, at <= hi), lo <= at, at <= w.c["size"], AT[at] == e.t, n == at - lo, n <= a_["n"])
            I, J = A.c["in"], B.c["in"]
            yield "what was passed is selected", forall([RRef], lambda r: sel(J, r) == z3.Or(sel(I, r), z3.And(IN[r], lo <= P[r], P[r] < at, pred(F, r))), lambda r: [sel(J, r)])
            yield "no more than was passed", z3.And(B.c["size"] - A.c["size"] <= n, B.c["size"] >= A.c["size"])
            empty = I == z3.K(RRef, z3.BoolVal(False))
            allp = forall([RRef], lambda r: imp(z3.And(IN[r], lo <= P[r], P[r] < hi), pred(F, r)), lambda r: [pred(F, r), IN[r]])
            yield "all that was passed if all is accepted", imp(z3.And(empty, A.c["size"] == 0, lo <= hi, allp), B.c["size"] == n)
            ha, hb = H(a), H(b)
            yield "references come and go", z3.And(ha.a("R", "RefCounter.") == hb.a("R", "RefCounter."), ha.a("R", "#live") == hb.a("R", "#live"))
        return Spec("over the range", inv)


def default_predicate(eng, st):
    lv = eng.__dict__.get("default predicate")
    if lv is None:
        lv = eng.__dict__["default predicate"] = eng.newcell(st, V(CT("std::function", (cast.parse_type("bool (const VaultRecordRef &)") if False else CT("fn", (CT("bool"), CT("VaultRecordRef"))),)), {"": DEFPRED}), "default predicate")
    if lv.store[1] not in st.cells:
        st.cells = dict(st.cells)
        st.cells[lv.store[1]] = {"": DEFPRED}
    return lv


def invoke_predicate(eng, st, f, args, e):
    """a predicate answers for the record it is given and does nothing to the vault"""
    r = args[0]
    p = eng.load(st, eng.member(r, "VaultRecordPtr")).t
    h = H(st)
    eng.oblige(st, "a predicate gets a reference to a record", z3.And(p != NOREC, h.live(p), h.g("R", "RefCounter.", p) >= 1))
    return [(st, bv(pred(f.t, p)))]


CONTRACTS.update(
    GetRecord=lambda: GetRecord("Vault::GetRecord/3<AnyT>", cls="VaultRecordSet"),
    GetRecords=lambda: GetRecords("Vault::GetRecords/4<AnyT>", cls="VaultRecordSet"),
    RequestRecordsSet=lambda: RequestRecordsSet("Vault::RequestRecordsSet/9<AnyT>", cls="VaultRecordSet"),
    RequestRecordsSetDefault=lambda: RequestRecordsSet("Vault::RequestRecordsSet/9<AnyT>", default=True, cls="VaultRecordSet", label="Vault::RequestRecordsSet/9<AnyT> (default predicate)"),
)


def reads_engine():
    eng = refs_engine(None)
    u = eng.u
    u.hooks["invoke predicate"] = invoke_predicate
    old = u.hooks.get("global")

    def glob(eng, st, d, e):
        if d.get("name") == "DefaultRequestPredicat":
            return default_predicate(eng, st)
        return old(eng, st, d, e) if old else None
    u.hooks["global"] = glob
    return eng


def proof(*names):
    eng = reads_engine()
    cons = {n: f() for n, f in CONTRACTS.items()}
    register(eng, cons)
    p = Proof()
    for n in names:
        con = cons[n]
        p.run(eng, con.label, lambda: prove_fn(eng, con))
    p.assumptions |= {"key types are parametric: verified for one type with a strict total order and consistent equality and hash",
                      "holders and map wrappers by their contracts (contracts/saver.py, container.py, maps.py)", "locks by contracts/locks.py; one thread"}
    p.assumptions.add("fewer than 2^62 references to one record")
    p.assumptions.add("predicates given to requests answer for a record and leave the vault alone")
    p.trusted |= {"models of std::unordered_set, std::unordered_map, std::set, std::list, std::vector, std::function, std::type_index"}
    return p.close(eng)
