"""Contracts of the requests: from the kind of request to the set that holds the answer."""
from .vault_copy import *
from .vault_reads import RequestRecordsSet, KINDS, kinds, fitting, pred, DEFPRED


class Request(Copies):
    """a request: its target becomes a set of the vault with the records selected as members"""
    def target(self, c):
        return self.other(c, 4)

    def result(self, c):
        return CT("VaultOperationResult")

    def apply(self, eng, st, this, args, e):
        s = next(a for a in args if isinstance(a, LV) and a.store == ("heap", "V"))
        l = eng.member(s, "RecordsSet")
        eng.model(l.ct).read(st, l)
        return Copies.apply(self, eng, st, this, args, e)

    parts = RequestRecordsSet.parts
    sel = RequestRecordsSet.sel

    def vault(self, c):
        h, v = self.h0(c), self.ref(c)
        return z3.If(h.isset(v), h.par(v), v)

    def asked(self, c):
        h = self.h0(c)
        a = self.parts(c)
        k = kinds(c.eng)
        yield "the values have the type of the call", z3.And(ty(a["b"]) == tyT, ty(a["e"]) == tyT)
        yield "a kind of request", z3.Or(*[a["t"] == k[n] for n in KINDS])
        yield "one bound unless it is an interval", imp(a["t"] != k["Interval"], a["b"] == a["e"])
        yield "reference counts are not negative", forall([RRef], lambda r: h.g("R", "RefCounter.", r) >= 0, lambda r: [h.g("R", "RefCounter.", r)])
        yield "accepts all", forall([RRef], lambda r: pred(DEFPRED, r), lambda r: [pred(DEFPRED, r)])

    def needs(self, c):
        h = self.h0(c)
        v, s = self.ref(c), self.target(c)
        yield "called on a vault or on a set of one", z3.And(v != NOV, imp(h.isset(v), h.par(v) != NOV))
        yield "the answer goes to another set", z3.And(h.isset(s), s != v)
        yield "a set answers into an empty set of its vault", imp(h.isset(v), z3.And(h.par(s) == h.par(v), h.rss(s) == z3.K(RRef, FALSE), h.g("V", "RecordsSet.size", s) == 0))
        yield from self.asked(c)

    def answered(self, c, good):
        """what the answer is, when there is one: good"""
        h0, h1 = self.h0(c), self.h1(c)
        v, x = self.ref(c), self.target(c)
        a = self.parts(c)
        key, n = a["key"], a["n"]
        bad = z3.Or(z3.Not(h0.kt(v, key)), h0.ktv(v, key) != tyT)
        yield "an unknown key is refused", imp(z3.And(good, z3.Not(h0.kt(v, key))), result_is(c, c.eng, False, "WrongKey", key, tyT))
        yield "another type is refused", imp(z3.And(good, h0.kt(v, key), h0.ktv(v, key) != tyT), result_is(c, c.eng, False, "WrongType", key, tyT, h0.ktv(v, key)))
        J, N = h1.rss(x), h1.g("V", "RecordsSet.size", x)
        yield "a refused request selects nothing", imp(z3.And(good, bad), J == z3.K(RRef, FALSE))
        ok = z3.And(good, z3.Not(bad))
        yield "success", imp(ok, result_is(c, c.eng, True, "Success", key, tyT, tyT))
        s = self.sel(c)
        yield "only records that satisfy the request", imp(ok, forall([RRef], lambda r: imp(sel(J, r), z3.And(s(r), pred(a["f"], r))), lambda r: [sel(J, r)]))
        yield "no more than asked for", imp(ok, z3.And(N <= n, N >= 0))
        every = forall([RRef], lambda r: imp(z3.And(s(r), pred(a["f"], r)), sel(J, r)), lambda r: [sel(J, r), h0.rs(v, r)])
        yield "all of them if the amount allows", imp(z3.And(ok, n >= h0.g("V", "RecordsSet.size", v)), every)
        allp = forall([RRef], lambda r: imp(s(r), pred(a["f"], r)), lambda r: [pred(a["f"], r), h0.rs(v, r)])
        yield "all of them unless the amount is reached", imp(z3.And(ok, allp, N < n), every)

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        x = self.target(c)
        yield from self.answered(c, TRUE)
        yield from reassigned(h0, h1, lambda s: s == x, lambda s: self.vault(c), lambda s, r: h1.rs(x, r))

    def over_records(self, eng, st, node, loc):
        c = eng.cur[1]
        v, idx = self.target(c), loc["index"]

        def inv(eng, s, b):
            h0, h1 = H(s), H(b)
            i = eng.load(b, idx).t
            P = eng.model(loc["range"].ct).read(s, loc["range"]).c["pos"]
            done = lambda r: z3.And(h0.rs(v, r), P[r] < i)
            yield from indexed(h0, h1, v, done)
            D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
            yield "the records know the set", forall([RRef, VRef], lambda r, s: D1[r][s] == z3.Or(D0[r][s], z3.And(done(r), s == v)), lambda r, s: [D1[r][s]])
            yield from h0.schema()
            yield "records selected are alive", forall([RRef], lambda r: imp(h0.rs(v, r), z3.And(h0.live(r), r != NOREC, h0.valid(r))), lambda r: [h0.rs(v, r)])
        return Spec("over the records selected", inv)


class BaseRequest(Request):
    def limbo(self, eng, con, this):
        """the target is listed before it leaves its former vault"""
        return self.ref(eng.cur[1]) if isinstance(con, Reset) else None


class SetRequest(Request):
    """a request to a set"""
    def needs(self, c):
        h = self.h0(c)
        yield "called on a set", h.isset(self.ref(c))
        yield "the answer goes to a set", h.isset(self.target(c))
        yield from self.asked(c)

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, x = self.ref(c), self.target(c)
        key = self.parts(c)["key"]
        P = h0.par(v) != NOV
        un = z3.And(*[h1.a(*k) == h0.a(*k) for k in self.heaps])
        yield "a set without a vault refuses", imp(z3.Not(P), z3.And(result_is(c, c.eng, False, "ParentVaultNotValid", key, tyT), un))
        yield "an answer into itself is refused", imp(z3.And(P, v == x), z3.And(result_is(c, c.eng, False, "SameVaultRecordSet", key), un))
        ok = z3.And(P, v != x)
        yield from self.answered(c, ok)
        yield from reassigned(h0, h1, lambda s: z3.And(ok, s == x), lambda s: h0.par(v), lambda s, r: h1.rs(x, r))


def direct(con, kind):
    """the contract con for a function of one kind of request"""
    class Direct(con):
        def target(self, c):
            return self.other(c, 3 if kind == "Interval" else 2)

        def parts(self, c):
            o = lambda i: c.old(c.args[i]).t
            t = z3.IntVal(kinds(c.eng)[kind])
            if kind == "Interval":
                return dict(t=t, key=o(0), b=o(1), e=o(2), ib=o(4), ie=o(5), n=o(6), f=o(7))
            return dict(t=t, key=o(0), b=o(1), e=o(1), ib=FALSE, ie=FALSE, n=o(3), f=o(4))
    Direct.__name__ = "Request" + kind
    return Direct


CONTRACTS.update(
    Request=lambda: BaseRequest("Vault::RequestRecords/9<AnyT>", cls="VaultRecordSet"),
    SetRequest=lambda: SetRequest("VaultRecordSet::RequestRecords/9<AnyT>", cls="VaultRecordSet"),
)
DIRECT = []
for cls_, pre_, con_ in (("Vault", "", Request), ("VaultRecordSet", "Set", SetRequest)):
    for k_ in KINDS:
        DIRECT.append(pre_ + "Request" + k_)
        CONTRACTS[DIRECT[-1]] = lambda cls_=cls_, con_=con_, k_=k_: direct(con_, k_)("%s::Request%s/%d<AnyT>" % (cls_, k_, 8 if k_ == "Interval" else 5), cls="VaultRecordSet")


def request_engine():
    eng = copy_engine()
    return eng


def proof(*names):
    return prove_all(request_engine(), names)
