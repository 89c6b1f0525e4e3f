"""Contracts of copying, moving and combining record sets."""
from .vault_drop import *

EVERYTHING = tuple(sorted(set(TORN) | set(KeyAdder.heaps) | set(AD)))


def reassigned(h0, h1, aff, par, mem):
    """the sets aff(s) belong to the vault par(s), with its keys, and have the members mem(s, r); nothing else happened"""
    A, B = h0.a("V", "ParentVault."), h1.a("V", "ParentVault.")
    yield "the sets have their vault, others keep theirs", forall([VRef], lambda s: B[s] == z3.If(aff(s), par(s), A[s]), lambda s: [B[s]])
    A1, B1 = h0.a("V", "RecordSetsSet.in"), h1.a("V", "RecordSetsSet.in")
    yield "the vaults know their sets", forall([VRef, VRef], lambda x, s: B1[x][s] == z3.If(aff(s), z3.And(par(s) != NOV, x == par(s)), A1[x][s]), lambda x, s: [B1[x][s]])
    R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
    yield "the sets have their members, others keep theirs", forall([VRef, RRef], lambda s, r: R1[s][r] == z3.If(aff(s), mem(s, r), R0[s][r]), lambda s, r: [R1[s][r]])
    D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
    yield "the members know the sets", forall([RRef, VRef], lambda r, s: imp(h0.live(r), D1[r][s] == z3.If(aff(s), mem(s, r), D0[r][s])), lambda r, s: [D1[r][s]])
    yield from others_stay(h0, h1, aff)
    K0, K1 = h0.a("V", "KeysTypes.in"), h1.a("V", "KeysTypes.in")
    yield "the sets have the keys of their vault, others keep theirs", forall([VRef, Str], lambda s, k: K1[s][k] == z3.If(aff(s), z3.And(par(s) != NOV, K0[par(s)][k]), K0[s][k]), lambda s, k: [K1[s][k]])


def others_stay(h0, h1, aff):
    """vaults and sets other than aff keep their keys, their order and their indexes; records stay as they are"""
    for d in DICTS + ("UniqueKeys", "RecordsSet"):
        for o in ("in",) + ORDER + (("val",) if d in DICTS else ()):
            A, B = h0.a("V", d + "." + o), h1.a("V", d + "." + o)
            if not A.eq(B):
                yield "%s: others stay (%s)" % (d.replace(".Container", ""), o), forall([VRef], lambda v: imp(z3.Not(aff(v)), B[v] == A[v]), lambda v: [B[v]])
    for o in ("at.", "size"):
        A, B = h0.a("V", "KeysOrder." + o), h1.a("V", "KeysOrder." + o)
        if not A.eq(B):
            yield "the order of the keys of others stays (%s)" % o, forall([VRef], lambda v: imp(z3.Not(aff(v)), B[v] == A[v]), lambda v: [B[v]])
    for q, R in (("H", HP), ("T", TP)):
        mine = lambda h: z3.And(h0.g(q, "live", h), z3.Not(aff(h0.g(q, "ov", h))))
        for k in ("in", "multi", "ov", "ok", "live"):
            A, B = h0.a(q, k), h1.a(q, k)
            if not A.eq(B):
                yield "the indexes of others stay (%s.%s)" % (q, k), forall([R], lambda h: imp(mine(h), B[h] == A[h]), lambda h: [B[h]])
        I, A, B = h1.a(q, "in"), h0.a(q, "kv"), h1.a(q, "kv")
        yield "the indexes of others stay (%s.kv)" % q, forall([R, RRef], lambda h, r: imp(z3.And(mine(h), I[h][r]), B[h][r] == A[h][r]), lambda h, r: [B[h][r]])
    yield from records_stay(h0, h1)


def records_stay(h0, h1):
    for k in ("in", "val"):
        A, B = h0.a("R", "Container." + k), h1.a("R", "Container." + k)
        if not A.eq(B):
            yield "the values of the records stay (%s)" % k, forall([RRef, Str], lambda r, x: B[r][x] == A[r][x], lambda r, x: [B[r][x]])
    for k in ("IsValid.", "#live", "RefCounter."):
        A, B = h0.a("R", k), h1.a("R", k)
        if not A.eq(B):
            yield "records stay (%s)" % k, forall([RRef], lambda r: imp(h1.live(r), B[r] == A[r]) if k == "IsValid." else B[r] == A[r], lambda r: [B[r]])


def over_copiers(eng, st, node, loc, v):
    """a set without keys and records gets the keys of another set or vault, one by one"""
    o, idx = owner_of(eng, loc), loc["index"]

    def inv(eng, a, b):
        h0, h1 = H(a), H(b)
        i = eng.load(b, idx).t
        P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
        done = lambda k: z3.And(h0.kt(o, k), P[k] < i)
        mine = lambda x, k: z3.And(x == v, done(k))
        for d in DICTS + ("UniqueKeys",):
            nm = d.replace(".Container", "")
            A, B = h0.a("V", d + ".in"), h1.a("V", d + ".in")
            if A.eq(B):
                continue
            hit = (lambda x, k: z3.And(mine(x, k), h0.uq(o, k))) if d == "UniqueKeys" else mine
            yield "%s: the keys passed are there, and those from before" % nm, forall([VRef, Str], lambda x, k: B[x][k] == z3.Or(A[x][k], hit(x, k)), lambda x, k: [B[x][k]])
            for k_ in ORDER + (("val",) if d != "UniqueKeys" else ()):
                A2, B2 = h0.a("V", d + "." + k_), h1.a("V", d + "." + k_)
                yield "%s: others stay (%s)" % (nm, k_), forall([VRef], lambda x: imp(x != v, B2[x] == A2[x]), lambda x: [B2[x]])
        A1, B1 = h0.a("V", "KeysTypes.val"), h1.a("V", "KeysTypes.val")
        yield "the types of the keys", forall([Str], lambda k: imp(done(k), B1[v][k] == A1[o][k]), lambda k: [B1[v][k]])
        yield "the order of the keys stays", z3.And(*[h1.a(*k) == h0.a(*k) for k in KO])
        for q, R in (("H", HP), ("T", TP)):
            L0 = h0.a(q, "live")
            for k_ in ("in", "kv", "multi", "ov", "ok", "live") + ORDER:
                A6, B6 = h0.a(q, k_), h1.a(q, k_)
                if not A6.eq(B6):
                    yield "the indexes from before stay (%s.%s)" % (q, k_), forall([R], lambda h: imp(L0[h], B6[h] == A6[h]), lambda h: [B6[h]])
        yield from records_stay(h0, h1)
        yield from h1.inv(fam=lambda s, k: s == v, ord=lambda w: w == v, unk=lambda s: s == v)
    return Spec("over the keys of the other", inv)


class Copies(SetOp):
    """an operation after which the set it is called on is a copy of another one"""
    heaps = EVERYTHING

    def modifies(self, c):
        return SetOp.modifies(self, c) + [("heap", "V", k) for k in c.s0.heap["V"] if k.startswith("InvalidFileRecords.")]

    def result(self, c):
        return CT("void")

    def target(self, c):
        return self.ref(c)

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        if kind == "range" and closure_kind(eng, loc) == "copier":
            return over_copiers(eng, st, node, loc, self.target(c))
        if kind == "range" and closure_kind(eng, loc) is None:
            return self.over_records(eng, st, node, loc)
        return SetOp.loop(self, eng, st, node, kind, loc)

    def wanted(self, c, h):
        """which records of the collection a loop goes over become members"""
        return lambda r: TRUE

    def over_records(self, eng, st, node, loc):
        c = eng.cur[1]
        v, idx, o = self.target(c), loc["index"], owner_of(eng, loc)

        def inv(eng, s, b):
            h0, h1 = H(s), H(b)
            i = eng.load(b, idx).t
            P = eng.model(loc["range"].ct).read(s, loc["range"]).c["pos"]
            w = self.wanted(c, h0)
            yield from joined(h0, h1, v, lambda r: z3.And(h0.rs(o, r), w(r), P[r] < i))
            yield from h0.inv()
            yield "it begins without members", z3.And(h0.rss(v) == z3.K(RRef, FALSE), v != o)
        return Spec("over the other set", inv)


class CopySet(Copies):
    def needs(self, c):
        h = self.h0(c)
        v, o = self.ref(c), self.other(c)
        yield "called on a set without a vault", z3.And(h.isset(v), h.par(v) == NOV)
        yield "the other is a set with a vault", z3.And(h.isset(o), h.par(o) != NOV)

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, o = self.ref(c), self.other(c)
        yield from reassigned(h0, h1, lambda s: s == v, lambda s: h0.par(o), lambda s, r: h0.rs(o, r))


class MoveSet(Copies):
    needs = CopySet.needs

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, o = self.ref(c), self.other(c)
        yield from reassigned(h0, h1, lambda s: z3.Or(s == v, s == o), lambda s: z3.If(s == v, h0.par(o), NOV), lambda s, r: z3.And(s == v, h0.rs(o, r)))


class SetAssign(Copies):
    """copy and move assignment"""
    def __init__(self, key, moves_=False, **k):
        Copies.__init__(self, key, **k)
        self.moves_ = moves_

    def needs(self, c):
        h = self.h0(c)
        v, o = self.ref(c), self.other(c)
        yield "called on a set", h.isset(v)
        yield "the other is a set", h.isset(o)

    def result(self, c):
        return c.this if isinstance(c.this, LV) else CT("VaultRecordSet")

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, o = self.ref(c), self.other(c)
        aff = lambda s: z3.And(v != o, z3.Or(s == v, s == o) if self.moves_ else s == v)
        p = lambda s: z3.If(s == v, h0.par(o), NOV)
        yield from reassigned(h0, h1, aff, p, lambda s, r: z3.And(s == v, h0.rs(o, r)))


class SetMade(SetAssign):
    """copy and move construction: of storage that no vault and no record knows"""
    def modifies(self, c):
        return SetAssign.modifies(self, c) + [("heap", "V", k) for k in c.s0.heap["V"] if k.startswith("RecordTemplate.") and not k.startswith("RecordTemplate.Container.")]

    def needs(self, c):
        h = self.h0(c)
        v, o = self.ref(c), self.other(c)
        yield "blank storage", z3.And(h.isset(v), h.par(v) == NOV, v != o)
        yield "the other is a set", h.isset(o)

    def result(self, c):
        return CT("void")


class Combined(Copies):
    """Union and Intersection of two sets into a third"""
    def __init__(self, key, both, **k):
        Copies.__init__(self, key, **k)
        self.both = both            # members of both sets, or of any

    def target(self, c):
        return self.other(c, 2)

    def result(self, c):
        return CT("VaultOperationResult")

    def needs(self, c):
        h = self.h0(c)
        yield "three sets", z3.And(*[h.isset(self.other(c, i)) for i in range(3)])

    def wanted(self, c, h):
        a, b = self.other(c, 0), self.other(c, 1)
        return lambda r: z3.And(h.rs(a, r), h.rs(b, r))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        a, b, x = [self.other(c, i) for i in range(3)]
        S = z3.And(a != b, a != x, b != x)
        P, Q, M = h0.par(a) != NOV, h0.par(b) != NOV, h0.par(a) == h0.par(b)
        un = z3.And(*[h1.a(*k) == h0.a(*k) for k in self.heaps])
        no = lambda code: z3.And(result_is(c, c.eng, False, code), un)
        yield "the same set is refused", imp(z3.Not(S), no("SameVaultRecordSet"))
        yield "a set without a vault is refused", imp(z3.And(S, z3.Not(P)), no("ParentVaultNotValid"))
        yield "another set without a vault is refused", imp(z3.And(S, P, z3.Not(Q)), no("OtherParentVaultNotValid"))
        yield "a set of another vault is refused", imp(z3.And(S, P, Q, z3.Not(M)), no("ParentVaultNotMatch"))
        ok = z3.And(S, P, Q, M)
        yield "success otherwise", imp(ok, result_is(c, c.eng, True, "Success"))
        mem = (lambda r: z3.And(h0.rs(a, r), h0.rs(b, r))) if self.both else (lambda r: z3.Or(h0.rs(a, r), h0.rs(b, r)))
        yield from reassigned(h0, h1, lambda s: z3.And(ok, s == x), lambda s: h0.par(a), lambda s, r: mem(r))


SK = "VaultRecordSet::"
sets = lambda n: "VaultRecordSet" in n["type"]["qualType"]
copies = lambda n: sets(n) and "&&" not in n["type"]["qualType"]
moved = lambda n: sets(n) and "&&" in n["type"]["qualType"]
CONTRACTS.update(
    CopySet=lambda: CopySet(SK + "CopySet/1", cls="VaultRecordSet"),
    MoveSet=lambda: MoveSet(SK + "MoveSet/1", cls="VaultRecordSet"),
    Union=lambda: Combined("Union/3", False),
    Intersection=lambda: Combined("Intersection/3", True),
    SetAssign=lambda: SetAssign(SK + "operator=/1", cls="VaultRecordSet", pred=copies, label=SK + "operator=(const&)"),
    SetMoveAssign=lambda: SetAssign(SK + "operator=/1", True, cls="VaultRecordSet", pred=moved, label=SK + "operator=(&&)"),
    SetCopied=lambda: SetMade(SK + "VaultRecordSet/1", cls="VaultRecordSet", pred=copies, label=SK + "VaultRecordSet(const&)"),
    SetMoved=lambda: SetMade(SK + "VaultRecordSet/1", True, cls="VaultRecordSet", pred=moved, label=SK + "VaultRecordSet(&&)"),
)


def copy_engine():
    eng = drop_engine()
    return eng


def proof(*names):
    return prove_all(copy_engine(), names)
