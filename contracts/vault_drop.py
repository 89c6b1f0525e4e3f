"""Contracts of the operations that empty vaults and detach record sets."""
from .vault_sort import *

ORD = ("in",) + ORDER


def emptied_all(h0, h1, aff):
    """the vaults and sets aff(v) have no records any more: members, indexes, what the records know of sets, orders of others"""
    R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
    yield "they have no records, others keep theirs", forall([VRef], lambda x: R1[x] == z3.If(aff(x), z3.K(RRef, FALSE), R0[x]), lambda x: [R1[x]])
    yield from indexes_empty(h0, h1, aff)
    D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
    yield "no record knows them, other knowledge stays", forall([RRef, VRef], lambda r, s: imp(h1.live(r), D1[r][s] == z3.And(D0[r][s], z3.Not(aff(s)))), lambda r, s: [D1[r][s]])
    for k in ORDER:
        A, B = h0.a("V", "RecordsSet." + k), h1.a("V", "RecordsSet." + k)
        yield "the order of other vaults stays (%s)" % k, forall([VRef], lambda x: imp(z3.Not(aff(x)), B[x] == A[x]), lambda x: [B[x]])


def indexes_empty(h0, h1, aff):
    for q, R in (("H", HP), ("T", TP)):
        A, B = h0.a(q, "in"), h1.a(q, "in")
        yield "their %s indexes are empty, others stay" % ("hashed" if q == "H" else "ordered"), forall([R], lambda h: B[h] == z3.If(z3.And(own(h0, q, h), aff(h0.g(q, "ov", h))), z3.K(RRef, FALSE), A[h]), lambda h: [B[h]])


def given_up(h0, h1, rem):
    """the records rem are invalid, or freed when nothing refers to them"""
    V0, V1, L0, L1 = h0.a("R", "IsValid."), h1.a("R", "IsValid."), h0.a("R", "#live"), h1.a("R", "#live")
    yield "the records are invalid, others stay valid", forall([RRef], lambda r: imp(L1[r], V1[r] == z3.And(V0[r], z3.Not(rem(r)))), lambda r: [V1[r]])
    yield "they are freed when nothing refers to them", forall([RRef], lambda r: L1[r] == z3.And(L0[r], z3.Not(z3.And(rem(r), h0.g("R", "RefCounter.", r) == 0))), lambda r: [L1[r]])


def over_given_up(eng, st, node, loc, v):
    """the vault gives up its records one by one"""
    idx = loc["index"]

    def inv(eng, a, b):
        h0, h1 = H(a), H(b)
        i = eng.load(b, idx).t
        P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
        yield from given_up(h0, h1, lambda r: z3.And(h0.rs(v, r), P[r] < i))
    return Spec("over the records", inv)


class DropData(Op):
    """every record of a vault goes, and so do the members of its sets; the keys stay"""
    heaps = tuple(ALLH) + tuple(("V", "RecordsSet." + k) for k in ORD) + tuple(("R", "dependentVaultRecordSets." + k) for k in ORD) + (("R", "IsValid."), ("R", "#live"))

    def result(self, c):
        return CT("void")

    def needs(self, c):
        yield "called on a vault", self.h0(c).base(self.ref(c))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        yield from emptied_all(h0, h1, lambda x: z3.Or(x == v, h0.sets(v, x)))
        yield from given_up(h0, h1, lambda r: h0.rs(v, r))
        yield "its size", h1.g("V", "RecordsSet.size", v) == 0

    def loop(self, eng, st, node, kind, loc):
        if kind != "range":
            return None
        v = self.ref(eng.cur[1])
        if closure_kind(eng, loc) == "clearer":
            return over_clearers(eng, st, node, loc)
        if not isinstance(loc["range"], LV):
            return None
        if loc["range"].prefix.startswith("RecordsSet."):
            return over_given_up(eng, st, node, loc, v)
        if loc["range"].prefix.startswith("RecordSetsSet."):
            idx = loc["index"]

            def inv(eng, a, b):
                h0, h1 = H(a), H(b)
                i = eng.load(b, idx).t
                P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
                yield from emptied_all(h0, h1, lambda s: z3.And(h0.sets(v, s), P[s] < i))
                yield from h1.inv()
            return Spec("over the sets", inv)


TORN = tuple(("V", d + "." + k) for d in DICTS for k in ("in", "val") + ORDER) + tuple(("V", d + "." + k) for d in ("UniqueKeys", "RecordsSet", "RecordSetsSet") for k in ORD) + KO + (("V", "ParentVault."),) + tuple(
    ALLH) + (("H", "live"), ("T", "live")) + tuple(("R", "dependentVaultRecordSets." + k) for k in ORD) + (("R", "IsValid."), ("R", "#live"))


def torn(h0, h1, aff, bare):
    """the vaults and sets aff(v) have neither keys nor records; the indexes of the sets bare(v) were emptied before they were freed"""
    for d in DICTS + ("UniqueKeys",):
        nm = d.replace(".Container", "")
        A, B = h0.a("V", d + ".in"), h1.a("V", d + ".in")
        yield "%s: nothing is left, others stay" % nm, forall([VRef], lambda v: B[v] == z3.If(aff(v), z3.K(Str, FALSE), A[v]), lambda v: [B[v]])
        for o in ORDER + (("val",) if d != "UniqueKeys" else ()):
            A2, B2 = h0.a("V", d + "." + o), h1.a("V", d + "." + o)
            yield "%s: others stay (%s)" % (nm, o), forall([VRef], lambda v: imp(z3.Not(aff(v)), B2[v] == A2[v]), lambda v: [B2[v]])
    A5, B5, N0, N1 = h0.a("V", "KeysOrder.at."), h1.a("V", "KeysOrder.at."), h0.a("V", "KeysOrder.size"), h1.a("V", "KeysOrder.size")
    yield "the order of the keys of others stays", forall([VRef], lambda v: imp(z3.Not(aff(v)), B5[v] == A5[v]), lambda v: [B5[v]])
    yield "no key is in order", forall([VRef], lambda v: N1[v] == z3.If(aff(v), z3.IntVal(0), N0[v]), lambda v: [N1[v]])
    R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
    yield "they have no records, others keep theirs", forall([VRef], lambda x: R1[x] == z3.If(aff(x), z3.K(RRef, FALSE), R0[x]), lambda x: [R1[x]])
    for k in ORDER:
        A, B = h0.a("V", "RecordsSet." + k), h1.a("V", "RecordsSet." + k)
        yield "the order of the records of others stays (%s)" % k, forall([VRef], lambda x: imp(z3.Not(aff(x)), B[x] == A[x]), lambda x: [B[x]])
    yield from indexes_empty(h0, h1, bare)
    for q, R in (("H", HP), ("T", TP)):
        A, B = h0.a(q, "live"), h1.a(q, "live")
        yield "their indexes are freed, no others (%s)" % q, forall([R], lambda h: B[h] == z3.And(A[h], z3.Not(z3.And(own(h0, q, h), aff(h0.g(q, "ov", h))))), lambda h: [B[h]])
    D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
    yield "no record knows them, other knowledge stays", forall([RRef, VRef], lambda r, s: imp(h1.live(r), D1[r][s] == z3.And(D0[r][s], z3.Not(aff(s)))), lambda r, s: [D1[r][s]])


def parted(h0, h1, aff):
    """the sets aff(s) have no vault"""
    A, B = h0.a("V", "ParentVault."), h1.a("V", "ParentVault.")
    yield "they have no vault any more, others keep theirs", forall([VRef], lambda s: B[s] == z3.If(aff(s), NOV, A[s]), lambda s: [B[s]])


class DropVault(Op):
    """a vault loses its keys and its records, and its sets are detached"""
    kept = False

    def modifies(self, c):
        return [("heap", "V", k) for k in c.s0.heap["V"] if k.startswith("InvalidFileRecords.")] + [("heap",) + x for x in TORN]

    def result(self, c):
        return CT("void")

    def needs(self, c):
        h = self.h0(c)
        v = self.ref(c)
        yield "called on a vault, or on a set of one that has been cleared", z3.And(v != NOV, imp(h.isset(v), z3.And(h.par(v) != NOV, h.rss(v) == z3.K(RRef, FALSE))))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        yield from torn(h0, h1, lambda x: z3.Or(x == v, h0.sets(v, x)), lambda x: h0.sets(v, x))
        yield from parted(h0, h1, lambda x: h0.sets(v, x))
        yield from given_up(h0, h1, lambda r: h0.rs(v, r))
        A, B = h0.a("V", "RecordSetsSet.in"), h1.a("V", "RecordSetsSet.in")
        yield "it has no sets, others keep theirs", forall([VRef], lambda x: B[x] == z3.If(x == v, z3.K(VRef, FALSE), A[x]), lambda x: [B[x]])
        for k in ORDER:
            A2, B2 = h0.a("V", "RecordSetsSet." + k), h1.a("V", "RecordSetsSet." + k)
            yield "the order of the sets of others stays (%s)" % k, forall([VRef], lambda x: imp(z3.And(x != v, z3.Not(A[v][x])), B2[x] == A2[x]), lambda x: [B2[x]])
        for n, f in h1.inv(fam=lambda s, k: z3.And(h0.isset(v), s == v), **self.apart(c)):
            yield "kept: " + n, f

    def lemmas(self, c):
        h = self.h0(c)
        v = self.ref(c)
        f = forall([VRef], lambda s: imp(h.isset(v), z3.Not(h.sets(v, s))), lambda s: [h.sets(v, s)])
        yield "a set has no sets", f, (f, ())

    def loop(self, eng, st, node, kind, loc):
        v = self.ref(eng.cur[1])
        if kind == "for":
            def inv(eng, a, b):
                h0, h1 = H(a), H(b)
                S0, S1 = h0.a("V", "RecordSetsSet.in"), h1.a("V", "RecordSetsSet.in")
                for l in locals_of(eng, a, lambda ct: ct.name in ("std::hash_iterator", "std::tree_iterator") and ct.args[0].name == "VaultRecordSet"):
                    x = eng.load(b, l)
                    p = place_of(eng, x)
                    w = eng.model(p.ct).read(b, p)
                    yield "the iterator is at the first set", w.c["at"][z3.IntVal(0)] == x.t
                    if p.keys:
                        yield "it goes over the sets of the vault", p.keys[0] == v
                yield "no sets are added, other vaults keep theirs", forall([VRef, VRef], lambda x, s: z3.And(imp(S1[x][s], S0[x][s]), imp(x != v, S1[x][s] == S0[x][s])), lambda x, s: [S1[x][s]])
                for k in ORDER:
                    A2, B2 = h0.a("V", "RecordSetsSet." + k), h1.a("V", "RecordSetsSet." + k)
                    yield "the order of the sets of others stays (%s)" % k, forall([VRef], lambda x: imp(z3.And(x != v, z3.Not(S0[v][x])), B2[x] == A2[x]), lambda x: [B2[x]])
                aff = lambda s: z3.And(S0[v][s], z3.Not(S1[v][s]))
                yield from torn(h0, h1, aff, aff)
                yield from parted(h0, h1, aff)
                yield from given_up(h0, h1, lambda r: FALSE)
                yield from h1.inv(**self.apart(eng.cur[1]))
            return Spec("over the sets", inv)
        if kind != "range" or not isinstance(loc["range"], LV):
            return None
        idx, pre = loc["index"], loc["range"].prefix
        if pre.startswith("RecordsSet."):
            return over_given_up(eng, st, node, loc, v)
        for q, R, S in (("H", HP, "VaultHashMapStructure."), ("T", TP, "VaultMapStructure.")):
            if pre.startswith(S):
                def inv(eng, a, b, q=q, R=R, S=S):
                    h0, h1, i = H(a), H(b), eng.load(b, idx).t
                    P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
                    A, B, L0, L1 = h0.a("V", S + "Container.val"), h1.a("V", S + "Container.val"), h0.a(q, "live"), h1.a(q, "live")
                    done = lambda k: z3.And(h0.g("V", S + "Container.in", v, k), P[k] < i)
                    yield "the holders passed are empty", forall([VRef, Str], lambda x, k: imp(z3.Or(x != v, z3.Not(done(k))), B[x][k] == A[x][k]), lambda x, k: [B[x][k]])
                    yield "they hold nothing", forall([Str], lambda k: imp(done(k), B[v][k] == NOVAL), lambda k: [B[v][k]])
                    ov, ok = lambda h: h0.g(q, "ov", h), lambda h: h0.g(q, "ok", h)
                    mine = lambda h: z3.And(ov(h) == v, done(ok(h)), (h0.hs if q == "H" else h0.ts)(v, ok(h)) == h)
                    yield "their indexes are freed, no others", forall([R], lambda h: L1[h] == z3.And(L0[h], z3.Not(mine(h))), lambda h: [L1[h]])
                return Spec("over the indexes", inv)


class Reset(Op):
    """a set loses its members and its vault; the vault does not know it any more"""
    def modifies(self, c):
        return DropVault.modifies(self, c)

    def result(self, c):
        return CT("void")

    def needs(self, c):
        yield "called on a set", self.h0(c).isset(self.ref(c))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        p = h0.par(v)
        me = lambda x: z3.And(p != NOV, x == v)
        yield from torn(h0, h1, me, me)
        yield from parted(h0, h1, me)
        yield from given_up(h0, h1, lambda r: FALSE)
        A, B = h0.a("V", "RecordSetsSet.in"), h1.a("V", "RecordSetsSet.in")
        yield "its vault does not know it, others stay", forall([VRef, VRef], lambda x, s: B[x][s] == z3.And(A[x][s], z3.Not(z3.And(p != NOV, x == p, s == v))), lambda x, s: [B[x][s]])
        P0, P1, A0, A1, N0, N1 = [h.a("V", "RecordSetsSet." + k) for k in ("pos", "at", "size") for h in (h0, h1)]
        hit = lambda x: z3.And(p != NOV, x == p)
        at = P0[p][v]
        yield "the sets after it move up", forall([VRef, Int], lambda x, i: imp(hit(x), A1[x][i] == z3.If(i >= at, A0[x][i + 1], A0[x][i])), lambda x, i: [A1[x][i]])
        yield "their places", forall([VRef, VRef], lambda x, s: imp(hit(x), P1[x][s] == P0[x][s] - z3.If(P0[x][s] > at, z3.IntVal(1), z3.IntVal(0))), lambda x, s: [P1[x][s]])
        yield "their number", forall([VRef], lambda x: imp(hit(x), N1[x] == N0[x] - 1), lambda x: [N1[x]])
        for k in ORDER:
            A2, B2 = h0.a("V", "RecordSetsSet." + k), h1.a("V", "RecordSetsSet." + k)
            yield "the order of the sets of others stays (%s)" % k, forall([VRef], lambda x: imp(z3.And(z3.Not(hit(x)), x != v), B2[x] == A2[x]), lambda x: [B2[x]])


def holder_emptied(eng, st, obj, val):
    for q, S, x in (("H", "VaultHashMapStructure.", asH(val)), ("T", "VaultMapStructure.", asT(val))):
        if isinstance(obj, LV) and obj.store == ("heap", "V") and obj.prefix == S + "Container.val":
            b = dict(st.heap[q])
            nul_ = nul(HP if q == "H" else TP)
            had = val != NOVAL
            eng.oblige(st, "the index freed is alive", imp(had, z3.And(x != nul_, sel(b["live"], x))))
            b["live"] = z3.If(had, z3.Store(b["live"], x, FALSE), b["live"])
            st.heap[q] = b


def indexes_cleared(eng, st, obj, v):
    """the indexes still held by the container go with their holders"""
    if not (isinstance(obj, LV) and obj.store == ("heap", "V")) or obj.prefix not in ("VaultHashMapStructure.", "VaultMapStructure."):
        return
    q, R, ptr = ("H", HP, ptrH) if obj.prefix == "VaultHashMapStructure." else ("T", TP, ptrT)
    IN, VAL = name(st, "in", v.c["in"]), name(st, "val", v.c["val"])
    H(st)
    b = dict(st.heap[q])
    L0, OK = b["live"], b["ok"]
    as_ = asH if q == "H" else asT
    eng.oblige(st, "the indexes freed are alive, under the name that they belong to", forall([Str], lambda k: imp(z3.And(IN[k], VAL[k] != NOVAL), z3.And(L0[as_(VAL[k])], OK[as_(VAL[k])] == k)), lambda k: [VAL[k]]))
    L1 = fresh("live", L0.sort())
    st.assume(forall([R], lambda h: L1[h] == z3.And(L0[h], z3.Not(z3.And(IN[OK[h]], VAL[OK[h]] != NOVAL, as_(VAL[OK[h]]) == h))), lambda h: [L1[h]]))
    b["live"] = L1
    st.heap[q] = b


LIMBO = z3.Const("the vault to be", VRef)


def unsettled(con, b=LIMBO):
    """the contract con, on a set that a vault lists which is not its own yet"""
    con.pending = b
    con.label = con.label + " (on a set in transit)"
    return con


class InTransit:
    """within Reset of a set in transit, the contracts of sets in transit apply"""
    def apply(self, eng, st, this, args, e):
        b = eng.cur[0].limbo(eng, self, this) if hasattr(eng.cur[0], "limbo") else None
        if b is not None and self.pending is None:
            return unsettled(type(self)(self.key, cls="VaultRecordSet"), b).apply(eng, st, this, args, e)
        return Op.apply(self, eng, st, this, args, e)


    def limbo(self, eng, con, this):
        return self.pending


class DropVault(InTransit, DropVault):
    pass


class Clear(InTransit, SetClear):
    pass


class Reset(InTransit, Reset):
    pass


CONTRACTS.update(
    SetClear=lambda: Clear("VaultRecordSet::Clear/0", cls="VaultRecordSet"),
    DropData=lambda: DropData("Vault::DropData/0", cls="VaultRecordSet"),
    DropVault=lambda: DropVault("Vault::DropVault/0", cls="VaultRecordSet"),
    Reset=lambda: Reset("VaultRecordSet::Reset/0", cls="VaultRecordSet"),
    SetClearNew=lambda: unsettled(Clear("VaultRecordSet::Clear/0", cls="VaultRecordSet")),
    DropVaultNew=lambda: unsettled(DropVault("Vault::DropVault/0", cls="VaultRecordSet")),
    ResetNew=lambda: unsettled(Reset("VaultRecordSet::Reset/0", cls="VaultRecordSet")),
)


def drop_engine():
    eng = sort_engine()
    u = eng.u
    u.hooks["holder emptied"] = holder_emptied
    u.hooks["indexes cleared"] = indexes_cleared
    return eng


def proof(*names):
    return prove_all(drop_engine(), names)
