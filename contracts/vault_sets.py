"""Contracts of record sets: membership, algebra, clearing."""
from .vault_reads import *

AD = tuple(KV) + tuple(("V", "RecordsSet." + k) for k in ("in",) + ORDER) + tuple(("R", "dependentVaultRecordSets." + k) for k in ("in",) + ORDER)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def distinct(h):
    """records of one vault or set do not share values of its unique keys (follows from the invariant)"""
    return forall([VRef, Str, RRef, RRef], lambda v, k, a, b: imp(z3.And(h.uq(v, k), h.rs(v, a), h.rs(v, b), h.rv(a, k) == h.rv(b, k)), a == b),
                  lambda v, k, a, b: [(h.rs(v, a), h.rs(v, b), h.rv(a, k), h.rv(b, k))])


def distinct_lemma(h):
    """what the proof of distinct looks at"""
    v, k, a, b = [fresh(n, s) for n, s in (("v", VRef), ("k", Str), ("a", RRef), ("b", RRef))]
    hh = h.hs(v, k)
    g = imp(z3.And(h.uq(v, k), h.rs(v, a), h.rs(v, b), h.rv(a, k) == h.rv(b, k)), a == b)
    see = z3.And(h.g("H", "in", hh) == h.g("H", "in", hh), h.kt(v, k))
    seen = [h.hin(hh, a), h.hin(hh, b), h.hkv(hh, a), h.hkv(hh, b), h.g("H", "in", hh)]
    return g, seen


def joined(h0, h1, v, add):
    """the records add have become members of v, and nothing else happened"""
    R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
    yield "the records are members, and those from before", forall([VRef, RRef], lambda x, r: R1[x][r] == z3.Or(R0[x][r], z3.And(x == v, add(r))), lambda x, r: [R1[x][r]])
    yield from indexed(h0, h1, v, add)
    D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
    yield "the records know the set", forall([RRef, VRef], lambda r, s: D1[r][s] == z3.Or(D0[r][s], z3.And(add(r), s == v)), lambda r, s: [D1[r][s]])
    for k in ORDER:
        A, B = h0.a("V", "RecordsSet." + k), h1.a("V", "RecordsSet." + k)
        yield "the order of other vaults stays (%s)" % k, forall([VRef], lambda x: imp(x != v, A[x] == B[x]), lambda x: [B[x]])


def indexed(h0, h1, v, add):
    """the records add are in the indexes of v under their values"""
    for q, R in (("H", HP), ("T", TP)):
        A, B, K, L = h0.a(q, "in"), h1.a(q, "in"), h0.a(q, "kv"), h1.a(q, "kv")
        nm = "hashed" if q == "H" else "ordered"
        hit = lambda h, r: z3.And(own(h0, q, h), h0.g(q, "ov", h) == v, add(r))
        yield "the records are in the %s indexes, and those from before" % nm, forall([R, RRef], lambda h, r: B[h][r] == z3.Or(A[h][r], hit(h, r)), lambda h, r: [B[h][r]])
        yield "they are there under their values (%s)" % nm, forall([R, RRef], lambda h, r: imp(B[h][r], L[h][r] == z3.If(A[h][r], K[h][r], h0.rv(r, h0.g(q, "ok", h)))), lambda h, r: [L[h][r]])


def over_adders(eng, st, node, loc):
    """every key's stored adder runs for one record"""
    v, rec, idx = owner_of(eng, loc), record_in(eng, st, node), loc["index"]

    def inv(eng, a, b):
        h0, h1 = H(a), H(b)
        i = eng.load(b, idx).t
        P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
        mine = lambda q, h: z3.And(own(h0, q, h), h0.g(q, "ov", h) == v, P[h0.g(q, "ok", h)] < i)
        yield from withrec(h0, h1, mine, rec, lambda k: h0.rv(rec, k))
    return Spec("over the keys", inv)


def over_clearers(eng, st, node, loc):
    v, idx = owner_of(eng, loc), loc["index"]

    def inv(eng, a, b):
        h0, h1 = H(a), H(b)
        i = eng.load(b, idx).t
        P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
        for q, R in (("H", HP), ("T", TP)):
            A, B = h0.a(q, "in"), h1.a(q, "in")
            mine = lambda h: z3.And(own(h0, q, h), h0.g(q, "ov", h) == v, P[h0.g(q, "ok", h)] < i)
            yield "the indexes are empty, the others stay", forall([R], lambda h: B[h] == z3.If(mine(h), z3.K(RRef, FALSE), A[h]), lambda h: [B[h]])
    return Spec("over the keys", inv)


def over_members(eng, st, node, loc):
    """records forget the set they are members of"""
    v, idx = owner_of(eng, loc), loc["index"]

    def inv(eng, a, b):
        h0, h1 = H(a), H(b)
        i = eng.load(b, idx).t
        w = eng.model(loc["range"].ct).read(a, loc["range"])
        P = w.c["pos"]
        D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
        yield "the records passed do not know the set", forall([RRef, VRef], lambda r, s: D1[r][s] == z3.And(D0[r][s], z3.Not(z3.And(s == v, h0.rs(v, r), P[r] < i))), lambda r, s: [D1[r][s]])
    return Spec("over the members", inv)


class SetOp(Op):
    """an operation of a record set"""
    def result(self, c):
        return CT("VaultOperationResult")

    def param(self, eng, st, p):
        ct = ctype(p).plain()
        if ct.name in ("VaultRecordSet", "Vault") and "&" in (p["type"].get("desugaredQualType") or p["type"]["qualType"]):
            x = fresh("other", VRef)
            st.assume(x != NOV)
            return eng.deref(st, V(CT(ct.name).addr(), {"": x}))
        return VC.param(self, eng, st, p)

    def other(self, c, i=0):
        return c.args[i].keys[0]

    def needs(self, c):
        h = self.h0(c)
        yield "called on a set", h.isset(self.ref(c))

    def unchanged(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        return z3.And(*[h1.a(*k) == h0.a(*k) for k in self.heaps])

    def loop(self, eng, st, node, kind, loc):
        if kind == "range":
            k = closure_kind(eng, loc)
            if k == "adder":
                return over_adders(eng, st, node, loc)
            if k == "clearer":
                return over_clearers(eng, st, node, loc)
        return Op.loop(self, eng, st, node, kind, loc)

    def lemmas(self, c):
        """consequences of the invariant, proved at the start of the function"""
        h = self.h0(c)
        yield "records do not share unique values", distinct(h), distinct_lemma(h)


class AddRecord(SetOp):
    heaps = AD

    def needs(self, c):
        yield from SetOp.needs(self, c)
        h = self.h0(c)
        a = c.args[0]
        yield "the reference counts", sound(h, ptr_of(c, a), vlt_of(c, a))
        yield "the reference knows the vault of its record", current(h, ptr_of(c, a), vlt_of(c, a))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        a = c.args[0]
        rec, vlt = ptr_of(c, a), vlt_of(c, a)
        ok = z3.And(rec != NOREC, h0.valid(rec))
        has, mine = h0.par(v) != NOV, vlt == h0.par(v)
        no = lambda code: z3.And(result_is(c, c.eng, False, code), self.unchanged(c))
        yield "a set without a vault refuses", imp(z3.Not(has), no("ParentVaultNotValid"))
        yield "a reference without a record is refused", imp(z3.And(has, z3.Not(ok)), no("DataRecordNotValid"))
        yield "a record of another vault is refused", imp(z3.And(has, ok, z3.Not(mine)), no("ParentVaultNotMatch"))
        yield "a member is refused", imp(z3.And(has, ok, mine, h0.rs(v, rec)), no("RecordAlredyInSet"))
        yes = z3.And(has, ok, mine, z3.Not(h0.rs(v, rec)))
        yield "success", imp(yes, result_is(c, c.eng, True, "Success"))
        for n, f in joined(h0, h1, v, lambda r: r == rec):
            yield n, imp(yes, f)
        yield "its size", imp(yes, h1.g("V", "RecordsSet.size", v) == h0.g("V", "RecordsSet.size", v) + 1)


class CheckRecord(SetOp):
    def result(self, c):
        return BOOL

    def does(self, c):
        h0 = self.h0(c)
        v = self.ref(c)
        yield "it says whether the record is a member", c.ret.t == z3.And(h0.par(v) != NOV, h0.rs(v, ptr_of(c, c.args[0])))


class SetClear(SetOp):
    heaps = tuple(ALLH) + tuple(("V", "RecordsSet." + k) for k in ("in",) + ORDER) + tuple(("R", "dependentVaultRecordSets." + k) for k in ("in",) + ORDER)

    def result(self, c):
        return CT("void")

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        yield from emptied(h0, h1, v)
        yield "its size", imp(h0.par(v) != NOV, h1.g("V", "RecordsSet.size", v) == 0)

    def loop(self, eng, st, node, kind, loc):
        if kind == "range" and closure_kind(eng, loc) is None:
            return over_members(eng, st, node, loc)
        return SetOp.loop(self, eng, st, node, kind, loc)


def emptied(h0, h1, v):
    """the set v has no member any more and nothing else happened"""
    R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
    yield "it has no members, others keep theirs", forall([VRef], lambda x: R1[x] == z3.If(x == v, z3.K(RRef, FALSE), R0[x]), lambda x: [R1[x]])
    for q, R in (("H", HP), ("T", TP)):
        A, B = h0.a(q, "in"), h1.a(q, "in")
        yield "its indexes are empty, others stay", forall([R], lambda h: B[h] == z3.If(z3.And(own(h0, q, h), h0.g(q, "ov", h) == v), z3.K(RRef, FALSE), A[h]), lambda h: [B[h]])
    D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
    yield "no record knows it, other knowledge stays", forall([RRef, VRef], lambda r, s: imp(h0.live(r), D1[r][s] == z3.And(D0[r][s], s != v)), lambda r, s: [D1[r][s]])
    for k in ORDER:
        A, B = h0.a("V", "RecordsSet." + k), h1.a("V", "RecordsSet." + k)
        yield "the order of other vaults stays (%s)" % k, forall([VRef], lambda x: imp(x != v, A[x] == B[x]), lambda x: [B[x]])


class Algebra(SetOp):
    """an operation with another set of the same vault"""
    def needs(self, c):
        yield from SetOp.needs(self, c)
        yield "the other is a set", self.h0(c).isset(self.other(c))

    def conditions(self, c):
        h0 = self.h0(c)
        v, a = self.ref(c), self.other(c)
        P, Q, M, S = h0.par(v) != NOV, h0.par(a) != NOV, h0.par(v) == h0.par(a), v != a
        no = lambda code: z3.And(result_is(c, c.eng, False, code), self.unchanged(c))
        yield "a set without a vault refuses", imp(z3.Not(P), no("ParentVaultNotValid"))
        yield "another set without a vault is refused", imp(z3.And(P, z3.Not(Q)), no("OtherParentVaultNotValid"))
        yield "a set of another vault is refused", imp(z3.And(P, Q, z3.Not(M)), no("ParentVaultNotMatch"))
        yield "the same set is refused", imp(z3.And(P, Q, M, z3.Not(S)), no("SameVaultRecordSet"))
        yield "success otherwise", imp(z3.And(P, Q, M, S), result_is(c, c.eng, True, "Success"))

    def ok(self, c):
        h0 = self.h0(c)
        v, a = self.ref(c), self.other(c)
        return z3.And(h0.par(v) != NOV, h0.par(a) != NOV, h0.par(v) == h0.par(a), v != a)


class Join(Algebra):
    heaps = AD

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, a = self.ref(c), self.other(c)
        yield from self.conditions(c)
        for n, f in joined(h0, h1, v, lambda r: z3.And(h0.rs(a, r), z3.Not(h0.rs(v, r)))):
            yield n, imp(self.ok(c), f)

    def loop(self, eng, st, node, kind, loc):
        if kind == "range" and closure_kind(eng, loc) is None:
            c = eng.cur[1]
            v, a = self.ref(c), self.other(c)
            idx = loc["index"]

            def inv(eng, s, b):
                h0, h1 = H(c.s0), H(b)
                i = eng.load(b, idx).t
                P = eng.model(loc["range"].ct).read(s, loc["range"]).c["pos"]
                yield from joined(h0, h1, v, lambda r: z3.And(h0.rs(a, r), z3.Not(h0.rs(v, r)), P[r] < i))
            return Spec("over the other set", inv)
        return SetOp.loop(self, eng, st, node, kind, loc)


class Sieve(Algebra):
    """Exclude and Intersect: members go which are (are not) in the other set"""
    heaps = RM

    def __init__(self, key, drop, **k):
        Algebra.__init__(self, key, **k)
        self.drop = drop            # members of the other set go, or the others

    def goes(self, c):
        h0 = self.h0(c)
        a = self.other(c)
        return lambda r: h0.rs(a, r) if self.drop else z3.Not(h0.rs(a, r))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, a = self.ref(c), self.other(c)
        yield from self.conditions(c)
        go = self.goes(c)
        for n, f in gone(h0, h1, v, lambda r: z3.And(h0.rs(v, r), go(r))):
            yield n, imp(self.ok(c), f)

    def loop(self, eng, st, node, kind, loc):
        if kind != "for":
            return Algebra.loop(self, eng, st, node, kind, loc)
        c = eng.cur[1]
        v, a = self.ref(c), self.other(c)
        go = self.goes(c)
        cur = only(locals_of(eng, st, lambda ct: ct.name == "std::hash_iterator"), "iterator of the loop")

        def inv(eng, s, b):
            h0, h1 = H(c.s0), H(b)
            e = eng.load(b, cur)
            yield from h1.inv()
            rem = lambda r: z3.And(h0.rs(v, r), z3.Not(h1.rs(v, r)))
            yield from gone(h0, h1, v, rem)
            yield "only what has to go went", forall([RRef], lambda r: imp(rem(r), go(r)), lambda r: [h0.rs(v, r)])
            w = eng.model(CT("std::unordered_set", (CT("VaultRecord", (), 1),))).read(b, place_of(eng, e))
            P, N, AT = w.c["pos"], w.c["size"], w.c["at"]
            yield "the iterator is of the set", z3.And(P[e.t] >= 0, P[e.t] <= N, AT[P[e.t]] == e.t)
            yield "what was passed stays", forall([RRef], lambda r: imp(z3.And(h1.rs(v, r), P[r] < P[e.t]), z3.Not(go(r))), lambda r: [h1.rs(v, r)])
        return Spec("over the members", inv)


class SetRemove(SetOp):
    heaps = RM

    def result(self, c):
        return BOOL

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        rec = ptr_of(c, c.args[0])
        was = z3.And(h0.par(v) != NOV, h0.rs(v, rec))
        yield "it says whether the record was a member", c.ret.t == was
        yield from gone(h0, h1, v, lambda r: z3.And(was, r == rec))


class SetSize(SetOp):
    def result(self, c):
        return SIZE

    def does(self, c):
        h0 = self.h0(c)
        v = self.ref(c)
        yield "the number of members", c.ret.t == z3.If(h0.par(v) != NOV, h0.g("V", "RecordsSet.size", v), z3.IntVal(0))


class SetEqual(SetOp):
    """comparison of two sets; a function of its own"""
    def __init__(self, key, eq, **k):
        SetOp.__init__(self, key, **k)
        self.eq = eq

    def result(self, c):
        return BOOL

    def needs(self, c):
        return []

    def lemmas(self, c):
        return []

    def does(self, c):
        h0 = self.h0(c)
        a, b = self.other(c, 0), self.other(c, 1)
        e = z3.And(h0.par(a) == h0.par(b), h0.rss(a) == h0.rss(b))
        yield "equal when the vault and the members are the same", c.ret.t == (e if self.eq else z3.Not(e))


SK = "VaultRecordSet::"
CONTRACTS.update(
    AddRecord=lambda: AddRecord(SK + "AddRecord/1", cls="VaultRecordSet"),
    CheckRecord=lambda: CheckRecord(SK + "CheckRecord/1", cls="VaultRecordSet"),
    SetClear=lambda: SetClear(SK + "Clear/0", cls="VaultRecordSet"),
    Join=lambda: Join(SK + "Join/1", cls="VaultRecordSet"),
    Exclude=lambda: Sieve(SK + "Exclude/1", True, cls="VaultRecordSet"),
    Intersect=lambda: Sieve(SK + "Intersect/1", False, cls="VaultRecordSet"),
    SetRemove=lambda: SetRemove(SK + "RemoveRecord/1", cls="VaultRecordSet"),
    SetSize=lambda: SetSize(SK + "Size/0", cls="VaultRecordSet"),
    SetEqual=lambda: SetEqual("operator==/2", True, pred=lambda n: "VaultRecordSet" in n["type"]["qualType"]),
    SetUnequal=lambda: SetEqual("operator!=/2", False, pred=lambda n: "VaultRecordSet" in n["type"]["qualType"]),
)


def proof(*names):
    eng = reads_engine()
    return prove_all(eng, names)


def prove_all(eng, names):
    cons = {n: f() for n, f in CONTRACTS.items()}
    register(eng, cons)
    p = Proof()
    for n in names:
        con = cons[n]
        p.run(eng, con.label, lambda: prove_fn(eng, con))
    p.assumptions |= {"key types are parametric: verified for one type with a strict total order and consistent equality and hash",
                      "holders and map wrappers by their contracts (contracts/saver.py, container.py, maps.py)", "locks by contracts/locks.py; one thread"}
    p.assumptions.add("fewer than 2^62 references to one record")
    p.assumptions.add("predicates given to requests answer for a record and leave the vault alone")
    p.trusted |= {"models of std::unordered_set, std::unordered_map, std::set, std::list, std::vector, std::function, std::type_index"}
    return p.close(eng)
