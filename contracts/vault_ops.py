"""Contracts of the operations of vaults, record sets and records."""
from .vault import *

ALLH = [("H", "in"), ("T", "in")] + [(h, k) for h in "HT" for k in ORDER]


def own(h0, q, h):
    """index h belongs to a key of its owner"""
    ov, ok = h0.g(q, "ov", h), h0.g(q, "ok", h)
    return z3.And(h0.kt(ov, ok), (h0.hs(ov, ok) if q == "H" else h0.ts(ov, ok)) == h)


def without(h0, h1, aff, rec):
    """rec is gone from the indexes aff(heap, index), nothing else changes"""
    for q, R in (("H", HP), ("T", TP)):
        A, B = h0.a(q, "in"), h1.a(q, "in")
        yield "the record is gone from the %s indexes, the others stay" % ("hashed" if q == "H" else "ordered"), forall([R], lambda h: B[h] == z3.If(aff(q, h), z3.Store(A[h], rec, z3.BoolVal(False)), A[h]), lambda h: [B[h]])


def closed_up(h0, h1, aff, rec):
    """in the hashed indexes aff the pairs after that of rec move up; the order of the others stays"""
    at0, at1, pos0, pos1, n0, n1 = [h.a("H", k) for k in ORDER for h in (h0, h1)]
    hit = lambda h: z3.And(aff("H", h), h0.hin(h, rec))
    one = lambda f: z3.If(f, z3.IntVal(1), z3.IntVal(0))
    yield "the size of the hashed indexes", forall([HP], lambda h: n1[h] == n0[h] - one(hit(h)), lambda h: [n1[h]])
    yield "the positions in the hashed indexes", forall([HP, RRef], lambda h, r: pos1[h][r] == pos0[h][r] - one(z3.And(hit(h), pos0[h][r] > pos0[h][rec])), lambda h, r: [pos1[h][r]])
    yield "the order of the hashed indexes", forall([HP, Int], lambda h, i: at1[h][i] == z3.If(z3.And(hit(h), i >= pos0[h][rec]), at0[h][i + 1], at0[h][i]), lambda h, i: [at1[h][i]])


def order_stays(h0, h1, aff):
    """the order of the hashed indexes which are not aff"""
    for k in ORDER:
        A, B = h0.a("H", k), h1.a("H", k)
        yield "the order of other indexes stays (%s)" % k, forall([HP], lambda h: imp(z3.Not(aff("H", h)), B[h] == A[h]), lambda h: [B[h]])


def withrec(h0, h1, aff, rec, val):
    """rec is in the indexes aff(heap, index) under val(key), nothing else changes"""
    for q, R in (("H", HP), ("T", TP)):
        A, B, K, L = h0.a(q, "in"), h1.a(q, "in"), h0.a(q, "kv"), h1.a(q, "kv")
        nm = "hashed" if q == "H" else "ordered"
        yield "the record is in the %s indexes, the other pairs stay" % nm, forall([R], lambda h: B[h] == z3.If(aff(q, h), z3.Store(A[h], rec, z3.BoolVal(True)), A[h]), lambda h: [B[h]])
        yield "it is there under its value (%s)" % nm, forall([R], lambda h: L[h] == z3.If(aff(q, h), z3.Store(K[h], rec, val(h0.g(q, "ok", h))), K[h]), lambda h: [L[h]])


# ------------------------------------------------------------------ closures
class Closure:
    """contract of one kind of stored function, proved where the function is made"""
    heaps = ()
    params = ()
    ret = "void"

    def pre(self, eng, h, clo, a):
        return []

    def post(self, eng, h0, h1, clo, a, ret):
        return []

    def call(self, eng, st, f, args, e):
        H(st)
        s0 = st.copy()
        a = [eng.load(st, x) if isinstance(x, (LV, V)) else x for x in args]
        h0 = H(s0)
        if not can_pat(f.t):
            f = V(f.ct, {"": constant(st, "closure", f.t)}, f.meta)
        for n, g in self.pre(eng, h0, f.t, a):
            eng.oblige(st, "call of a stored %s: %s" % (self.name, n), g)
            st.assume(g)
        havoc_locs(eng, st, [("heap",) + hk for hk in self.heaps])
        r = bv(fresh("result", Bool)) if self.ret == "bool" else void()
        for n, g in self.post(eng, h0, H(st), f.t, a, r.t if self.ret == "bool" else None):
            st.assume(g)
        return [(st, r)]

    def prove(self, eng, st, fn, clo):
        """the body of the lambda, from any heap"""
        s = st.copy()
        s.ctl = None
        keep = [f for f in s.pc if not mentions_heap(f, st)]
        init(eng, s)
        s.pc = keep
        s.notes = {k: v for k, v in s.notes.items() if isinstance(k, tuple) and k[0] in ("meta", "ct")}
        H(s)
        args = []
        for p in func_params(fn.node["op"]):
            q = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            ct = ctype(p).plain() if not ctype(p).ptr else ctype(p)
            v = eng.havoc(CT(ct.name, ct.args, ct.ptr), p.get("name", "arg"))
            s.assume(*eng.wf(v))
            args.append(eng.newcell(s, v, p.get("name", "arg")) if "&" in q else v)
        a = [eng.load(s, x) for x in args]
        for n, g in self.pre(eng, H(s), clo, a):
            s.assume(g)
        s0 = s.copy()
        H(s0)
        s.heap, s.pc, s.notes = dict(s0.heap), list(s0.pc), dict(s0.notes)
        cur, was = eng.cur, eng.current
        eng.cur = (self, dict(args=a, clo=clo, s0=s0))
        eng.current = was + ", " + self.name
        eng.cover(s, "precondition can hold")
        try:
            n = 0
            for x, r in eng.call_lambda(s, fn, args):
                n += 1
                rv = eng.load(x, r).t if self.ret == "bool" else None
                h0, h1 = H(s0), H(x)
                for nm, g in self.post(eng, h0, h1, clo, a, rv):
                    eng.oblige(x, "postcondition: %s" % nm, g)
                for hp in s0.heap:
                    for k in s0.heap[hp]:
                        if (hp, k) not in self.heaps and not h1.a(hp, k).eq(h0.a(hp, k)):
                            eng.oblige(x, "frame: %s.%s is not changed" % (hp, k), h1.a(hp, k) == h0.a(hp, k))
            if not n:
                eng.oblige(State(), "some path reaches the end", z3.BoolVal(False))
        finally:
            eng.cur, eng.current = cur, was

    def loop(self, eng, st, node, kind, loc):
        return None


_heapy = {}


def mentions_heap(f, st=None):
    """whether a formula speaks about arrays or everything there is"""
    i = f.get_id()
    if i not in _heapy:
        if z3.is_quantifier(f) or z3.is_array(f):
            r = True
        else:
            r = any(mentions_heap(x) for x in f.children())
        _heapy[i] = (r, f)          # the formula is kept so that its number stays its own
    return _heapy[i][0]


class Eraser(Closure):
    name = "eraser"
    heaps = tuple(ALLH)

    def pre(self, eng, h, clo, a):
        r, key = a[0].t, cKey(clo)
        yield "the record is alive", z3.And(r != NOREC, h.live(r))
        yield "its indexes are there", z3.And(cH(clo) != nul(HP), cT(clo) != nul(TP), h.g("H", "live", cH(clo)), h.g("T", "live", cT(clo)))
        yield "the record has a value of the key", z3.And(h.rin(r, key), ty(h.rv(r, key)) == cTy(clo))
        yield "the record is there under its value", z3.And(imp(h.hin(cH(clo), r), h.hkv(cH(clo), r) == h.rv(r, key)), imp(h.tin(cT(clo), r), h.tkv(cT(clo), r) == h.rv(r, key)))

    def post(self, eng, h0, h1, clo, a, ret):
        r = a[0].t
        mine = lambda q, h: h == (cH(clo) if q == "H" else cT(clo))
        yield from without(h0, h1, mine, r)
        yield from closed_up(h0, h1, mine, r)

    def loop(self, eng, st, node, kind, loc):
        r = eng.cur[1]["args"][0].t
        return search(node, lambda e: e == r)


class Adder(Closure):
    """adds the record to the two indexes unless the value repeats a unique one"""
    name = "adder"
    heaps = tuple(KV)
    ret = "bool"

    def pre(self, eng, h, clo, a):
        r, key = a[0].t, cKey(clo)
        yield "the record is alive", z3.And(r != NOREC, h.live(r))
        yield "its indexes are there", z3.And(cH(clo) != nul(HP), cT(clo) != nul(TP), h.g("H", "live", cH(clo)), h.g("T", "live", cT(clo)))
        yield "its indexes are of one kind", h.g("H", "multi", cH(clo)) == h.g("T", "multi", cT(clo))
        yield "the record has a value of the key", z3.And(h.rin(r, key), ty(h.rv(r, key)) == cTy(clo))
        yield "its indexes hold the same pairs", z3.And(h.g("H", "in", cH(clo)) == h.g("T", "in", cT(clo)), forall([RRef], lambda x: imp(h.hin(cH(clo), x), h.hkv(cH(clo), x) == h.tkv(cT(clo), x)),
                                                        lambda x: [h.hkv(cH(clo), x)]))
        yield "the record is not there, or there under its value", z3.And(imp(h.hin(cH(clo), r), z3.And(z3.Not(h.g("H", "multi", cH(clo))), h.hkv(cH(clo), r) == h.rv(r, key))))

    def taken(self, h, clo, r):
        x = h.rv(r, cKey(clo))
        return z3.And(z3.Not(h.g("H", "multi", cH(clo))), exists([RRef], lambda y: z3.And(h.hin(cH(clo), y), h.hkv(cH(clo), y) == x)))

    def post(self, eng, h0, h1, clo, a, ret):
        r = a[0].t
        yield "it says whether the value was free", ret == z3.Not(self.taken(h0, clo, r))
        mine = lambda q, h: z3.And(h == (cH(clo) if q == "H" else cT(clo)), ret)
        yield from withrec(h0, h1, mine, r, lambda k: h0.rv(r, cKey(clo)))


class Clearer(Closure):
    name = "clearer"
    heaps = tuple(ALLH)

    def pre(self, eng, h, clo, a):
        yield "its indexes are there", z3.And(cH(clo) != nul(HP), cT(clo) != nul(TP), h.g("H", "live", cH(clo)), h.g("T", "live", cT(clo)))

    def post(self, eng, h0, h1, clo, a, ret):
        for q, R in (("H", HP), ("T", TP)):
            A, B = h0.a(q, "in"), h1.a(q, "in")
            yield "the index is empty, the others stay", forall([R], lambda h: B[h] == z3.If(h == (cH(clo) if q == "H" else cT(clo)), z3.K(RRef, False), A[h]), lambda h: [B[h]])


CLOSURES = {c.name: c for c in (Eraser(), Adder(), Clearer())}


# ------------------------------------------------------------------ removing a record
RM = tuple(ALLH) + (("V", "RecordsSet.in"), ("V", "RecordsSet.at"), ("V", "RecordsSet.pos"), ("V", "RecordsSet.size"), ("R", "IsValid."), ("R", "#live")) + tuple(("R", "dependentVaultRecordSets." + k) for k in ("in",) + ORDER)


class RemoveRecord(VC):
    heaps = RM

    def __init__(self, key, told=True, **k):
        VC.__init__(self, key, **k)
        self.told = told

    def param(self, eng, st, p):
        if ctype(p).ptr == 1 and ctype(p).name == "bool":
            if not self.told:
                return V(ctype(p), {"": z3.IntVal(0)}, {"null": True})
            return V(ctype(p), {"": fresh("p", Int)}, {"lv": eng.newcell(st, bv(fresh("flag", Bool)), "flag")})
        return VC.param(self, eng, st, p)

    def modifies(self, c):
        lv = c.args[1].meta.get("lv") if isinstance(c.args[1], V) else c.old(c.args[1]).meta.get("lv")
        return VC.modifies(self, c) + ([lv] if lv is not None else [])

    def result(self, c):
        return CT("std::hash_iterator", (CT("VaultRecord", (), 1),))

    def parts(self, c):
        return self.ref(c), c.old(c.args[0]).t

    def pre(self, c):
        h = self.h0(c)
        v, rec = self.parts(c)
        b = h.base(v)
        for n, f in h.schema():
            yield n, f
        yield "kind", z3.Or(h.isset(v), b)
        m = z3.And(h.isset(v), h.rs(v, rec))
        yield "the set holds live records", imp(m, z3.And(h.live(rec), rec != NOREC))
        yield "the set indexes its records", forall([Str], lambda k: imp(z3.And(m, h.kt(v, k)), z3.And(h.hin(h.hs(v, k), rec), h.tin(h.ts(v, k), rec),
            h.hkv(h.hs(v, k), rec) == h.rv(rec, k), h.tkv(h.ts(v, k), rec) == h.rv(rec, k), h.rin(rec, k), ty(h.rv(rec, k)) == h.ktv(v, k))), lambda k: [h.kt(v, k), h.hs(v, k), h.ts(v, k)])
        for n, f in list(h.order()) + list(h.content()) + list(h.records()) + list(h.family()):
            yield n, imp(b, f)

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, rec = self.parts(c)
        b = h0.base(v)
        was = h0.rs(v, rec)
        R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
        lv = (c.args[1] if isinstance(c.args[1], V) else c.old(c.args[1])).meta.get("lv")
        if lv is not None:
            yield "it says whether the record was there", c.new(lv).t == was
        yield "without the record nothing changes", imp(z3.Not(was), z3.And(*[h1.a(*k) == h0.a(*k) for k in self.heaps]))
        out = lambda x: z3.And(was, z3.Or(x == v, z3.And(b, h0.deps(rec, x))))
        yield "the record is gone from the vault and its sets", forall([VRef], lambda x: R1[x] == z3.If(out(x), z3.Store(R0[x], rec, z3.BoolVal(False)), R0[x]), lambda x: [R1[x]])
        yield from without(h0, h1, lambda q, h: z3.And(own(h0, q, h), out(h0.g(q, "ov", h))), rec)
        D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
        yield "the record does not know them any more", D1 == z3.If(was, z3.Store(D0, rec, z3.If(b, z3.K(VRef, z3.BoolVal(False)), z3.Store(D0[rec], v, z3.BoolVal(False)))), D0)
        V0, V1, L0, L1 = h0.a("R", "IsValid."), h1.a("R", "IsValid."), h0.a("R", "#live"), h1.a("R", "#live")
        gone = z3.And(was, b, h0.g("R", "RefCounter.", rec) == 0)
        yield "it is invalid when the vault gives it up", imp(z3.Not(gone), V1 == z3.If(z3.And(was, b), z3.Store(V0, rec, z3.BoolVal(False)), V0))
        yield "other records stay valid", forall([RRef], lambda r: imp(r != rec, V1[r] == V0[r]), lambda r: [V1[r]])
        yield "it is freed when nothing refers to it", L1 == z3.If(gone, z3.Store(L0, rec, z3.BoolVal(False)), L0)
        S0, S1, P0, P1 = h0.a("V", "RecordsSet.at"), h1.a("V", "RecordsSet.at"), h0.a("V", "RecordsSet.pos"), h1.a("V", "RecordsSet.pos")
        N0, N1 = h0.a("V", "RecordsSet.size"), h1.a("V", "RecordsSet.size")
        yield "the order of the other records stays", z3.And(N1[v] == N0[v] - z3.If(was, z3.IntVal(1), z3.IntVal(0)),
            forall([RRef], lambda r: P1[v][r] == P0[v][r] - z3.If(z3.And(was, P0[v][r] > P0[v][rec]), z3.IntVal(1), z3.IntVal(0)), lambda r: [P1[v][r]]),
            forall([Int], lambda i: S1[v][i] == z3.If(z3.And(was, i >= P0[v][rec]), S0[v][i + 1], S0[v][i]), lambda i: [S1[v][i]]))
        yield "the order of others stays unless they lose it", forall([VRef], lambda x: imp(z3.Not(out(x)), z3.And(S1[x] == S0[x], P1[x] == P0[x], N1[x] == N0[x])), lambda x: [S1[x], P1[x], N1[x]])
        yield from order_stays(h0, h1, lambda q, h: z3.And(own(h0, q, h), out(h0.g(q, "ov", h))))
        yield "the result is the position after the record", c.ret.t == z3.If(was, S0[v][P0[v][rec] + 1], NOREC)
        if getattr(self, "proving", False):
            for n, f in h1.inv():
                yield "kept: " + n, imp(b, f)

    def apply(self, eng, st, this, args, e):
        out = VC.apply(self, eng, st, this, args, e)
        v = this if isinstance(this, LV) else eng.deref(st, this)
        for s, r in out:
            r.c["of"] = place_id(eng, eng.member(v, "RecordsSet"))
        return out

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        if kind != "range":
            return None
        return over_erasers(eng, st, node, loc, "frame")


class RemoveFromDependentSets(VC):
    heaps = RM

    def pre(self, c):
        h = self.h0(c)
        rec = self.ref(c)
        D = lambda s: h.deps(rec, s)
        yield "alive", z3.And(h.live(rec), rec != NOREC)
        for n, f in h.schema():
            yield n, f
        yield "it knows sets only", forall([VRef], lambda s: imp(D(s), z3.And(s != NOV, h.isset(s), h.rs(s, rec))), lambda s: [D(s)])
        yield "the sets index the record", forall([VRef, Str], lambda s, k: imp(z3.And(D(s), h.kt(s, k)), z3.And(h.hin(h.hs(s, k), rec), h.tin(h.ts(s, k), rec),
            h.hkv(h.hs(s, k), rec) == h.rv(rec, k), h.tkv(h.ts(s, k), rec) == h.rv(rec, k), h.rin(rec, k), ty(h.rv(rec, k)) == h.ktv(s, k))), lambda s, k: [(D(s), h.kt(s, k)), (D(s), h.hs(s, k)), (D(s), h.ts(s, k))])

    def effect(self, h0, h1, rec, D):
        yield from order_stays(h0, h1, lambda q, h: z3.And(own(h0, q, h), D(h0.g(q, "ov", h))))
        R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
        yield "the record is gone from its sets", forall([VRef], lambda x: R1[x] == z3.If(D(x), z3.Store(R0[x], rec, z3.BoolVal(False)), R0[x]), lambda x: [R1[x]])
        yield from without(h0, h1, lambda q, h: z3.And(own(h0, q, h), D(h0.g(q, "ov", h))), rec)
        yield "no record is invalidated or freed", z3.And(h1.a("R", "IsValid.") == h0.a("R", "IsValid."), h1.a("R", "#live") == h0.a("R", "#live"))
        for k in ORDER:
            A, B = h0.a("V", "RecordsSet." + k), h1.a("V", "RecordsSet." + k)
            yield "the order of other vaults stays (%s)" % k, forall([VRef], lambda x: imp(z3.Not(D(x)), A[x] == B[x]), lambda x: [B[x]])

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        rec = self.ref(c)
        yield from self.effect(h0, h1, rec, lambda s: h0.deps(rec, s))
        D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
        yield "the record knows no set any more", D1 == z3.Store(D0, rec, z3.K(VRef, z3.BoolVal(False)))

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        if kind != "range":
            return None
        rec = self.ref(c)
        idx = loc["index"]

        def inv(eng, a, b):
            h0, h1 = H(c.s0), H(b)
            i = eng.load(b, idx).t
            P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
            yield from self.effect(h0, h1, rec, lambda s: z3.And(h0.deps(rec, s), P[s] < i))
            D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
            yield "the record knows no set any more", D1 == z3.Store(D0, rec, z3.K(VRef, z3.BoolVal(False)))
        return Spec("over the sets", inv)


class Invalidate(VC):
    heaps = (("R", "IsValid."), ("R", "#live"))

    def pre(self, c):
        h = self.h0(c)
        r = self.ref(c)
        yield "the record is alive", z3.And(r != NOREC, h.live(r))

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        r = self.ref(c)
        gone = h0.g("R", "RefCounter.", r) == 0
        V0, V1, L0, L1 = h0.a("R", "IsValid."), h1.a("R", "IsValid."), h0.a("R", "#live"), h1.a("R", "#live")
        yield "it is invalid", imp(z3.Not(gone), V1 == z3.Store(V0, r, z3.BoolVal(False)))
        yield "other records stay valid", forall([RRef], lambda x: imp(x != r, V1[x] == V0[x]), lambda x: [V1[x]])
        yield "it is freed exactly when nothing refers to it", L1 == z3.If(gone, z3.Store(L0, r, z3.BoolVal(False)), L0)


# ------------------------------------------------------------------ loops that several functions share
def owner_of(eng, loc):
    """the vault a member container belongs to"""
    l = loc["range"]
    if isinstance(l, LV) and l.store == ("heap", "V") and len(l.keys) == 1:
        return l.keys[0]


def closure_kind(eng, loc):
    l = loc["range"]
    if isinstance(l, LV) and l.ct.name == "std::unordered_map" and l.ct.args[1].name == "std::function":
        return eng.model(l.ct.args[1]).kind()


def record_in(eng, st, node):
    """the record that the body of a loop passes on"""
    out = []
    for i in refs_in(node["inner"][-1]):
        l = st.env.get(i)
        if isinstance(l, LV) and l.ct.name == "VaultRecordRef":
            l = eng.member(l, "VaultRecordPtr")
        v = eng.load(st, l) if isinstance(l, (LV, V)) else None
        if v is not None and v.ct.name == "VaultRecord" and v.ct.ptr == 1 and not any(v.t.eq(x) for x in out):
            out.append(v.t)
    return only(out, "record of a loop over stored functions")


def over_erasers(eng, st, node, loc, order=False):
    v, rec, idx = owner_of(eng, loc), record_in(eng, st, node), loc["index"]

    def inv(eng, a, b):
        h0, h1 = H(a), H(b)
        i = eng.load(b, idx).t
        P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
        mine = lambda q, h: z3.And(own(h0, q, h), h0.g(q, "ov", h) == v, P[h0.g(q, "ok", h)] < i)
        yield from without(h0, h1, mine, rec)
        if order == "frame":
            yield from order_stays(h0, h1, mine)
        elif order:
            yield from closed_up(h0, h1, mine, rec)
    return Spec("over the keys", inv)


# ------------------------------------------------------------------ operations that keep the invariant
class Op(VC):
    """an operation of the interface: starts and ends with the invariant"""
    order = False
    kept = True

    def needs(self, c):
        return []

    def does(self, c):
        return []

    pending = None              # a vault that lists the set called on, which is not its own yet

    def apart(self, c):
        """what the invariant leaves out"""
        return {} if self.pending is None else {"out": lambda b, s: z3.And(b == self.pending, s == self.ref(c))}

    def pre(self, c):
        yield from self.h0(c).inv(**self.apart(c))
        yield from self.needs(c)
        if self.pending is not None:
            h, b, v = self.h0(c), self.pending, self.ref(c)
            yield "a vault lists the set which is not its own yet", z3.And(b != NOV, h.base(b), h.isset(v), h.par(v) != b, h.sets(b, v))

    def post(self, c):
        yield from self.does(c)
        if self.kept:
            for n, f in self.h1(c).inv(**self.apart(c)):
                yield "kept: " + n, f

    def loop(self, eng, st, node, kind, loc):
        if kind == "range":
            k = closure_kind(eng, loc)
            if k == "eraser":
                return over_erasers(eng, st, node, loc, self.order)


def gone(h0, h1, v, rem):
    """the records rem are gone from v, and from its sets if it is a vault, and nothing else happened"""
    b = h0.base(v)
    out = lambda r, x: z3.And(rem(r), z3.Or(x == v, z3.And(b, h0.deps(r, x))))
    R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
    yield "the records are gone from the vault and its sets, no others", forall([VRef, RRef], lambda x, r: R1[x][r] == z3.And(R0[x][r], z3.Not(out(r, x))), lambda x, r: [R1[x][r]])
    for q, R in (("H", HP), ("T", TP)):
        A, B = h0.a(q, "in"), h1.a(q, "in")
        yield "their pairs are gone from the %s indexes, no others" % ("hashed" if q == "H" else "ordered"), forall([R, RRef], lambda h, r: B[h][r] == z3.And(A[h][r], z3.Not(z3.And(own(h0, q, h), out(r, h0.g(q, "ov", h))))),
                                                                                                                   lambda h, r: [B[h][r]])
    D0, D1 = h0.a("R", "dependentVaultRecordSets.in"), h1.a("R", "dependentVaultRecordSets.in")
    yield "they do not know the sets they left", forall([RRef, VRef], lambda r, s: D1[r][s] == z3.And(D0[r][s], z3.Not(z3.And(rem(r), z3.Or(b, s == v)))), lambda r, s: [D1[r][s]])
    V0, V1, L0, L1 = h0.a("R", "IsValid."), h1.a("R", "IsValid."), h0.a("R", "#live"), h1.a("R", "#live")
    yield "records given up by a vault are invalid, others stay valid", forall([RRef], lambda r: imp(L1[r], V1[r] == z3.And(V0[r], z3.Not(z3.And(b, rem(r))))), lambda r: [V1[r]])
    yield "records are freed when nothing refers to them", forall([RRef], lambda r: L1[r] == z3.And(L0[r], z3.Not(z3.And(b, rem(r), h0.g("R", "RefCounter.", r) == 0))), lambda r: [L1[r]])


class EraseRef(Op):
    """EraseRecord by reference"""
    heaps = RM

    def result(self, c):
        return BOOL

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        rec = c.old(c.eng.member(c.args[0], "VaultRecordPtr")).t
        was = h0.rs(v, rec)
        yield "it says whether the record was there", c.ret.t == was
        yield from gone(h0, h1, v, lambda r: z3.And(was, r == rec))
        yield "its size", h1.g("V", "RecordsSet.size", v) == h0.g("V", "RecordsSet.size", v) - z3.If(was, z3.IntVal(1), z3.IntVal(0))


class Keyed(Op):
    """an operation on a key and a value of it"""
    def result(self, c):
        return CT("VaultOperationResult")

    def kv(self, c):
        return c.old(c.args[0]).t, c.old(c.args[1]).t

    def needs(self, c):
        yield "the value has the type of the call", ty(self.kv(c)[1]) == tyT

    def unchanged(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        return z3.And(*[h1.a(*k) == h0.a(*k) for k in self.heaps]) if self.heaps else z3.BoolVal(True)

    def refusals(self, c):
        """yields the refusals; the condition under which the key fits is self.fits"""
        h0 = self.h0(c)
        v = self.ref(c)
        key, x = self.kv(c)
        yield "an unknown key is refused", imp(z3.Not(h0.kt(v, key)), z3.And(result_is(c, c.eng, False, "WrongKey", key, tyT), self.unchanged(c)))
        yield "another type is refused", imp(z3.And(h0.kt(v, key), h0.ktv(v, key) != tyT), z3.And(result_is(c, c.eng, False, "WrongType", key, tyT, h0.ktv(v, key)), self.unchanged(c)))

    def fits(self, c):
        h0 = self.h0(c)
        v = self.ref(c)
        key, x = self.kv(c)
        return z3.And(h0.kt(v, key), h0.ktv(v, key) == tyT)

    def match(self, c):
        """record with the value of the key"""
        h0 = self.h0(c)
        v = self.ref(c)
        key, x = self.kv(c)
        return lambda r: z3.And(h0.rs(v, r), h0.rv(r, key) == x)

    def any(self, c):
        h0 = self.h0(c)
        v = self.ref(c)
        m = self.match(c)
        return exists([RRef], m, lambda r: [h0.rs(v, r)])


class EraseValue(Keyed):
    """EraseRecord by value: one of the records with the value"""
    heaps = RM

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        key, x = self.kv(c)
        yield from self.refusals(c)
        fits, some, m = self.fits(c), self.any(c), self.match(c)
        yield "a value no record has is refused", imp(z3.And(fits, z3.Not(some)), z3.And(result_is(c, c.eng, False, "WrongValue", key, tyT, tyT), self.unchanged(c)))
        ok = z3.And(fits, some)
        yield "success", imp(ok, result_is(c, c.eng, True, "Success", key, tyT, tyT))
        rem = lambda r: z3.And(h0.rs(v, r), z3.Not(h1.rs(v, r)))
        for n, f in gone(h0, h1, v, rem):
            yield n, imp(ok, f)
        yield "only a record with the value goes", forall([RRef], lambda r: imp(z3.And(ok, rem(r)), h0.rv(r, key) == x), lambda r: [h0.rs(v, r)])
        yield "one record goes", imp(ok, z3.And(h1.g("V", "RecordsSet.size", v) == h0.g("V", "RecordsSet.size", v) - 1, exists([RRef], rem, lambda r: [h0.rs(v, r)])))
        yield "no two records go", forall([RRef, RRef], lambda r, q: imp(z3.And(ok, rem(r), rem(q)), r == q), lambda r, q: [(h0.rs(v, r), h0.rs(v, q))])


class EraseValues(Keyed):
    """EraseRecords: records with the value, up to the amount (at least one)"""
    heaps = RM
    order = True

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        key, x = self.kv(c)
        n = c.old(c.args[2]).t
        yield from self.refusals(c)
        fits, some, m = self.fits(c), self.any(c), self.match(c)
        yield "a value no record has is refused", imp(z3.And(fits, z3.Not(some)), z3.And(result_is(c, c.eng, False, "WrongValue", key, tyT, tyT), self.unchanged(c)))
        ok = z3.And(fits, some)
        yield "success", imp(ok, result_is(c, c.eng, True, "Success", key, tyT, tyT))
        rem = lambda r: z3.And(h0.rs(v, r), z3.Not(h1.rs(v, r)))
        for nm, f in gone(h0, h1, v, rem):
            yield nm, imp(ok, f)
        yield "only records with the value go", forall([RRef], lambda r: imp(z3.And(ok, rem(r)), h0.rv(r, key) == x), lambda r: [h0.rs(v, r)])
        count = h0.g("V", "RecordsSet.size", v) - h1.g("V", "RecordsSet.size", v)
        yield "no more records go than asked for", imp(ok, z3.And(count >= 1, z3.Or(count <= n, count == 1)))
        yield "all of them go unless the amount is reached", imp(z3.And(ok, count < n), forall([RRef], lambda r: imp(m(r), rem(r)), lambda r: [h0.rs(v, r)]))

    def loop(self, eng, st, node, kind, loc):
        if kind != "for":
            return Keyed.loop(self, eng, st, node, kind, loc)
        c = eng.cur[1]
        v = self.ref(c)
        key, x = self.kv(c)
        cur = only(stepped(st, node), "iterator of the loop") if len(stepped(st, node)) == 1 else self.iterator(eng, st, node)
        end = only(ends(eng, st), "end of the range")
        counter = only(locals_of(eng, st, lambda ct: str(ct) == "unsigned long"), "counter")
        amount = c.old(c.args[2]).t

        def inv(eng, a, b):
            h0, h1 = H(c.s0), H(b)
            yield from h1.inv()
            same = [("V", k) for k in h0.st.heap["V"] if not k.startswith("RecordsSet.")]
            rem = lambda r: z3.And(h0.rs(v, r), z3.Not(h1.rs(v, r)))
            yield from gone(h0, h1, v, rem)
            hh = h0.hs(v, key)
            yield "only records with the value went", forall([RRef], lambda r: imp(rem(r), h0.rv(r, key) == x), lambda r: [h0.rs(v, r)])
            n = eng.load(b, counter).t
            yield "the counter counts them", z3.And(n >= 0, n == h0.g("V", "RecordsSet.size", v) - h1.g("V", "RecordsSet.size", v), z3.Or(n == 0, n < amount))
            e, l = eng.load(b, cur), eng.load(b, end)
            P = h1.g("H", "pos", hh)
            N = h1.g("H", "size", hh)
            AT = h1.g("H", "at", hh)
            yield "the iterators are of the index", z3.And(P[e.t] >= 0, P[e.t] <= P[l.t], P[l.t] <= N, AT[P[e.t]] == e.t, AT[P[l.t]] == l.t)
            yield "the rest of the range has the value", forall([RRef], lambda r: imp(h1.hin(hh, r), (h1.hkv(hh, r) == x) == z3.And(P[e.t] <= P[r], P[r] < P[l.t])), lambda r: [h1.hin(hh, r)])
            yield "the first one is there", imp(n == 0, P[e.t] < P[l.t])
        return Spec("over the records", inv)

    def iterator(self, eng, st, node):
        """the iterator the condition of the loop tests"""
        out = [st.env[i] for i in refs_in(node["inner"][2]) if isinstance(st.env.get(i), LV) and st.env[i].ct.name == "AllMapIterator"]
        return only(out, "iterator of the loop")


def delete_hook(eng, st, v, e):
    """delete of a record: it must be alive, and is not afterwards"""
    if v.ct.name == "VaultRecord" and v.ct.ptr == 1:
        b = dict(st.heap["R"])
        eng.oblige(st, "the record freed is alive", sel(b["#live"], v.t))
        b["#live"] = z3.Store(b["#live"], v.t, z3.BoolVal(False))
        st.heap["R"] = b
        return [(st, void())]
    return None


CONTRACTS.update(
    RemoveRecord=lambda: RemoveRecord("Vault::RemoveRecord/2", cls="VaultRecordSet"),
    RemoveRecordNull=lambda: RemoveRecord("Vault::RemoveRecord/2", told=False, cls="VaultRecordSet", label="Vault::RemoveRecord/2 (null)"),
    RemoveFromDependentSets=lambda: RemoveFromDependentSets("VaultRecord::RemoveFromDependentSets/0"),
    Invalidate=lambda: Invalidate("VaultRecord::Invalidate/0"),
    EraseRef=lambda: EraseRef("Vault::EraseRecord/1", cls="VaultRecordSet"),
    EraseValue=lambda: EraseValue("Vault::EraseRecord/2<AnyT>", cls="VaultRecordSet"),
    EraseValues=lambda: EraseValues("Vault::EraseRecords/3<AnyT>", cls="VaultRecordSet"),
)


def ops_engine():
    eng = vault_engine()
    u = eng.u
    for n, c in CLOSURES.items():
        u.hooks["invoke " + n] = c.call

    def closure(eng, st, kind, fn, clo):
        c = CLOSURES.get(kind)
        if c is not None:
            c.prove(eng, st, fn, clo)
    u.hooks["closure"] = closure
    u.hooks["delete"] = delete_hook
    return eng


def proof(*names):
    eng = ops_engine()
    cons = {n: f() for n, f in CONTRACTS.items()}
    for n, c in cons.items():
        eng.u.contracts.setdefault(c.key, c)
    p = Proof()
    for n in names:
        con = cons[n]
        p.run(eng, con.label, lambda: prove_fn(eng, con))
    p.assumptions |= {"key types are parametric: verified for one type with a strict total order and consistent equality and hash",
                      "holders and map wrappers by their contracts (contracts/saver.py, container.py, maps.py)", "locks by contracts/locks.py; one thread"}
    p.trusted |= {"models of std::unordered_set, std::unordered_map, std::set, std::list, std::vector, std::function, std::type_index"}
    return p.close(eng)
