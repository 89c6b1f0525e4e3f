"""Contracts of the operations on keys: adding, removing, default values, and the functions stored for each key."""
from .vault_sets import *

DICTS = ("KeysTypes", "RecordTemplate.Container", "VaultHashMapStructure.Container", "VaultMapStructure.Container") + tuple(CLO.values())
STRUCT = {"VaultHashMapStructure.Container": "H", "VaultMapStructure.Container": "T"}
DK = tuple(("V", d + "." + k) for d in DICTS for k in ("in", "val") + ORDER) + tuple(("V", "UniqueKeys." + k) for k in ("in",) + ORDER)
KO = (("V", "KeysOrder.at."), ("V", "KeysOrder.size"))
IH = tuple((q, k) for q in "HT" for k in ("in", "kv", "multi", "ov", "ok", "live") + ORDER)
RCA = tuple(("R", "Container." + k) for k in ("val", "in") + ORDER)
RVS = arr(RRef, arr(Str, Val))
genval = z3.Function("generated", Clo, Int, RRef, RVS, Val)
cMode = z3.Function("kind of generator", Clo, Int)      # 0: any function, 1: a constant, 2: the value of a key


def generated(clo, i, r, C):
    return z3.If(cMode(clo) == 1, cDef(clo), z3.If(cMode(clo) == 2, C[r][cKey(clo)], genval(clo, i, r, C)))


# ------------------------------------------------------------------ questions about keys
class Ask(Op):
    def name_of(self, c):
        return c.old(c.args[0]).t


class IsKeyExist(Ask):
    def result(self, c):
        return BOOL

    def does(self, c):
        yield "it says whether the key is there", c.ret.t == self.h0(c).kt(self.ref(c), self.name_of(c))


class GetKeyType(Ask):
    def modifies(self, c):
        return [c.args[1]]

    def result(self, c):
        return BOOL

    def pre(self, c):
        return []

    def post(self, c):
        h = self.h0(c)
        v, k = self.ref(c), self.name_of(c)
        yield "it says whether the key is there", c.ret.t == h.kt(v, k)
        yield "the type of the key", c.new(c.args[1]).t == z3.If(h.kt(v, k), h.ktv(v, k), c.old(c.args[1]).t)


class KeyValue(Keyed):
    def refused_unique(self, c, keep):
        h0 = self.h0(c)
        v = self.ref(c)
        key, x = self.kv(c)
        yield "the default value of a unique key is refused", imp(z3.And(self.fits(c), h0.uq(v, key)), z3.And(result_is(c, c.eng, False, "UniqueKey", key, tyT, tyT), keep))


class GetKeyValue(KeyValue):
    def modifies(self, c):
        return [c.args[1]]

    def does(self, c):
        h0 = self.h0(c)
        v = self.ref(c)
        key, x = self.kv(c)
        y = c.new(c.args[1]).t
        for n, f in self.refusals(c):
            yield n, f
        yield from self.refused_unique(c, TRUE)
        ok = z3.And(self.fits(c), z3.Not(h0.uq(v, key)))
        yield "success", imp(ok, result_is(c, c.eng, True, "Success", key, tyT, tyT))
        yield "the default value", y == z3.If(ok, h0.tv(v, key), x)


class UpdateKey(KeyValue):
    heaps = tuple(("V", "RecordTemplate.Container." + k) for k in ("in", "val") + ORDER)

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        key, x = self.kv(c)
        yield from self.refusals(c)
        yield from self.refused_unique(c, self.unchanged(c))
        ok = z3.And(self.fits(c), z3.Not(h0.uq(v, key)))
        yield "success", imp(ok, result_is(c, c.eng, True, "Success", key, tyT, tyT))
        A, B = h0.a("V", "RecordTemplate.Container.val"), h1.a("V", "RecordTemplate.Container.val")
        yield "the key has the new default value, others keep theirs", imp(ok, B == z3.Store(A, v, z3.Store(A[v], key, x)))
        yield "the keys stay", imp(ok, forall([VRef, Str], lambda w, k: h1.g("V", "RecordTemplate.Container.in", w, k) == h0.g("V", "RecordTemplate.Container.in", w, k), lambda w, k: [h1.g("V", "RecordTemplate.Container.in", w, k)]))


class RefGetData(VC):
    """GetData of a reference"""
    def modifies(self, c):
        return [c.args[1]]

    def lv(self, c):
        t = c.this
        return t if isinstance(t, LV) else (t.meta.get("lv") or c.eng.deref(c.s0, t))

    def result(self, c):
        return CT("VaultOperationResult")

    def parts(self, c):
        lv = self.lv(c)
        return ptr_of(c, lv), vlt_of(c, lv), c.old(c.args[0]).t

    def fits(self, h, p, v, key):
        return z3.And(p != NOREC, h.valid(p), h.kt(v, key), h.ktv(v, key) == tyT)

    def pre(self, c):
        h = self.h0(c)
        p, v, key = self.parts(c)
        yield "the reference counts", sound(h, p, v)
        yield "the record has a value of the key", imp(self.fits(h, p, v, key), z3.And(h.rin(p, key), ty(h.rv(p, key)) == tyT))

    def post(self, c):
        h = self.h0(c)
        p, v, key = self.parts(c)
        good = z3.And(p != NOREC, h.valid(p))
        x, y = c.old(c.args[1]).t, c.new(c.args[1]).t
        fits = self.fits(h, p, v, key)
        yield "an invalid reference is refused", imp(z3.Not(good), result_is(c, c.eng, False, "DataRecordNotValid", key, tyT))
        yield "an unknown key is refused", imp(z3.And(good, z3.Not(h.kt(v, key))), result_is(c, c.eng, False, "WrongKey", key, tyT))
        yield "another type is refused", imp(z3.And(good, h.kt(v, key), h.ktv(v, key) != tyT), result_is(c, c.eng, False, "WrongType", key, tyT, h.ktv(v, key)))
        yield "success", imp(fits, result_is(c, c.eng, True, "Success", key, tyT, tyT))
        yield "the value of the record, or what was there", y == z3.If(fits, h.rv(p, key), x)


# ------------------------------------------------------------------ adding a key
def keyed(h0, h1, aff, key, df, uq, val, tt, order):
    """the vaults aff(v) have the new key; the others and the other keys are as they were"""
    for d in DICTS:
        A, B = h0.a("V", d + ".in"), h1.a("V", d + ".in")
        nm = d.replace(".Container", "")
        yield "%s: the key is there, others stay" % nm, forall([VRef], lambda v: B[v] == z3.If(aff(v), z3.Store(A[v], key, TRUE), A[v]), lambda v: [B[v]])
        A1, B1 = h0.a("V", d + ".val"), h1.a("V", d + ".val")
        if d == "KeysTypes" or d.startswith("RecordTemplate"):
            yield "%s: the value of the key, others stay" % nm, forall([VRef], lambda v: B1[v] == z3.If(aff(v), z3.Store(A1[v], key, tt if d == "KeysTypes" else df), A1[v]), lambda v: [B1[v]])
        else:
            yield "%s: others stay" % nm, forall([VRef, Str], lambda v, k: imp(z3.Or(k != key, z3.Not(aff(v))), B1[v][k] == A1[v][k]), lambda v, k: [B1[v][k]])
        for o in ORDER:
            A2, B2 = h0.a("V", d + "." + o), h1.a("V", d + "." + o)
            yield "%s: the order of other vaults stays (%s)" % (nm, o), forall([VRef], lambda v: imp(z3.Not(aff(v)), B2[v] == A2[v]), lambda v: [B2[v]])
    A3, B3 = h0.a("V", "UniqueKeys.in"), h1.a("V", "UniqueKeys.in")
    yield "the key is unique if asked for", forall([VRef], lambda v: B3[v] == z3.If(z3.And(aff(v), uq), z3.Store(A3[v], key, TRUE), A3[v]), lambda v: [B3[v]])
    for o in ORDER:
        A4, B4 = h0.a("V", "UniqueKeys." + o), h1.a("V", "UniqueKeys." + o)
        yield "the order of unique keys of other vaults stays (%s)" % o, forall([VRef], lambda v: imp(z3.Not(aff(v)), B4[v] == A4[v]), lambda v: [B4[v]])
    A5, B5, N0, N1 = h0.a("V", "KeysOrder.at."), h1.a("V", "KeysOrder.at."), h0.a("V", "KeysOrder.size"), h1.a("V", "KeysOrder.size")
    yield "the key is the last one", forall([VRef], lambda v: B5[v] == z3.If(z3.And(aff(v), order(v)), z3.Store(A5[v], N0[v], key), A5[v]), lambda v: [B5[v]])
    yield "there is one more key", forall([VRef], lambda v: N1[v] == z3.If(z3.And(aff(v), order(v)), N0[v] + 1, N0[v]), lambda v: [N1[v]])
    for q, R in (("H", HP), ("T", TP)):
        L0 = h0.a(q, "live")
        for k in ("in", "kv", "multi", "ov", "ok") + ORDER:
            A6, B6 = h0.a(q, k), h1.a(q, k)
            yield "the indexes from before stay (%s.%s)" % (q, k), forall([R], lambda h: imp(L0[h], B6[h] == A6[h]), lambda h: [B6[h]])
        L1 = h1.a(q, "live")
        yield "the indexes from before stay (%s.live)" % q, forall([R], lambda h: imp(L0[h], L1[h]), lambda h: [L1[h]])
        ix = lambda v: h1.hs(v, key) if q == "H" else h1.ts(v, key)
        I, K = h1.a(q, "in"), h1.a(q, "kv")
        yield "the vaults have a new %s index of the key" % q, forall([VRef], lambda v: imp(aff(v), z3.And(z3.Not(L0[ix(v)]), I[ix(v)] == h0.rss(v))), lambda v: [ix(v)])
        yield "it holds the values (%s)" % q, forall([VRef, RRef], lambda v, r: imp(z3.And(aff(v), h0.rs(v, r)), K[ix(v)][r] == val(r)), lambda v, r: [K[ix(v)][r]])
    yield "the new indexes belong to the key", forall([VRef], lambda v: imp(aff(v), h1.idx(v, key)), lambda v: [h1.hsv(v, key), h1.tsv(v, key)])
    for ch, nm in CLO.items():
        f = lambda v: h1.g("V", nm + ".val", v, key)
        if ch == "K":
            body = lambda v: z3.And(cKey(f(v)) == key, cTy(f(v)) == tt, cDef(f(v)) == df, cUniq(f(v)) == uq)
        else:
            body = lambda v: z3.And(cT(f(v)) == h1.ts(v, key), *([cH(f(v)) == h1.hs(v, key)] if ch != "S" else []), *([cKey(f(v)) == key, cTy(f(v)) == tt] if ch in "AE" else []))
        yield nm + " work on them", forall([VRef], lambda v: imp(aff(v), body(v)), lambda v: [f(v)])


def filled(h0, h1, wr, key, val):
    """the records wr(r) have the value val(r) of the key"""
    A, B, C, D = h0.a("R", "Container.in"), h1.a("R", "Container.in"), h0.a("R", "Container.val"), h1.a("R", "Container.val")
    yield "the records have the key", forall([RRef, Str], lambda r, k: B[r][k] == z3.Or(A[r][k], z3.And(wr(r), k == key)), lambda r, k: [B[r][k]])
    yield "the records have its value, other values stay", forall([RRef, Str], lambda r, k: D[r][k] == z3.If(z3.And(wr(r), k == key), val(r), C[r][k]), lambda r, k: [D[r][k]])


def as_seen(h0, h1, v, key, fill=None):
    """what a refused key leaves: nothing but places no one looks at"""
    out = []
    for h, k in DK + KO:
        A, B = h0.a(h, k), h1.a(h, k)
        if A.eq(B):
            continue
        if k.rsplit(".", 1)[0] in STRUCT:
            if k.endswith(".in"):
                out.append(forall([VRef, Str], lambda w, x: B[w][x] == A[w][x], lambda w, x: [B[w][x]]))
            elif k.endswith(".val"):
                out.append(forall([VRef, Str], lambda w, x: imp(z3.Or(w != v, x != key), B[w][x] == A[w][x]), lambda w, x: [B[w][x]]))
            else:
                out.append(forall([VRef], lambda w: imp(w != v, B[w] == A[w]), lambda w: [B[w]]))
        else:
            out.append(A == B)
    for q, R in (("H", HP), ("T", TP)):
        L0 = h0.a(q, "live")
        for k in ("in", "kv", "multi", "ov", "ok", "live") + ORDER:
            A, B = h0.a(q, k), h1.a(q, k)
            out.append(forall([R], lambda h: imp(L0[h], B[h] == A[h]), lambda h: [B[h]]))
    out += [h1.a(*k) == h0.a(*k) for k in RCA]
    return z3.And(*out)


class KeyAdder(VC):
    """what AddKey does, for any type of key: AddKey itself and the stored functions that call it are instances"""
    heaps = DK + KO + IH + RCA + RCNT
    wide = False                # on a set that has its vault but neither its keys nor records yet

    def exceptions(self, h0, h, v, key):
        s_ = h0.isset(v)
        if self.wide:
            me = lambda s: z3.And(s_, s == v)
            return dict(fam=lambda s, k: me(s), unk=me)
        return dict(fam=lambda s, k: z3.And(s_, k == key, h.par(s) == h.par(v)))

    def pre_of(self, h, v, key, df, uq, gv, tt):
        """gv(record): the value that the generator gives for it"""
        b = h.base(v)
        yield "the vault is there", v != NOV
        yield "the default value has the type of the key", ty(df) == tt
        yield from h.inv(ord=(lambda w: z3.And(h.isset(v), w == v)) if self.wide else None, **self.exceptions(h, h, v, key))
        if self.wide:
            yield "a new set is empty", imp(h.isset(v), h.rss(v) == z3.K(RRef, FALSE))
        yield "a set has a vault", imp(h.isset(v), h.par(v) != NOV)
        yield "a set gets a key of its vault", imp(h.isset(v), z3.And(h.kt(h.par(v), key), h.ktv(h.par(v), key) == tt, h.uq(h.par(v), key) == uq))
        yield "a set gets the values of the records", imp(z3.And(h.isset(v), z3.Not(uq)), forall([RRef], lambda r: imp(h.rs(v, r), h.rv(r, key) == df), lambda r: [h.rs(v, r)]))
        yield "a set gets the unique values of the records", imp(z3.And(h.isset(v), uq), forall([RRef], lambda r: imp(h.rs(v, r), gv(r) == h.rv(r, key)), lambda r: [h.rs(v, r)]))

    def post_of(self, h0, h1, v, key, df, uq, nolam, gv, tt, res):
        """res(ok, code, saved): formula of the result"""
        b = h0.base(v)
        val = lambda r: z3.If(uq, gv(r), df)
        has = h0.kt(v, key)
        some = exists([RRef], lambda r: h0.rs(v, r))
        same = z3.And(*[h1.a(*k) == h0.a(*k) for k in self.heaps])
        yield "a known key is refused", imp(has, z3.And(res(False, "DuplicateKey", h0.ktv(v, key)), same))
        nol = z3.And(z3.Not(has), uq, nolam, some)
        yield "a unique key without values is refused", imp(nol, z3.And(res(False, "TryToAddUniqueKeyInNonEmptyVaultWithoutLambda", None), same))
        dup = z3.And(z3.Not(has), z3.Not(z3.And(uq, nolam, some)), uq, exists([RRef, RRef], lambda x, y: z3.And(h0.rs(v, x), h0.rs(v, y), x != y, gv(x) == gv(y))))
        yield "repeated values of a unique key are refused", imp(dup, z3.And(res(False, "UniqueKeyValueAlredyInSet", None), as_seen(h0, h1, v, key)))
        ok = z3.And(z3.Not(has), z3.Not(z3.And(uq, nolam, some)), z3.Not(dup))
        yield "success", imp(ok, res(True, "Success", None))
        aff = lambda w: z3.Or(w == v, z3.And(b, h0.sets(v, w)))
        for n, f in keyed(h0, h1, aff, key, df, uq, val, tt, lambda w: b):
            yield n, imp(ok, f)
        for n, f in filled(h0, h1, lambda r: z3.And(h0.rs(v, r), z3.Or(b, z3.Not(uq))), key, val):
            yield n, imp(ok, f)
        yield "references come and go", z3.And(*[h1.a(*k) == h0.a(*k) for k in RCNT])

    def kept_of(self, h0, h1, v, key):
        yield from h1.inv(ord=lambda w: z3.And(h0.isset(v), w == v), **self.exceptions(h0, h1, v, key))


class AddKey(KeyAdder):
    def result(self, c):
        return CT("VaultOperationResult")

    def parts(self, c):
        v = self.ref(c)
        key, df, uq, nolam, gen = [c.old(x).t for x in c.args]
        return v, key, df, uq, nolam, gen

    def values(self, c):
        """what the generator gives for a record"""
        h, v, gen = self.h0(c), self.ref(c), c.old(c.args[4]).t
        P, C = h.g("V", "RecordsSet.pos", v), h.a("R", "Container.val")
        return lambda r: generated(gen, P[r], r, C)

    def pre(self, c):
        v, key, df, uq, nolam, gen = self.parts(c)
        h = self.h0(c)
        yield from self.pre_of(h, v, key, df, uq, self.values(c), tyT)
        w, k = z3.If(h.base(v), v, h.par(v)), cKey(gen)
        yield "a generator reads a key that is there", imp(cMode(gen) == 2, z3.And(h.kt(w, k), h.ktv(w, k) == tyT))

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, key, df, uq, nolam, gen = self.parts(c)
        res = lambda ok, code, saved: result_is(c, c.eng, ok, code, key, tyT, saved)
        yield from self.post_of(h0, h1, v, key, df, uq, nolam, self.values(c), tyT, res)
        for n, f in self.kept_of(h0, h1, v, key):
            yield "kept: " + n, f

    def facts(self, c):
        """a name for the values that the records get"""
        v, key, df, uq, nolam, gen = self.parts(c)
        W, gv = fresh("value for", arr(RRef, Val)), self.values(c)
        c.W = W
        # what a generator returns is of its return type; for vaults the wide contract is the ordinary one
        return ([self.h0(c).isset(v)] if self.wide else []) + [forall([RRef], lambda r: z3.And(W[r] == z3.If(uq, gv(r), df), ty(W[r]) == tyT), lambda r: [W[r]])]

    def lemmas(self, c):
        """a key is in every place or in none"""
        h = self.h0(c)
        v, key = self.ref(c), c.old(c.args[0]).t
        for d in DICTS:
            f = h.g("V", d + ".in", v, key) == h.kt(v, key)
            yield "%s has the key or not" % d.replace(".Container", ""), f, (f, ())
        f = imp(h.uq(v, key), h.kt(v, key))
        yield "a unique key is a key", f, (f, ())
        mine = lambda w, r: imp(z3.And(h.base(v), h.rs(w, r), h.rs(v, r)), z3.Or(w == v, z3.And(h.isset(w), h.par(w) == v)))
        w, r = fresh("w", VRef), fresh("r", RRef)
        yield "only sets of the vault share its records", forall([VRef, RRef], mine, lambda w, r: [(h.rs(w, r), h.rs(v, r))]), (mine(w, r), (h.par(w), h.rs(h.par(w), r)))

    def apply(self, eng, st, this, args, e):
        if eng.cur[0] is self:
            self.distinct(eng, st, this, args)
        if isinstance(eng.cur[0], Copier) and not self.wide:
            return CONTRACTS["AddKeyNew"]().apply(eng, st, this, args, e)
        return VC.apply(self, eng, st, this, args, e)

    def distinct(self, eng, st, this, args):
        """lemma for the call on a set: the values of its records do not repeat"""
        H(st)
        s = st.copy()
        c = Ctx(eng, s, this, args)
        s.assume(*[f for _, f in self.pre(c)])
        h = H(s)
        v, key, df, uq, nolam, gen = self.parts(c)
        gv = self.values(c)
        x, y = fresh("x", RRef), fresh("y", RRef)
        p, hh = h.par(v), h.hs(h.par(v), key)
        same = lambda x, y: imp(z3.And(h.isset(v), uq, h.rs(v, x), h.rs(v, y), gv(x) == gv(y)), x == y)
        for t in (h.hin(hh, x), h.hin(hh, y), h.hkv(hh, x), h.hkv(hh, y), h.g("H", "in", hh), h.rs(p, x), h.rs(p, y), h.kt(p, key), h.hsv(p, key)):
            s.assume(fresh("seen", t.sort()) == t)
        eng.oblige(s, "the values of the records of a set do not repeat", same(x, y))
        st.assume(forall([RRef, RRef], same, lambda x, y: [(h.rs(v, x), h.rs(v, y))]))

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        if kind != "range" or not isinstance(loc["range"], LV):
            return None
        v, key, df, uq, nolam, gen = self.parts(c)
        idx = loc["index"]
        if loc["range"].prefix.startswith("RecordsSet."):
            return self.over_records(eng, st, node, loc)
        if loc["range"].prefix.startswith("RecordSetsSet."):
            def inv(eng, a, b):
                h0, h1 = H(a), H(b)
                i = eng.load(b, idx).t
                P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
                aff = lambda s: z3.And(h0.sets(v, s), P[s] < i)
                yield from keyed(h0, h1, aff, key, df, uq, lambda r: h0.rv(r, key), tyT, lambda w: TRUE)
                yield from filled(h0, h1, lambda r: FALSE, key, lambda r: df)
                yield "references come and go", z3.And(*[h1.a(*k) == h0.a(*k) for k in RCNT])
                yield from h1.inv(fam=lambda s, k: z3.And(k == key, h1.sets(v, s), P[s] >= i))
            return Spec("over the sets", inv)

    def over_records(self, eng, st, node, loc):
        c = eng.cur[1]
        v, key, df, uq, nolam, gen = self.parts(c)
        idx = loc["index"]
        one_of = lambda nm: only(locals_of(eng, st, lambda ct: ct.name == nm and ct.ptr == 1), nm)
        hl, tl = one_of("UnorderedMap"), one_of("Map")
        cached = locals_of(eng, st, lambda ct: ct.name == "std::vector" and ct.args[0].name == "AnyT")
        counters = locals_of(eng, st, lambda ct: str(ct) == "unsigned long")

        def inv(eng, a, b):
            h0, h1 = H(a), H(b)
            hc = H(c.s0)
            i = eng.load(b, idx).t
            w = eng.model(loc["range"].ct).read(a, loc["range"])
            P = w.c["pos"]
            val = lambda r: c.W[r]
            passed = lambda r: z3.And(h0.rs(v, r), P[r] < i)
            for q, l, R in (("H", hl, HP), ("T", tl, TP)):
                x = eng.load(a, l).t
                A, B, K, L = h0.a(q, "in"), h1.a(q, "in"), h0.a(q, "kv"), h1.a(q, "kv")
                if A.eq(B):
                    continue
                yield "the records passed are in the new %s index" % q, forall([RRef], lambda r: B[x][r] == passed(r), lambda r: [B[x][r]])
                yield "under their values (%s)" % q, forall([RRef], lambda r: imp(B[x][r], L[x][r] == val(r)), lambda r: [L[x][r]])
                for k in ("in", "kv") + ORDER:
                    E, F = h0.a(q, k), h1.a(q, k)
                    yield "other indexes stay (%s.%s)" % (q, k), forall([R], lambda h: imp(h != x, F[h] == E[h]), lambda h: [F[h]])
                if q == "H":
                    yield "the values differ", imp(uq, forall([RRef, RRef], lambda y, z: imp(z3.And(passed(y), passed(z), val(y) == val(z)), y == z), lambda y, z: [(B[x][y], B[x][z])]))
            if not h0.a("R", "Container.val").eq(h1.a("R", "Container.val")):
                yield from filled(h0, h1, lambda r: z3.And(passed(r), z3.Or(h0.base(v), z3.Not(uq))), key, val)
            for l in counters:
                if not eng.load(a, l).t.eq(eng.load(b, l).t):
                    yield "the counter counts them", eng.load(b, l).t == i
            for l in cached:
                x, y = eng.load(a, l), eng.load(b, l)
                if not x.c["size"].eq(y.c["size"]):
                    AT, CA = w.c["at"], constant(b, "cached", y.c["at."])
                    yield "the values are remembered", z3.And(y.c["size"] == i, forall([Int], lambda j: imp(z3.And(j >= 0, j < i), CA[j] == val(AT[j])), lambda j: [CA[j]]))
            yield "references come and go", z3.And(*[h1.a(*k) == h0.a(*k) for k in RCNT])
        return Spec("over the records", inv)


class AddKeyNew(AddKey):
    """the same on a set that has just got its vault: it has no records, and not all keys"""
    wide = True


class AddPlainKey(AddKey):
    """AddKey with a default value only"""
    def parts(self, c):
        key, df = [c.old(x).t for x in c.args]
        return self.ref(c), key, df, FALSE, FALSE, None

    def result(self, c):
        return BOOL

    def values(self, c):
        df = c.old(c.args[1]).t
        return lambda r: df

    def pre(self, c):
        v, key, df, uq, nolam, gen = self.parts(c)
        yield from self.pre_of(self.h0(c), v, key, df, uq, self.values(c), tyT)

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, key, df, uq, nolam, gen = self.parts(c)
        yield from self.post_of(h0, h1, v, key, df, uq, nolam, self.values(c), tyT, lambda ok, code, saved: c.ret.t == z3.BoolVal(ok))
        for n, f in self.kept_of(h0, h1, v, key):
            yield "kept: " + n, f

    def facts(self, c):
        return []

    def lemmas(self, c):
        return []


class AddUnique(AddKey):
    """AddUniqueKey without and with a generator"""
    def parts(self, c):
        lam = len(c.args) > 1
        return self.ref(c), c.old(c.args[0]).t, anydef, TRUE, z3.BoolVal(not lam), c.old(c.args[1]).t if lam else None

    def values(self, c):
        if len(c.args) == 1:
            return lambda r: anydef
        h, v, gen = self.h0(c), self.ref(c), c.old(c.args[1]).t
        P = h.g("V", "RecordsSet.pos", v)
        return lambda r: genval(gen, P[r], r, h.a("R", "Container.val"))

    def pre(self, c):
        v, key, df, uq, nolam, gen = self.parts(c)
        yield from self.pre_of(self.h0(c), v, key, df, uq, self.values(c), tyT)
        if gen is not None:
            yield "a generator of the user is any function", cMode(gen) == 0

    def facts(self, c):
        return []

    def lemmas(self, c):
        return []


class RemoveKey(VC):
    heaps = tuple(("V", d + "." + k) for d in DICTS for k in ("in",) + ORDER) + tuple(("V", "UniqueKeys." + k) for k in ("in",) + ORDER) + KO + (("H", "live"), ("T", "live")) + tuple(
        ("R", "Container." + k) for k in ("in",) + ORDER)

    def result(self, c):
        return BOOL

    def key_of(self, c):
        return c.old(c.args[0]).t

    def exceptions(self, h, v, key):
        fam = lambda s, k: z3.And(h.isset(v), k == key, h.par(s) == h.par(v))
        rec = lambda w, k: z3.And(h.isset(v), k == key, h.isset(w), h.par(w) == h.par(v))
        return dict(fam=fam, rec=rec)

    def pre(self, c):
        h, v, key = self.h0(c), self.ref(c), self.key_of(c)
        yield from h.inv(**self.exceptions(h, v, key))
        yield "a set has a vault, which has lost the key", imp(h.isset(v), z3.And(h.par(v) != NOV, z3.Not(h.kt(h.par(v), key))))

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, key = self.ref(c), self.key_of(c)
        b, has = h0.base(v), h0.kt(v, key)
        yield "it says whether there was the key", c.ret.t == has
        aff = lambda w: z3.And(has, z3.Or(w == v, z3.And(b, h0.sets(v, w))))
        yield from unkeyed(h0, h1, aff, key)
        yield from emptied_of(h0, h1, lambda r: z3.And(has, b, h0.rs(v, r)), key)
        for n, f in h1.inv(**self.exceptions(h1, v, key)):
            yield "kept: " + n, f

    def lemmas(self, c):
        """a key is in every place or in none"""
        h = self.h0(c)
        v, key = self.ref(c), self.key_of(c)
        for d in DICTS:
            f = h.g("V", d + ".in", v, key) == h.kt(v, key)
            yield "%s has the key or not" % d.replace(".Container", ""), f, (f, ())
        f = imp(h.uq(v, key), h.kt(v, key))
        yield "a unique key is a key", f, (f, ())
        for n, i, own_ in (("hashed", h.hs(v, key), lambda x: h.g("H", "ov", x)), ("ordered", h.ts(v, key), lambda x: h.g("T", "ov", x))):
            f = imp(h.kt(v, key), h.idx(v, key))
            yield "the %s index of the key" % n, f, (f, (h.hsv(v, key), h.tsv(v, key)))

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        v, key = self.ref(c), self.key_of(c)
        if kind == "for":
            def inv(eng, a, b):
                for l in locals_of(eng, b, lambda ct: ct.name == "std::list_iterator"):
                    i = eng.load(b, l).t
                    h = H(b)
                    at, n = h.kat(v), h.kn(v)
                    yield "the iterator is of the list", z3.And(i >= 0, i <= n)
                    yield "the key was not passed", kpos(at, n, key) >= i
            return Spec("over the order of the keys", inv)
        if not isinstance(loc["range"], LV):
            return None
        idx = loc["index"]
        P = lambda a: eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
        if loc["range"].prefix.startswith("RecordsSet."):
            def inv(eng, a, b):
                h0, h1, i, p = H(a), H(b), eng.load(b, idx).t, P(a)
                yield from emptied_of(h0, h1, lambda r: z3.And(h0.rs(v, r), p[r] < i), key)
            return Spec("over the records", inv)
        if loc["range"].prefix.startswith("RecordSetsSet."):
            def inv(eng, a, b):
                h0, h1, i, p = H(a), H(b), eng.load(b, idx).t, P(a)
                yield from unkeyed(h0, h1, lambda s: z3.And(h0.sets(v, s), p[s] < i), key)
                yield from emptied_of(h0, h1, lambda r: FALSE, key)
                left = lambda s, k: z3.And(k == key, h1.sets(v, s), p[s] >= i)
                yield from h1.inv(fam=left, rec=left)
            return Spec("over the sets", inv)


def unkeyed(h0, h1, aff, key):
    """the vaults aff(v) lost the key; the others and the other keys are as they were"""
    for d in DICTS + ("UniqueKeys",):
        nm = d.replace(".Container", "")
        A, B = h0.a("V", d + ".in"), h1.a("V", d + ".in")
        yield "%s: the key is gone, others stay" % nm, forall([VRef], lambda v: B[v] == z3.If(aff(v), z3.Store(A[v], key, FALSE), A[v]), lambda v: [B[v]])
        for o in ORDER:
            A2, B2 = h0.a("V", d + "." + o), h1.a("V", d + "." + o)
            yield "%s: the order of other vaults stays (%s)" % (nm, o), forall([VRef], lambda v: imp(z3.Not(aff(v)), B2[v] == A2[v]), lambda v: [B2[v]])
    A5, B5, N0, N1 = h0.a("V", "KeysOrder.at."), h1.a("V", "KeysOrder.at."), h0.a("V", "KeysOrder.size"), h1.a("V", "KeysOrder.size")
    p = lambda v: kpos(A5[v], N0[v], key)
    yield "the keys after it move up", forall([VRef, Int], lambda v, i: B5[v][i] == z3.If(z3.And(aff(v), i >= p(v)), A5[v][i + 1], A5[v][i]), lambda v, i: [B5[v][i]])
    yield "the order of the keys of others stays", forall([VRef], lambda v: imp(z3.Not(aff(v)), B5[v] == A5[v]), lambda v: [B5[v]])
    yield "there is one key less", forall([VRef], lambda v: N1[v] == z3.If(aff(v), N0[v] - 1, N0[v]), lambda v: [N1[v]])
    for q, R in (("H", HP), ("T", TP)):
        A, B = h0.a(q, "live"), h1.a(q, "live")
        mine = lambda h: z3.And(own(h0, q, h), h0.g(q, "ok", h) == key, aff(h0.g(q, "ov", h)))
        yield "the indexes of the key are freed, no others (%s)" % q, forall([R], lambda h: B[h] == z3.And(A[h], z3.Not(mine(h))), lambda h: [B[h]])


def emptied_of(h0, h1, wr, key):
    A, B = h0.a("R", "Container.in"), h1.a("R", "Container.in")
    yield "the records lose the key and nothing else", forall([RRef, Str], lambda r, k: B[r][k] == z3.And(A[r][k], z3.Not(z3.And(wr(r), k == key))), lambda r, k: [B[r][k]])


class Copier(Closure):
    """gives another vault the key: the type, the default value at the time the key was made, and whether it is unique"""
    name = "copier"
    heaps = KeyAdder.heaps
    con = KeyAdder("stored copier")
    con.wide = True

    def vault(self, a):
        return a[0].t

    def pre(self, eng, h, clo, a):
        yield from self.con.pre_of(h, self.vault(a), cKey(clo), cDef(clo), cUniq(clo), lambda r: cDef(clo), cTy(clo))

    def post(self, eng, h0, h1, clo, a, ret):
        v = self.vault(a)
        yield from self.con.post_of(h0, h1, v, cKey(clo), cDef(clo), cUniq(clo), FALSE, lambda r: cDef(clo), cTy(clo), lambda *x: TRUE)
        for n, f in self.con.kept_of(h0, h1, v, cKey(clo)):
            yield "kept: " + n, f


# ------------------------------------------------------------------ hooks
def captured(eng, st, fn):
    """what a lambda has captured, by type"""
    out = {}
    for i, l in fn.env.items():
        if not isinstance(l, LV):
            continue
        out.setdefault(("ptr " if l.ct.ptr else "") + l.ct.name, []).append(eng.load(st, l))
    return out


ATTR = {"ptr UnorderedMap": (cH, HP), "ptr Map": (cT, TP), "std::string": (cKey, Str), "AnyT": (cDef, Val), "bool": (cUniq, Bool)}
NEED = {"adder": ("ptr UnorderedMap", "ptr Map", "std::string"), "eraser": ("ptr UnorderedMap", "ptr Map", "std::string"), "clearer": ("ptr UnorderedMap", "ptr Map"),
        "sorter": ("ptr Map",), "copier": ("std::string", "AnyT", "bool"), "generator": ()}


def tie(eng, st, kind, fn, clo):
    """the attributes of a closure are what it captured"""
    caps = captured(eng, st, fn)
    for t in NEED.get(kind, ()):
        x = caps.get(t, [])
        if not x and kind in ("clearer", "sorter", "eraser", "adder"):
            raise Unsupported("a stored %s that does not know its %s" % (kind, t))
        if len(x) != 1:
            raise Unsupported("a stored %s with %d captures of %s" % (kind, len(x), t))
        st.assume(ATTR[t][0](clo) == x[0].t)
    if kind in ("adder", "eraser", "copier", "record setter", "reference setter"):
        st.assume(cTy(clo) == tyT)
    return caps


def new_index(eng, st, e):
    """new UnorderedMap / new Map: an empty index of nobody"""
    ct = ctype(e)
    if ct.name not in ("UnorderedMap", "Map"):
        raise Unsupported("new %s" % ct)
    q, R = ("H", HP) if ct.name == "UnorderedMap" else ("T", TP)
    con = next((x for x in e.get("inner", ()) if x.get("kind") == "CXXConstructExpr"), None)
    if con is None or len(con.get("inner", ())) != 1:
        raise Unsupported("new %s" % ct)
    out = []
    for s, vs in eng.evs(con["inner"], st):
        multi = eng.load(s, vs[0]).t
        h = fresh("new index", R)
        H(s)
        b = dict(s.heap[q])
        s.assume(h != nul(R), z3.Not(b["live"][h]), ty((ptrH if q == "H" else ptrT)(h)) == (tyH if q == "H" else tyM)(tyT))
        at, pos = fresh("at", arr(Int, RRef)), fresh("pos", arr(RRef, Int))
        for k, t in dict(live=TRUE, size=z3.IntVal(0), multi=multi, ov=NOV, ok=NOKEY, at=at, pos=pos, kv=fresh("kv", arr(RRef, Val))).items():
            b[k] = z3.Store(b[k], h, t)
        b["in"] = z3.Store(b["in"], h, z3.K(RRef, FALSE))
        s.heap[q] = b
        out.append((s, V(CT(ct.name, ct.args, 1), {"": h})))
    return out


def index_stored(eng, st, obj, k, v):
    """an index gets an owner with the name under which a vault keeps it"""
    if v.ct.name not in ("UnorderedMap", "Map"):
        return
    q = "H" if v.ct.name == "UnorderedMap" else "T"
    if not (isinstance(obj, LV) and obj.store == ("heap", "V") and len(obj.keys) == 1 and obj.prefix == {"H": "VaultHashMapStructure.", "T": "VaultMapStructure."}[q]):
        raise Unsupported("an index is kept elsewhere")
    b = dict(st.heap[q])
    eng.oblige(st, "the index kept is alive and belongs to nobody", z3.And(sel(b["live"], v.t), sel(b["ov"], v.t) == NOV))
    b["ov"], b["ok"] = z3.Store(b["ov"], v.t, obj.keys[0]), z3.Store(b["ok"], v.t, k)
    st.heap[q] = b


def index_dropped(eng, st, obj, had, val):
    """an index goes with the holder that owns it"""
    if not (isinstance(obj, LV) and obj.store == ("heap", "V")) or obj.prefix not in ("VaultHashMapStructure.", "VaultMapStructure."):
        return
    q, x = ("H", asH(val)) if obj.prefix == "VaultHashMapStructure." else ("T", asT(val))
    b = dict(st.heap[q])
    eng.oblige(st, "the index freed is alive", imp(had, sel(b["live"], x)))
    b["live"] = z3.If(had, z3.Store(b["live"], x, FALSE), b["live"])
    st.heap[q] = b


def generator_law(eng, st, fn, clo):
    """a generator written in the library gives a constant, or the value of a key of the record: its body is checked for that"""
    caps = captured(eng, st, fn)
    strs_, vals = caps.get("std::string", []), caps.get("AnyT", [])
    s = st.copy()
    s.ctl = None
    keep = [f for f in s.pc if not mentions_heap(f, st)]
    init(eng, s)
    s.pc = keep
    s.notes = {k: v for k, v in s.notes.items() if isinstance(k, tuple) and k[0] in ("meta", "ct")}
    H(s)
    args, ref = [], None
    for p in func_params(fn.node["op"]):
        q = p["type"].get("desugaredQualType") or p["type"]["qualType"]
        ct = ctype(p).plain() if not ctype(p).ptr else ctype(p)
        v = eng.havoc(CT(ct.name, ct.args, ct.ptr), p.get("name", "arg"))
        s.assume(*eng.wf(v))
        args.append(eng.newcell(s, v, p.get("name", "arg")) if "&" in q else v)
        if ct.name == "VaultRecordRef":
            ref = args[-1]
    if len(strs_) > 1 or len(vals) > 1 or ref is None:
        raise Unsupported("generator with several captures")
    p, vl = eng.load(s, eng.member(ref, "VaultRecordPtr")).t, eng.load(s, eng.member(ref, "Vlt")).t
    h = H(s)
    s.assume(p != NOREC, h.live(p), h.valid(p), h.g("R", "RefCounter.", p) >= 1, vl != NOV, h.base(vl), ty(anydef) == tyT)
    if strs_:
        mode, k = 2, strs_[0].t
        s.assume(h.kt(vl, k), h.ktv(vl, k) == tyT, h.rin(p, k), ty(h.rv(p, k)) == tyT)
        want = h.rv(p, k)
        st.assume(cMode(clo) == 2, cKey(clo) == k)
    else:
        d = vals[0].t if vals else anydef
        mode, want = 1, d
        st.assume(cMode(clo) == 1, cDef(clo) == d)
    s0 = s.copy()
    was, cur = eng.current, eng.cur
    eng.current = was + ", generator"
    try:
        n = 0
        for x, r in eng.call_lambda(s, fn, args):
            n += 1
            eng.oblige(x, "postcondition: the generator gives %s" % ("a constant" if mode == 1 else "the value of the record"), eng.load(x, r).t == want)
            for hp in s0.heap:
                for k in s0.heap[hp]:
                    if not x.heap[hp][k].eq(s0.heap[hp][k]):
                        eng.oblige(x, "frame: %s.%s is not changed" % (hp, k), x.heap[hp][k] == s0.heap[hp][k])
        if not n:
            eng.oblige(State(), "some path reaches the end", FALSE)
    finally:
        eng.current, eng.cur = was, cur


def invoke_generator(eng, st, f, args, e):
    i, r = eng.load(st, args[0]).t, args[1]
    p, v = eng.load(st, eng.member(r, "VaultRecordPtr")).t, eng.load(st, eng.member(r, "Vlt")).t
    h = H(st)
    eng.oblige(st, "a generator gets a reference to a record", z3.And(p != NOREC, h.live(p), h.valid(p), h.g("R", "RefCounter.", p) >= 1, v != NOV, h.base(v)))
    k = cKey(f.t)
    eng.oblige(st, "the value that the generator reads is there", imp(cMode(f.t) == 2, z3.And(h.kt(v, k), h.ktv(v, k) == tyT, h.rin(p, k), ty(h.rv(p, k)) == tyT)))
    C = h.a("R", "Container.val")
    x = generated(f.t, i, p, C)
    st.assume(ty(x) == tyT)
    return [(st, V(CT("AnyT"), {"": x}))]


def keys_engine():
    eng = reads_engine()
    u = eng.u
    u.hooks["new"] = new_index
    u.hooks["index stored"] = index_stored
    u.hooks["index dropped"] = index_dropped
    u.hooks["invoke generator"] = invoke_generator
    CL = dict(CLOSURES)
    CL["copier"] = Copier()
    for n, c in CL.items():
        u.hooks["invoke " + n] = c.call

    def closure(eng, st, kind, fn, clo):
        if kind == "generator":
            return generator_law(eng, st, fn, clo)
        tie(eng, st, kind, fn, clo)
        c = CL.get(kind)
        if c is not None:
            c.prove(eng, st, fn, clo)
    u.hooks["closure"] = closure
    return eng


CONTRACTS.update(
    IsKeyExist=lambda: IsKeyExist("Vault::IsKeyExist/1", cls="VaultRecordSet"),
    GetKeyType=lambda: GetKeyType("Vault::GetKeyType/2", cls="VaultRecordSet"),
    GetKeyValue=lambda: GetKeyValue("Vault::GetKeyValue/2<AnyT>", cls="VaultRecordSet"),
    UpdateKey=lambda: UpdateKey("Vault::UpdateKey/2<AnyT>", cls="VaultRecordSet"),
    RefGetData=lambda: RefGetData("VaultRecordRef::GetData/2<AnyT>", cls="VaultRecordRef"),
    AddKey=lambda: AddKey("Vault::AddKey/5<AnyT>", cls="VaultRecordSet"),
    AddKeyNew=lambda: AddKeyNew("Vault::AddKey/5<AnyT>", cls="VaultRecordSet", label="Vault::AddKey/5<AnyT> (set without keys)"),
    AddPlainKey=lambda: AddPlainKey("Vault::AddKey/2<AnyT>", cls="VaultRecordSet"),
    AddUniqueKey=lambda: AddUnique("Vault::AddUniqueKey/1<AnyT>", cls="VaultRecordSet"),
    AddUniqueKeyBy=lambda: AddUnique("Vault::AddUniqueKey/2<AnyT>", cls="VaultRecordSet"),
    RemoveKey=lambda: RemoveKey("Vault::RemoveKey/1", cls="VaultRecordSet"),
)


def proof(*names):
    return prove_all(keys_engine(), names)
