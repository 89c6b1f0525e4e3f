"""Contracts of the vault: what its functions do to keys, records, indexes and record sets, and the invariant they keep."""
from .vmodel import *

SRC = "".join('#include "%s"\n' % f for f in ("Vault.cpp", "VaultRecordRef.cpp", "VaultRecordSet.cpp", "VaultParamInput.cpp", "VaultOperationResult.cpp")) + '''
#include "MVault.h"
namespace mvlt {
struct AnyT { int x = 0; bool operator==(const AnyT& o) const; bool operator!=(const AnyT& o) const; bool operator<(const AnyT& o) const; bool operator>(const AnyT& o) const; bool operator<=(const AnyT& o) const; bool operator>=(const AnyT& o) const; };
std::ostream& operator<<(std::ostream&, const AnyT&);
}
namespace std { template <> struct hash<mvlt::AnyT> { size_t operator()(const mvlt::AnyT&) const noexcept; }; }
namespace mvlt {
inline void instance(Vault& v, VaultRecordSet& s, VaultRecordRef& r, std::string& k, AnyT& a, std::size_t& n, std::vector<VaultRecordRef>& refs, std::function<AnyT(const std::size_t&, const VaultRecordRef&)>& gen, std::function<bool(const VaultRecordRef&)>& pr, bool& b)
{
    v.AddKey(k, a); v.AddUniqueKey<AnyT>(k); v.AddUniqueKey<AnyT>(k, gen); v.UpdateKey(k, a); v.GetKeyValue(k, a);
    v.CreateRecord({{k, a}}); v.CreateRecord(r, {{k, a}}); v.GetRecord(k, a, r); v.GetRecords(k, a, refs, n);
    v.RequestEqual(k, a, s, n, pr); v.RequestGreater(k, a, s, n, pr); v.RequestGreaterOrEqual(k, a, s, n, pr); v.RequestLess(k, a, s, n, pr); v.RequestLessOrEqual(k, a, s, n, pr);
    v.RequestInterval(k, a, a, s, b, b, n, pr); v.EraseRecord(k, a); v.EraseRecords(k, a, n);
    s.RequestEqual(k, a, s, n, pr); s.RequestGreater(k, a, s, n, pr); s.RequestGreaterOrEqual(k, a, s, n, pr); s.RequestLess(k, a, s, n, pr); s.RequestLessOrEqual(k, a, s, n, pr);
    s.RequestInterval(k, a, a, s, b, b, n, pr); s.RemoveRecord(k, a); s.RemoveRecords(k, a, n); s.GetRecord(k, a, r); s.GetRecords(k, a, refs, n); s.GetKeyValue(k, a);
    r.SetData(k, a); r.GetData(k, a); s.SortBy(k, pr, b, n);
}
}
'''
SRC2 = '#include "VaultRecord.cpp"\n'
HEAPS = {"Vault": ("V", VRef), "VaultRecordSet": ("V", VRef), "VaultRecord": ("R", RRef), "UnorderedMap": ("H", HP), "Map": ("T", TP), "DataHashMap": ("R", RRef), "DataContainer": ("R", RRef)}
IDX = CT("UnorderedMap", (CT("AnyT"), CT("VaultRecord", (), 1)))
IDXT = CT("Map", (CT("AnyT"), CT("VaultRecord", (), 1)))
GHOST = {"V": {}, "R": {"#live": Bool, "#home": VRef}, "H": {}, "T": {}}
ORDER = ("at", "pos", "size")
CODE = {}


def init(eng, st):
    for h, ct, ref in (("V", CT("VaultRecordSet"), VRef), ("R", CT("VaultRecord"), RRef), ("H", IDX, HP), ("T", IDXT, TP)):
        c = {k: fresh(h + "." + k, arr(ref, t)) for k, t in eng.comps(ct).items()}
        c.update({k: fresh(h + "." + k, arr(ref, t)) for k, t in GHOST[h].items()})
        st.heap[h] = c
    for k in ("V", "R", "H", "T"):
        pass


CLO = dict(A="VaultRecordAdders", C="VaultRecordClearers", E="VaultRecordErasers", S="VaultRecordSorters", K="VaultKeyCopiers")


class H:
    """the heap of a state, with its components as constants"""
    def __init__(self, st):
        self.st = st
        if not st.notes.get("normal") or any(st.heap[h] is not st.notes["normal"][h] for h in GHOST):
            for h in GHOST:
                b = dict(st.heap[h])
                for k, t in b.items():
                    if not z3.is_const(t):
                        f = fresh(h + "." + k, t.sort())
                        st.pc.append(f == t)
                        b[k] = f
                st.heap[h] = b
            st.notes["normal"] = dict(st.heap)

    def a(self, h, k):
        return self.st.heap[h][k]

    def g(self, h, k, *ks):
        return sel(self.a(h, k), *ks)

    kt = lambda s, v, k: s.g("V", "KeysTypes.in", v, k)
    kts = lambda s, v: s.g("V", "KeysTypes.in", v)
    ktv = lambda s, v, k: s.g("V", "KeysTypes.val", v, k)
    uq = lambda s, v, k: s.g("V", "UniqueKeys.in", v, k)
    rs = lambda s, v, r: s.g("V", "RecordsSet.in", v, r)
    rss = lambda s, v: s.g("V", "RecordsSet.in", v)
    sets = lambda s, v, q: s.g("V", "RecordSetsSet.in", v, q)
    par = lambda s, v: s.g("V", "ParentVault.", v)
    hsv = lambda s, v, k: s.g("V", "VaultHashMapStructure.Container.val", v, k)
    tsv = lambda s, v, k: s.g("V", "VaultMapStructure.Container.val", v, k)
    hs = lambda s, v, k: asH(s.hsv(v, k))
    ts = lambda s, v, k: asT(s.tsv(v, k))
    tv = lambda s, v, k: s.g("V", "RecordTemplate.Container.val", v, k)
    rv = lambda s, r, k: s.g("R", "Container.val", r, k)
    rin = lambda s, r, k: s.g("R", "Container.in", r, k)
    live = lambda s, r: s.g("R", "#live", r)
    valid = lambda s, r: s.g("R", "IsValid.", r)
    deps = lambda s, r, v: s.g("R", "dependentVaultRecordSets.in", r, v)
    isset = lambda s, v: s.g("V", "VaultDerivedClass.", v) == 1
    base = lambda s, v: s.g("V", "VaultDerivedClass.", v) == 0
    hin = lambda s, h, r: s.g("H", "in", h, r)
    tin = lambda s, h, r: s.g("T", "in", h, r)
    hkv = lambda s, h, r: s.g("H", "kv", h, r)
    tkv = lambda s, h, r: s.g("T", "kv", h, r)

    def idx(self, v, k):
        """h and t are the indexes of key k of vault v"""
        h, t = self.hs(v, k), self.ts(v, k)
        g = self.g
        return z3.And(g("H", "ov", h) == v, g("H", "ok", h) == k, g("H", "live", h), g("T", "ov", t) == v, g("T", "ok", t) == k, g("T", "live", t), h != nul(HP), t != nul(TP),
                      g("H", "multi", h) == z3.Not(self.uq(v, k)), g("T", "multi", t) == z3.Not(self.uq(v, k)),
                      ty(self.hsv(v, k)) == tyH(self.ktv(v, k)), ty(self.tsv(v, k)) == tyM(self.ktv(v, k)), ty(self.tv(v, k)) == self.ktv(v, k))

    def mirror(self, v, k):
        h, t = self.hs(v, k), self.ts(v, k)
        return z3.And(self.g("H", "in", h) == self.g("T", "in", t), forall([RRef], lambda r: imp(self.hin(h, r), self.hkv(h, r) == self.tkv(t, r)), lambda r: [self.hkv(h, r)]))

    # ------------------------------------------------ the invariant, in parts
    def schema(self, ex=None):
        """ex: formula over v, k that excepts a key of a vault"""
        g = self.g
        no = lambda *a: z3.Not(ex(*a)) if ex else z3.BoolVal(True)
        allv = [("RecordTemplate.Container.in", 1), ("VaultHashMapStructure.Container.in", 1), ("VaultMapStructure.Container.in", 1)] + [(n + ".in", 1) for n in CLO.values()]
        KT = self.a("V", "KeysTypes.in")
        for nm, _ in allv:
            X = self.a("V", nm)
            yield "%s has the keys" % nm.replace(".Container", "").replace(".in", ""), forall([VRef, Str], lambda v, k: imp(no(v, k), X[v][k] == KT[v][k]), lambda v, k: [X[v][k], KT[v][k]])
        yield "every key has its own two indexes", forall([VRef, Str], lambda v, k: imp(z3.And(no(v, k), self.kt(v, k)), self.idx(v, k)), lambda v, k: [self.kt(v, k), self.hsv(v, k), self.tsv(v, k)])
        yield "unique keys are keys", forall([VRef, Str], lambda v, k: imp(z3.And(no(v, k), self.uq(v, k)), self.kt(v, k)), lambda v, k: [self.uq(v, k)])
        for c, nm in CLO.items():
            f = lambda v, k: g("V", nm + ".val", v, k)
            if c == "K":
                body = lambda v, k: z3.And(cKey(f(v, k)) == k, cTy(f(v, k)) == self.ktv(v, k), ty(cDef(f(v, k))) == self.ktv(v, k), cUniq(f(v, k)) == self.uq(v, k))
            else:
                body = lambda v, k: z3.And(cT(f(v, k)) == self.ts(v, k), *([cH(f(v, k)) == self.hs(v, k)] if c != "S" else []), *([cKey(f(v, k)) == k, cTy(f(v, k)) == self.ktv(v, k)] if c in "AE" else []))
            yield nm + " work on the indexes of their key", forall([VRef, Str], lambda v, k: imp(z3.And(no(v, k), self.kt(v, k)), body(v, k)), lambda v, k: [f(v, k)])
        yield "no key is the null name", forall([VRef], lambda v: z3.Not(self.kt(v, NOKEY)), lambda v: [self.kts(v)])

    def content(self):
        yield "indexes hold the records", forall([VRef, Str], lambda v, k: imp(self.kt(v, k), z3.And(self.g("H", "in", self.hs(v, k)) == self.rss(v), self.g("T", "in", self.ts(v, k)) == self.rss(v))),
                                                lambda v, k: [self.g("H", "in", self.hs(v, k)), self.g("T", "in", self.ts(v, k))])
        yield "indexes hold the values", forall([VRef, Str, RRef], lambda v, k, r: imp(z3.And(self.kt(v, k), self.rs(v, r)), z3.And(
            self.hkv(self.hs(v, k), r) == self.rv(r, k), self.tkv(self.ts(v, k), r) == self.rv(r, k))), lambda v, k, r: [self.hkv(self.hs(v, k), r), self.tkv(self.ts(v, k), r)])
        yield "unique keys do not repeat", self.unique()

    def unique(self):
        IN, KV, M = self.a("H", "in"), self.a("H", "kv"), self.a("H", "multi")
        return forall([HP, RRef, RRef], lambda h, a, b: imp(z3.And(z3.Not(M[h]), IN[h][a], IN[h][b], KV[h][a] == KV[h][b]), a == b), lambda h, a, b: [(IN[h][a], IN[h][b])])

    def records(self, ex=None):
        """ex: formula over v, k that excepts a key of a vault"""
        g = self.g
        no = lambda *a: z3.Not(ex(*a)) if ex else z3.BoolVal(True)
        yield "records are alive", forall([VRef, RRef], lambda v, r: imp(self.rs(v, r), z3.And(self.live(r), self.valid(r), r != NOREC)), lambda v, r: [self.rs(v, r)])
        yield "records have a value for every key", forall([VRef, RRef, Str], lambda v, r, k: imp(z3.And(no(v, k), self.rs(v, r), self.kt(v, k)), z3.And(self.rin(r, k), ty(self.rv(r, k)) == self.ktv(v, k))), lambda v, r, k: [(self.rs(v, r), self.rv(r, k), self.kts(v)), (self.rs(v, r), self.kt(v, k))])
        yield "records have no other values", forall([VRef, RRef, Str], lambda v, r, k: imp(z3.And(self.rs(v, r), self.base(v)), self.rin(r, k) == self.kt(v, k)), lambda v, r, k: [(self.rs(v, r), self.rin(r, k))])
        yield "records are in one vault", forall([VRef, RRef], lambda v, r: imp(z3.And(self.rs(v, r), self.base(v)), g("R", "#home", r) == v), lambda v, r: [self.rs(v, r)])
        yield "records know their sets", self.knows()
        home = lambda r: g("R", "#home", r)
        yield "valid records are in their vault", forall([RRef], lambda r: imp(z3.And(self.live(r), self.valid(r)), z3.And(self.base(home(r)), self.rs(home(r), r))), lambda r: [(self.live(r), self.valid(r))])
        yield "reference counts are not negative", forall([RRef], lambda r: g("R", "RefCounter.", r) >= 0, lambda r: [g("R", "RefCounter.", r)])
        yield "invalid records are referred to", forall([RRef], lambda r: imp(z3.And(self.live(r), z3.Not(self.valid(r))), g("R", "RefCounter.", r) > 0), lambda r: [(self.live(r), self.valid(r))])

    def knows(self):
        return forall([RRef, VRef], lambda r, s: imp(self.live(r), self.deps(r, s) == z3.And(self.isset(s), self.rs(s, r))), lambda r, s: [self.deps(r, s), self.rs(s, r)])

    def family(self, ex=None, unk=None, out=None):
        """ex: formula over s, k that excepts a key of a set; unk: over s, a set which its vault does not know yet;
        out: over b, s, a set which a vault knows that is not its own yet"""
        no = lambda *a: z3.Not(ex(*a)) if ex else z3.BoolVal(True)
        ex1 = lambda s: z3.Not(unk(s)) if unk else z3.BoolVal(True)
        mem = lambda b, s: z3.And(z3.Not(out(b, s)), self.sets(b, s)) if out else self.sets(b, s)
        yield "a set is known to its vault", forall([VRef], lambda s: imp(z3.And(self.isset(s), self.par(s) != NOV), z3.And((imp(ex1(s), self.sets(self.par(s), s)) if unk else self.sets(self.par(s), s)), self.base(self.par(s)))), lambda s: [self.par(s), self.g("V", "VaultDerivedClass.", s)])
        yield "a set has the keys of its vault", forall([VRef, Str], lambda s, k: imp(z3.And(no(s, k), self.isset(s), self.par(s) != NOV), z3.And(self.kt(s, k) == self.kt(self.par(s), k), self.uq(s, k) == self.uq(self.par(s), k),
            imp(self.kt(s, k), self.ktv(s, k) == self.ktv(self.par(s), k)))), lambda s, k: [(self.par(s), self.kt(s, k)), (self.g("V", "VaultDerivedClass.", s), self.kt(s, k))])
        yield "a set has records of its vault", forall([VRef, RRef], lambda s, r: imp(z3.And(self.isset(s), self.par(s) != NOV, self.rs(s, r)), self.rs(self.par(s), r)), lambda s, r: [(self.par(s), self.rs(s, r)), (self.g("V", "VaultDerivedClass.", s), self.rs(s, r))])
        yield "sets known to a vault belong to it", forall([VRef, VRef], lambda b, s: imp(mem(b, s), z3.And(self.isset(s), self.par(s) == b, b != NOV)), lambda b, s: [self.sets(b, s)])
        yield "a detached set is empty", forall([VRef], lambda s: imp(z3.And(self.isset(s), self.par(s) == NOV), z3.And(self.rss(s) == z3.K(RRef, False), self.kts(s) == z3.K(Str, False))), lambda s: [self.par(s)])
        yield "there is no vault at null", z3.And(self.base(NOV), self.rss(NOV) == z3.K(RRef, False), self.kts(NOV) == z3.K(Str, False))
        yield "vaults are vaults or sets", forall([VRef], lambda v: z3.Or(self.isset(v), self.base(v)), lambda v: [self.g("V", "VaultDerivedClass.", v)])

    kat = lambda s, v: s.g("V", "KeysOrder.at.", v)
    kn = lambda s, v: s.g("V", "KeysOrder.size", v)

    def order(self, ex=None):
        """the order of the keys; ex: formula over v that excepts a vault"""
        no = lambda *a: z3.Not(ex(*a)) if ex else z3.BoolVal(True)
        kp = lambda v, k: kpos(self.kat(v), self.kn(v), k)
        yield "the key order lists every key", forall([VRef, Str], lambda v, k: imp(z3.And(no(v), self.kt(v, k)), z3.And(kp(v, k) >= 0, kp(v, k) < self.kn(v), self.kat(v)[kp(v, k)] == k)), lambda v, k: [kp(v, k)])
        yield "the key order lists keys once", forall([VRef, Int], lambda v, i: imp(z3.And(no(v), i >= 0, i < self.kn(v)), z3.And(self.kt(v, self.kat(v)[i]), kp(v, self.kat(v)[i]) == i)), lambda v, i: [self.kat(v)[i]])
        yield "the key order is a list", forall([VRef], lambda v: self.kn(v) >= 0, lambda v: [self.kn(v)])

    def inv(self, fam=None, ord=None, rec=None, unk=None, out=None):
        yield from self.schema()
        yield from self.order(ord)
        yield from self.content()
        yield from self.records(rec)
        yield from self.family(fam, unk, out)


def same(c0, c1, *comps):
    """components of the heap that do not change"""
    return [("%s.%s stays" % hk, c1.a(*hk) == c0.a(*hk)) for hk in comps if not c1.a(*hk).eq(c0.a(*hk))]


def code(eng, nm):
    """value of an enumerator of VaultOperationResultCode"""
    if nm not in CODE:
        for tu_ in eng.tus:
            for x in tu_.decl.values():
                if x.get("kind") == "EnumDecl" and x.get("name") == "VaultOperationResultCode":
                    n = 0
                    for c in x.get("inner", ()):
                        if c.get("kind") == "EnumConstantDecl":
                            for q in c.get("inner", ()):
                                if q.get("kind") == "ConstantExpr" and "value" in q:
                                    n = int(q["value"])
                            CODE[c["name"]] = n
                            n += 1
    if nm not in CODE:
        raise Unattached("result code " + nm)
    return z3.IntVal(CODE[nm])


TVOID = z3.Const("type void", Ty)


class VC(FnContract):
    """contract of a function of the vault layer"""
    heaps = ()                  # heap components it may change

    def __init__(self, key, cls=None, **k):
        FnContract.__init__(self, key, cls=cls, **k)

    def modifies(self, c):
        return [("heap", h, k) for h, k in self.heaps]

    def loop(self, eng, st, node, kind, loc):
        return None

    def facts(self, c):
        """instances of laws of the models that a proof uses"""
        return []

    def lemmas(self, c):
        return []

    def apply(self, eng, st, this, args, e):
        H(st)
        return FnContract.apply(self, eng, st, this, args, e)

    def ref(self, c):
        """the vault or record the function is called on"""
        t = c.this
        if isinstance(t, LV):
            if t.store[0] == "heap" and len(t.keys) == 1 and not t.prefix:
                return t.keys[0]
            raise Unsupported("called on an object which is not in the heap")
        return t.t

    def h0(self, c):
        return H(c.s0)

    def h1(self, c):
        return H(c.s1)


def oprt(eng):
    return CT("VaultOperationResult")


def result_is(c, eng, ok, codename, key=None, req=None, saved=None):
    r = c.ret if isinstance(c.ret, V) else c.new(c.ret)
    out = [r.c["IsOperationSuccess."] == z3.BoolVal(ok), r.c["ResultCode."] == code(eng, codename)]
    if key is not None:
        out.append(r.c["Key."] == key)
    if req is not None:
        out.append(r.c["RequestedType."] == req)
    if saved is not None:
        out.append(r.c["SavedType."] == saved)
    return z3.And(*out)


def stepped(st, node):
    """locations of the iterators that a loop moves"""
    out = []

    def walk(x, inside):
        k = x.get("kind")
        if k == "CXXOperatorCallExpr" and len(x.get("inner", ())) >= 2:
            nm = str(x["inner"][0]).find("operator++") >= 0 or str(x["inner"][0]).find("operator--") >= 0
            inside = inside or nm
        if k == "UnaryOperator" and x.get("opcode") in ("++", "--"):
            inside = True
        if inside and k == "DeclRefExpr":
            l = st.env.get(x["referencedDecl"]["id"])
            if isinstance(l, LV) and l.ct.name == "AllMapIterator" and not any(l.same(y) for y in out):
                out.append(l)
        for y in x.get("inner", ()):
            if isinstance(y, dict):
                walk(y, inside)
    walk(node, False)
    return out


def ends(eng, st):
    """locations of the second iterators of pairs of iterators among the locals"""
    return [eng.model(x.ct).member(st, x, "second") for x in st.env.values()
            if isinstance(x, LV) and x.store[0] == "cell" and x.ct.name == "std::pair" and x.ct.args[0].name == "AllMapIterator" and x.ct.args[1].name == "AllMapIterator"]


def search(node, what):
    """loop that looks for a record between two iterators: none of the elements passed satisfies what(element)"""
    def inv(eng, entry, st):
        for l in stepped(entry, node):
            a, b = eng.load(entry, l), eng.load(st, l)
            p = place_of(eng, b)
            w = eng.model(p.ct).read(st, p)
            P, IN, AT = w.c["pos"], w.c["in"], w.c["at"]
            lo, cur = P[a.t], P[b.t]
            for q in ends(eng, st):
                e = eng.load(st, q)
                if e.c["of"].eq(b.c["of"]):
                    yield "the search stays before its end", imp(lo <= P[e.t], cur <= P[e.t])
            yield "the search moves forward", z3.And(lo <= cur, cur <= w.c["size"], AT[cur] == b.t)
            yield "what was passed is not what is looked for", forall([RRef], lambda r: imp(z3.And(IN[r], lo <= P[r], P[r] < cur), z3.Not(what(r))), lambda r: [IN[r]])
    return Spec("search", inv)


# ------------------------------------------------------------------ writing a value
KV = [("H", "in"), ("H", "kv"), ("T", "in"), ("T", "kv")] + [(h, k) for h in "HT" for k in ORDER]


def written(h0, h1, aff, rec, x):
    """the pairs of rec in the indexes aff(index, heap name) hold x, nothing else changes"""
    yield "the same records are in the indexes", z3.And(h1.a("H", "in") == h0.a("H", "in"), h1.a("T", "in") == h0.a("T", "in"))
    for q, R in (("H", HP), ("T", TP)):
        A, B = h0.a(q, "kv"), h1.a(q, "kv")
        yield "the %s indexes hold the new value and the old ones otherwise" % ("hashed" if q == "H" else "ordered"), forall([R], lambda h: B[h] == z3.If(aff(q, h), z3.Store(A[h], rec, x), A[h]), lambda h: [B[h]])


RC = [("R", "Container." + k) for k in ("val", "in") + ORDER]


class SetDataToRecord(VC):
    heaps = tuple(KV + RC)

    def result(self, c):
        return CT("VaultOperationResult")

    def parts(self, c):
        v = self.ref(c)
        rec, key, x = c.old(c.args[0]), c.old(c.args[1]).t, c.old(c.args[2]).t
        return v, c.eng.retarget(rec, CT("VaultRecord", (), 1)).t, key, x

    def pre(self, c):
        h = self.h0(c)
        v, rec, key, x = self.parts(c)
        good = z3.And(rec != NOREC, h.valid(rec))
        yield "the value has the type of the call", ty(x) == tyT
        yield "the record is alive", imp(rec != NOREC, h.live(rec))
        for n, f in h.schema():
            yield n, f
        yield "kind", z3.Or(h.isset(v), h.base(v))
        t = z3.And(good, h.kt(v, key), h.ktv(v, key) == tyT)
        yield "the indexes agree", imp(t, h.mirror(v, key))
        yield "the record is in the indexes under its value", imp(t, z3.And(h.hin(h.hs(v, key), rec), h.hkv(h.hs(v, key), rec) == h.rv(rec, key), h.rin(rec, key), ty(h.rv(rec, key)) == tyT))
        hh = h.hs(v, key)
        yield "the value does not repeat in a set", imp(z3.And(t, h.isset(v), z3.Not(h.g("H", "multi", hh))), forall([RRef], lambda r: imp(z3.And(h.hin(hh, r), r != rec), h.hkv(hh, r) != x), lambda r: [h.hin(hh, r)]))
        b = h.base(v)
        yield "record of the vault", imp(z3.And(b, good), h.rs(v, rec))
        for n, f in list(h.order()) + list(h.content()) + list(h.records()) + list(h.family()):
            yield n, imp(b, f)

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v, rec, key, x = self.parts(c)
        eng = c.eng
        good = z3.And(rec != NOREC, h0.valid(rec))
        hh = h0.hs(v, key)
        w = z3.Const("w!conflict", RRef)
        conflict = z3.And(z3.Not(h0.g("H", "multi", hh)), exists([RRef], lambda r: z3.And(h0.hin(hh, r), h0.hkv(hh, r) == x, r != rec)))
        ok = z3.And(good, h0.kt(v, key), h0.ktv(v, key) == tyT, z3.Not(conflict))
        unch = z3.And(*[h1.a(*k) == h0.a(*k) for k in (("H", "in"), ("H", "kv"), ("T", "in"), ("T", "kv"), ("R", "Container.val"), ("R", "Container.in"))])
        yield "an invalid record is refused", imp(z3.Not(good), z3.And(result_is(c, eng, False, "DataRecordNotValid", key, tyT), unch))
        yield "an unknown key is refused", imp(z3.And(good, z3.Not(h0.kt(v, key))), z3.And(result_is(c, eng, False, "WrongKey", key, tyT), unch))
        yield "another type is refused", imp(z3.And(good, h0.kt(v, key), h0.ktv(v, key) != tyT), z3.And(result_is(c, eng, False, "WrongType", key, tyT, h0.ktv(v, key)), unch))
        typed = z3.And(good, h0.kt(v, key), h0.ktv(v, key) == tyT)
        yield "a repeated unique value is refused", imp(z3.And(typed, conflict), z3.And(result_is(c, eng, False, "UniqueKeyValueAlredyInSet", key, tyT, tyT), unch))
        yield "success", imp(ok, result_is(c, eng, True, "Success", key, tyT, tyT))

        def aff(q, h):
            ov, okk = h0.g(q, "ov", h), h0.g(q, "ok", h)
            own = h0.hs(ov, key) == h if q == "H" else h0.ts(ov, key) == h
            return z3.And(okk == key, h0.kt(ov, key), own, z3.Or(ov == v, z3.And(h0.base(v), h0.deps(rec, ov))))
        for n, f in written(h0, h1, aff, rec, x):
            yield n, imp(ok, f)
        yield "a set does not touch the values of the record", imp(h0.isset(v), z3.And(*[h1.a(*k) == h0.a(*k) for k in RC]))
        yield "the record holds the value if this is the vault", imp(ok, z3.And(h1.a("R", "Container.in") == h0.a("R", "Container.in"), h1.a("R", "Container.val") == z3.If(h0.base(v), z3.Store(h0.a("R", "Container.val"), rec, z3.Store(
            h0.g("R", "Container.val", rec), key, x)), h0.a("R", "Container.val"))))
        if c.s0 is not c.s1 and getattr(self, "proving", False):
            for n, f in h1.inv():
                yield "kept: " + n, imp(h0.base(v), f)

    def loop(self, eng, st, node, kind, loc):
        rec = eng.cur[1].args[0]
        r = eng.load(st, rec).t if isinstance(rec, LV) else rec.t
        if kind == "for":
            return search(node, lambda e: e == r)


class UpdateDependentSets(VC):
    heaps = tuple(KV + RC)

    def parts(self, c):
        return self.ref(c), c.old(c.args[0]).t, c.old(c.args[1]).t

    def pre(self, c):
        h = self.h0(c)
        rec, key, x = self.parts(c)
        yield "alive", z3.And(h.live(rec), h.valid(rec), rec != NOREC)
        yield "the value has the type of the call", ty(x) == tyT
        for n, f in h.schema():
            yield n, f
        D = lambda s: h.deps(rec, s)
        yield "the sets know the key", forall([VRef], lambda s: imp(D(s), z3.And(s != NOV, h.isset(s), h.kt(s, key), h.ktv(s, key) == tyT)), lambda s: [D(s)])
        yield "the sets index the record", forall([VRef], lambda s: imp(D(s), z3.And(h.hin(h.hs(s, key), rec), h.hkv(h.hs(s, key), rec) == h.rv(rec, key), h.rin(rec, key), ty(h.rv(rec, key)) == tyT)), lambda s: [D(s)])
        yield "their indexes have the same records", forall([VRef], lambda s: imp(D(s), h.g("H", "in", h.hs(s, key)) == h.g("T", "in", h.ts(s, key))), lambda s: [D(s)])
        yield "their indexes have the same values", forall([VRef, RRef], lambda s, r: imp(z3.And(D(s), h.hin(h.hs(s, key), r)), h.hkv(h.hs(s, key), r) == h.tkv(h.ts(s, key), r)),
                                                        lambda s, r: [(D(s), h.hkv(h.hs(s, key), r)), (D(s), h.tkv(h.ts(s, key), r))])
        yield "the value does not repeat in the sets", forall([VRef, RRef], lambda s, r: imp(z3.And(D(s), z3.Not(h.g("H", "multi", h.hs(s, key))), h.hin(h.hs(s, key), r), r != rec), h.hkv(h.hs(s, key), r) != x),
                                                             lambda s, r: [(D(s), h.hin(h.hs(s, key), r))])

    def aff(self, h0, rec, key):
        def f(q, h):
            ov, okk = h0.g(q, "ov", h), h0.g(q, "ok", h)
            own = h0.hs(ov, key) == h if q == "H" else h0.ts(ov, key) == h
            return z3.And(okk == key, h0.kt(ov, key), own, h0.deps(rec, ov))
        return f

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        rec, key, x = self.parts(c)
        yield from written(h0, h1, self.aff(h0, rec, key), rec, x)
        yield "the values of the records stay", z3.And(*[h1.a(*k) == h0.a(*k) for k in RC])

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        if kind != "range":
            return None
        rec, key, x = self.parts(c)
        idx = loc["index"]

        def inv(eng, a, b):
            h0, h1 = H(c.s0), H(b)
            i = eng.load(b, idx).t
            P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
            f = self.aff(h0, rec, key)
            yield from written(h0, h1, lambda q, h: z3.And(f(q, h), P[h0.g(q, "ov", h)] < i), rec, x)
            yield "the values of the records stay", z3.And(*[h1.a(*k) == h0.a(*k) for k in RC])
        return Spec("over the sets", inv)


def equal_sizes(h, v, k):
    """finite sets with the same elements have the same size: the records of a vault and an index with them"""
    n = h.g("V", "RecordsSet.size", v)
    return [imp(h.g(q, "in", i) == h.rss(v), h.g(q, "size", i) == n) for q, i in (("H", h.hs(v, k)), ("T", h.ts(v, k)))]


def dispatch(eng, st, node, kind, loc):
    con = eng.cur[0]
    H(st)                                   # the components of the heap get names before the loop gives them new values
    return con.loop(eng, st, node, kind, loc)


def vault_engine():
    u = unit("vault")
    u.models.insert(0, vmodel)
    u.heapclass.update(HEAPS)
    u.axioms += AXIOMS
    u.loops["*"] = dispatch
    u.hooks["alive"] = lambda eng, st, heap, t: (eng.oblige(st, "the record is alive", sel(st.heap["R"]["#live"], t)) if heap == "R" else None)
    u.hooks["VaultOperationResult::SetOpResult/1"] = set_op_result
    eng = Engine(u, [cast.load(SRC, "vault"), cast.load(SRC2, "vaultrecord")])
    eng.cur = None
    return eng


def set_op_result(eng, st, this, args, e):
    """prints in builds that ask for it; its contract is proved in contracts/results.py"""
    eng.store(st, eng.member(this, "ResultCode"), eng.load(st, args[0]))
    return [(st, void())]


def prove_fn(eng, con):
    orig = con.setup

    def setup(e, st, info):
        this, args = orig(e, st, info)
        c = Ctx(e, st.copy(), this, args)
        c.s0 = st.copy()
        H(c.s0)
        c.s0.assume(*con.facts(c))
        for n, f, (g, seen) in con.lemmas(c):
            s0 = c.s0.copy()
            for k, (nm, q) in enumerate(named(con.pre(c), "pre")):
                s0.assume(q)
            for t in seen:
                u = fresh("seen", t.sort())
                s0.assume(u == t)
            e.current = con.label
            e.oblige(s0, "consequence of the precondition: " + n, g)
            c.s0.assume(f)
        st.heap, st.pc, st.notes = dict(c.s0.heap), list(c.s0.pc), dict(c.s0.notes)
        eng.cur = (con, c)
        return this, args
    con.setup = setup
    con.proving = True
    try:
        return verify(eng, con, init)
    finally:
        con.setup = orig
        con.proving = False


CONTRACTS = dict(
    SetDataToRecord=lambda: SetDataToRecord("Vault::SetDataToRecord/3<AnyT>", cls="VaultRecordSet"),
    UpdateDependentSets=lambda: UpdateDependentSets("VaultRecord::UpdateDependentSets/2<AnyT>"),
)


def proof(*names):
    eng = vault_engine()
    cons = {n: f() for n, f in CONTRACTS.items()}
    for n, c in cons.items():
        eng.u.contracts[c.key] = c
    p = Proof()
    for n in names:
        con = cons[n]
        p.run(eng, con.label, lambda: prove_fn(eng, con))
    p.assumptions |= {"key types are parametric: verified for one type with a strict total order and consistent equality and hash",
                      "holders and map wrappers by their contracts (contracts/saver.py, container.py, maps.py)", "locks by contracts/locks.py; one thread"}
    p.trusted |= {"models of std::unordered_set, std::unordered_map, std::set, std::list, std::vector, std::function, std::type_index"}
    return p.close(eng)
