"""Contracts of creating records: the values given to a record, and the record itself."""
from .vault_keys import *

ROW = arr(Str, Val)
NAMES, FUNCS = arr(Int, Str), arr(Int, Clo)
applied = z3.Function("row after parameters", NAMES, FUNCS, ROW, Int, ROW)      # the row with the first i parameters written into it, in order
newcomer = z3.Function("newcomer", arr(RRef, Bool), arr(RRef, Bool), RRef)      # a member of the first set which is not in the second, if there is one
RALL = tuple(("R", k) for k in ("IsValid.", "RefCounter.", "#live", "#home")) + tuple(("R", "Container." + k) for k in ("in", "val") + ORDER) + tuple(("R", "dependentVaultRecordSets." + k) for k in ("in",) + ORDER)
RSET = tuple(("V", "RecordsSet." + k) for k in ("in",) + ORDER)
PARAM = "at.second."
FREC, FREF, FTYPE = PARAM + "SetDataToRecordFunc.", PARAM + "SetDataToRefFunc.", PARAM + "DataType."


def apply_laws(names, fs, row, i):
    """applied is defined by these two lines"""
    return [applied(names, fs, row, z3.IntVal(0)) == row, applied(names, fs, row, i + 1) == z3.Store(applied(names, fs, row, i), names[i], cDef(fs[i]))]


def newcomer_law():
    return forall([arr(RRef, Bool), arr(RRef, Bool), RRef], lambda a, b, r: imp(z3.And(a[r], z3.Not(b[r])), z3.And(a[newcomer(a, b)], z3.Not(b[newcomer(a, b)]))), lambda a, b, r: [(newcomer(a, b), a[r])])


class RecordCopy(VC):
    """a record made from another one has its values and nothing else of it"""
    def __init__(self, key, **k):
        VC.__init__(self, key, cls="VaultRecord", **k)

    def whole(self, c):
        return c.this if isinstance(c.this, LV) else c.eng.deref(c.s0, c.this)

    def modifies(self, c):
        return [self.whole(c)]

    def pre(self, c):
        h = self.h0(c)
        r = self.ref(c)
        yield "there is room for the record", z3.And(r != NOREC, h.live(r))

    def other(self, c, name, new=False):
        return (c.new if new else c.old)(c.args[0]).c[name]

    def post(self, c):
        h = self.h1(c)
        r = self.ref(c)
        IN, VAL = self.other(c, "Container.in"), self.other(c, "Container.val")
        A, B = h.a("R", "Container.in"), h.a("R", "Container.val")
        yield "it has the names", A[r] == IN
        yield "it has the values", forall([Str], lambda k: imp(sel(IN, k), B[r][k] == sel(VAL, k)), lambda k: [B[r][k]])
        yield "it is valid", h.valid(r)
        yield "nothing refers to it", h.g("R", "RefCounter.", r) == 0
        yield "it is in no set", h.g("R", "dependentVaultRecordSets.in", r) == z3.K(VRef, FALSE)

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        if kind != "range":
            return None
        r, idx = self.ref(c), loc["index"]

        def inv(eng, a, b):
            h0, h1 = H(a), H(b)
            i = eng.load(b, idx).t
            w = eng.model(loc["range"].ct).read(a, loc["range"])
            IN, VAL, P = w.c["in"], w.c["val"], w.c["pos"]
            A, B = h1.a("R", "Container.in"), h1.a("R", "Container.val")
            yield "it has the names passed", forall([Str], lambda k: A[r][k] == z3.And(sel(IN, k), P[k] < i), lambda k: [A[r][k]])
            yield "it has their values", forall([Str], lambda k: imp(A[r][k], B[r][k] == sel(VAL, k)), lambda k: [B[r][k]])
            for k in ("in", "val") + ORDER:
                E, F = h0.a("R", "Container." + k), h1.a("R", "Container." + k)
                yield "other records stay (%s)" % k, forall([RRef], lambda q: imp(q != r, F[q] == E[q]), lambda q: [F[q]])
        return Spec("over the values", inv)


# ------------------------------------------------------------------ parameters
class RecordSetter(Closure):
    """gives a record the captured value under a name"""
    name = "record setter"
    heaps = tuple(RCA)

    def pre(self, eng, h, clo, a):
        yield "the record is alive", z3.And(a[1].t != NOREC, h.live(a[1].t))

    def post(self, eng, h0, h1, clo, a, ret):
        k, r = a[0].t, a[1].t
        A, B, C, D = h0.a("R", "Container.in"), h1.a("R", "Container.in"), h0.a("R", "Container.val"), h1.a("R", "Container.val")
        yield "the record has the name", B == z3.Store(A, r, z3.Store(A[r], k, TRUE))
        yield "the record has the value", D == z3.Store(C, r, z3.Store(C[r], k, cDef(clo)))
        for o in ORDER:
            E, F = h0.a("R", "Container." + o), h1.a("R", "Container." + o)
            yield "other records stay (%s)" % o, forall([RRef], lambda q: imp(q != r, F[q] == E[q]), lambda q: [F[q]])


SETTERS = {"fn<void, std::string, VaultRecord*>": "record setter", "fn<VaultOperationResult, std::string, VaultRecordRef>": "reference setter"}


class ParamInput(VC):
    """a parameter knows the type of its value, and its two functions give that value"""
    def modifies(self, c):
        return [c.this]

    def post(self, c):
        x = c.old(c.args[0]).t
        w = c.new(c.this)
        yield "the type of the value", w.c["DataType."] == tyT
        for k in ("SetDataToRecordFunc.", "SetDataToRefFunc."):
            f = w.c[k]
            yield "the value of " + k[:-1], z3.And(cDef(f) == x, cTy(f) == tyT)


def well_made(w):
    """what the constructor of parameters gives, for each of a vector of them"""
    F, G, T, N = w.c[FREC], w.c[FREF], w.c[FTYPE], w.c["size"]
    yield "there are parameters or none", N >= 0
    yield "parameters are well made", forall([Int], lambda i: imp(z3.And(i >= 0, i < N), z3.And(ty(cDef(sel(F, i))) == sel(T, i), cDef(sel(G, i)) == cDef(sel(F, i)), cTy(sel(G, i)) == sel(T, i), cTy(sel(F, i)) == sel(T, i))),
                                              lambda i: [[sel(T, i)], [sel(F, i)], [sel(G, i)]])


# ------------------------------------------------------------------ creation
class CreateRecord(Op):
    heaps = RALL + tuple(KV) + RSET
    refarg = True

    def modifies(self, c):
        return VC.modifies(self, c) + ([c.args[0]] if self.refarg else [])

    def result(self, c):
        return CT("VaultOperationResult")

    def params(self, c):
        return c.old(c.args[-1])

    def needs(self, c):
        h = self.h0(c)
        v = self.ref(c)
        yield "called on a vault", z3.And(v != NOV, h.base(v))
        yield from well_made(self.params(c))
        if self.refarg:
            yield "the reference counts", sound(h, ptr_of(c, c.args[0]), vlt_of(c, c.args[0]))

    def facts(self, c):
        w = self.params(c)
        h = self.h0(c)
        row = h.g("V", "RecordTemplate.Container.val", self.ref(c))
        return [newcomer_law()] + apply_laws(w.c["at.first."], w.c[FREC], row, z3.IntVal(0))[:1]

    def lemmas(self, c):
        h, v = self.h0(c), self.ref(c)
        seen = lambda k, q: imp(z3.And(h.uq(v, k), h.rs(v, q)), h.rv(q, k) == h.hkv(h.hs(v, k), q))
        k, q = fresh("k", Str), fresh("q", RRef)
        yield "records are in the indexes under their values", forall([Str, RRef], seen, lambda k, q: [(h.uq(v, k), h.rv(q, k))]), (seen(k, q), (h.kt(v, k), h.hkv(h.hs(v, k), q)))

    def values(self, c, h, v, n=None):
        w = self.params(c)
        return applied(w.c["at.first."], w.c[FREC], h.g("V", "RecordTemplate.Container.val", v), w.c["size"] if n is None else n)

    def bad(self, c, h, v):
        w = self.params(c)
        k, t = w.c["at.first."], w.c[FTYPE]
        unknown = lambda i: z3.Not(h.kt(v, sel(k, i)))
        mistyped = lambda i: z3.And(h.kt(v, sel(k, i)), h.ktv(v, sel(k, i)) != sel(t, i))
        return unknown, mistyped

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        w = self.params(c)
        K, T, N = w.c["at.first."], w.c[FTYPE], w.c["size"]
        unknown, mistyped = self.bad(c, h0, v)
        good = lambda i: z3.And(z3.Not(unknown(i)), z3.Not(mistyped(i)))
        r = c.ret if isinstance(c.ret, V) else c.new(c.ret)
        first = lambda i: z3.And(i >= 0, i < N, forall([Int], lambda j: imp(z3.And(j >= 0, j < i), good(j)), lambda j: [sel(K, j)]))
        pat = lambda i: [sel(K, i)]
        fails = lambda what, *a: z3.And(r.c["IsOperationSuccess."] == FALSE, r.c["ResultCode."] == code(c.eng, what))
        yield "the first parameter with an unknown key is named", forall([Int], lambda i: imp(z3.And(first(i), unknown(i)), z3.And(fails("WrongKey"), r.c["Key."] == sel(K, i), r.c["RequestedType."] == sel(T, i))), pat)
        yield "the first parameter of another type is named", forall([Int], lambda i: imp(z3.And(first(i), mistyped(i)), z3.And(
            fails("WrongType"), r.c["Key."] == sel(K, i), r.c["RequestedType."] == sel(T, i), r.c["SavedType."] == h0.ktv(v, sel(K, i)))), pat)
        fits = forall([Int], lambda i: imp(z3.And(i >= 0, i < N), good(i)), pat)
        val = self.values(c, h0, v)
        conflict = lambda k: z3.And(h0.uq(v, k), exists([RRef], lambda q: z3.And(h0.rs(v, q), h0.rv(q, k) == val[k]), lambda q: [h0.rs(v, q)]))
        ok, co = r.c["IsOperationSuccess."], r.c["ResultCode."]
        W = lambda n: co == code(c.eng, n)
        yield "success: every parameter fits", imp(ok, z3.And(W("Success"), fits))
        yield "success: no value of a unique key repeats", forall([Str, RRef], lambda k, q: imp(z3.And(ok, h0.uq(v, k), h0.rs(v, q)), h0.rv(q, k) != val[k]), lambda k, q: [(h0.uq(v, k), h0.rv(q, k))])
        yield "a refusal has one of three reasons", imp(z3.Not(ok), z3.Or(W("WrongKey"), W("WrongType"), W("UniqueKeyValueAlredyInSet")))
        yield "refused for a parameter: there is one", imp(z3.Or(W("WrongKey"), W("WrongType")), exists([Int], lambda i: z3.And(i >= 0, i < N, z3.Not(good(i))), pat))
        yield "refused for a value: every parameter fits", imp(W("UniqueKeyValueAlredyInSet"), fits)
        yield "refused for a value: the unique key named has it already", imp(W("UniqueKeyValueAlredyInSet"), z3.And(conflict(r.c["Key."]), r.c["RequestedType."] == h0.ktv(v, r.c["Key."])))
        R0, R1 = h0.a("V", "RecordsSet.in"), h1.a("V", "RecordsSet.in")
        if self.refarg:
            new, p0 = ptr_of(c, c.args[0], True), ptr_of(c, c.args[0])
            yield "the reference refers to the record", imp(ok, vlt_of(c, c.args[0], True) == v)
            yield "without a record the reference stays", imp(z3.Not(ok), z3.And(new == p0, vlt_of(c, c.args[0], True) == vlt_of(c, c.args[0])))
        else:
            new, p0 = newcomer(R1[v], R0[v]), NOREC
        yield "a new record", imp(ok, z3.And(new != NOREC, z3.Not(h0.live(new)), h1.live(new), h1.valid(new), h1.g("R", "#home", new) == v))
        yield "the vault has it and those from before", R1 == z3.If(ok, z3.Store(R0, v, z3.Store(R0[v], new, TRUE)), R0)
        for k in ORDER:
            A, B = h0.a("V", "RecordsSet." + k), h1.a("V", "RecordsSet." + k)
            yield "the order of others stays (%s)" % k, forall([VRef], lambda x: imp(z3.Or(x != v, z3.Not(ok)), B[x] == A[x]), lambda x: [B[x]])
        yield "it has the parameters, and the default values of the other keys", forall([Str], lambda k: imp(z3.And(ok, h0.kt(v, k)), z3.And(h1.rin(new, k), h1.rv(new, k) == val[k])), lambda k: [h1.rv(new, k)])
        for q, R in (("H", HP), ("T", TP)):
            A, B, E, F = h0.a(q, "in"), h1.a(q, "in"), h0.a(q, "kv"), h1.a(q, "kv")
            hit = lambda h: z3.And(ok, own(h0, q, h), h0.g(q, "ov", h) == v)
            yield "the indexes have it, and the pairs from before (%s)" % q, forall([R, RRef], lambda h, x: B[h][x] == z3.Or(A[h][x], z3.And(hit(h), x == new)), lambda h, x: [B[h][x]])
            yield "it is there under its values (%s)" % q, forall([R, RRef], lambda h, x: imp(B[h][x], F[h][x] == z3.If(A[h][x], E[h][x], val[h0.g(q, "ok", h)])), lambda h, x: [F[h][x]])
        L = h0.a("R", "#live")
        for k in ("IsValid.", "#home", "Container.in", "Container.val", "dependentVaultRecordSets.in") + tuple("dependentVaultRecordSets." + o for o in ORDER) + tuple("Container." + o for o in ORDER):
            A, B = h0.a("R", k), h1.a("R", k)
            yield "the records from before stay (%s)" % k, forall([RRef], lambda x: imp(L[x], B[x] == A[x]), lambda x: [B[x]])
        C0, C1, L1 = h0.a("R", "RefCounter."), h1.a("R", "RefCounter."), h1.a("R", "#live")
        minus = lambda x: one(z3.And(x == p0, x != NOREC))
        yield "references are counted", forall([RRef], lambda x: imp(z3.And(ok, x != new, L[x]), C1[x] == C0[x] - minus(x)), lambda x: [C1[x]])
        yield "references to it", imp(ok, C1[new] == (1 if self.refarg else 0))
        yield "references stay", forall([RRef], lambda x: imp(z3.And(z3.Not(ok), L[x]), C1[x] == C0[x]), lambda x: [C1[x]])
        yield "a record goes with its last reference", forall([RRef], lambda x: L1[x] == z3.If(z3.And(ok, x == new), TRUE, z3.And(L[x], z3.Not(z3.And(ok, minus(x) > 0, z3.Not(h0.valid(x)), C0[x] - 1 == 0)))), lambda x: [L1[x]])

    def loop(self, eng, st, node, kind, loc):
        c = eng.cur[1]
        v = self.ref(c)
        if kind == "range" and isinstance(loc["range"], LV) and loc["range"].ct.name == "std::vector" and loc["range"].ct.args[0].name == "std::pair":
            return self.over_params(eng, st, node, loc)
        if kind == "range" and closure_kind(eng, loc) == "adder":
            return over_adders(eng, st, node, loc) if False else self.over_all(eng, st, node, loc)
        if kind == "range" and isinstance(loc["range"], LV) and loc["range"].ct.name == "std::vector":
            return self.back(eng, st, node, loc)
        if kind == "for":
            return self.over_unique(eng, st, node)

    def record(self, eng, st):
        """the record being made"""
        l = only(locals_of(eng, st, lambda ct: ct.name == "VaultRecord" and ct.ptr == 1), "new record")
        return eng.load(st, l).t

    def over_params(self, eng, st, node, loc):
        c = eng.cur[1]
        v, idx = self.ref(c), loc["index"]
        h = H(c.s0)
        w = self.params(c)
        K, F = w.c["at.first."], w.c[FREC]
        unknown, mistyped = self.bad(c, h, v)
        n = self.record(eng, st)
        flags = locals_of(eng, st, lambda ct: str(ct) == "bool")

        def inv(eng, a, b):
            h0, h1 = H(a), H(b)
            i = eng.load(b, idx).t
            for l in flags:
                yield "no parameter was refused", eng.load(b, l).t == eng.load(a, l).t
            yield "the parameters passed fit", forall([Int], lambda j: imp(z3.And(j >= 0, j < i), z3.And(z3.Not(unknown(j)), z3.Not(mistyped(j)))), lambda j: [sel(K, j)])
            A, B, C, D = h0.a("R", "Container.in"), h1.a("R", "Container.in"), h0.a("R", "Container.val"), h1.a("R", "Container.val")
            yield "the record has the keys", forall([RRef], lambda r: B[r] == A[r], lambda r: [B[r]])
            row = constant(b, "row", self.values(c, h, v, i))
            yield "the record has the parameters passed", forall([Str], lambda k: imp(h.kt(v, k), D[n][k] == row[k]), lambda k: [D[n][k]])
            yield "its values have the types of their keys", forall([Str], lambda k: imp(h.kt(v, k), ty(D[n][k]) == h.ktv(v, k)), lambda k: [D[n][k]])
            for k in ("val",) + ORDER:
                P, Q = h0.a("R", "Container." + k), h1.a("R", "Container." + k)
                yield "other records stay (%s)" % k, forall([RRef], lambda r: imp(r != n, Q[r] == P[r]), lambda r: [Q[r]])
        return Spec("over the parameters", inv, None, lambda eng, a, b: apply_laws(K, F, h.g("V", "RecordTemplate.Container.val", v), eng.load(b, idx).t))

    def over_unique(self, eng, st, node):
        c = eng.cur[1]
        v, n = self.ref(c), self.record(eng, st)
        it = only(locals_of(eng, st, lambda ct: ct.name in ("std::hash_iterator", "std::tree_iterator")), "iterator over the unique keys")
        done = only(locals_of(eng, st, lambda ct: ct.name == "std::vector" and ct.args[0].name == "std::string"), "keys done")

        def inv(eng, a, b):
            h0, h1 = H(a), H(b)
            x = eng.load(b, it)
            p = place_of(eng, x)
            w = eng.model(p.ct).read(a, p)
            IN, P, AT = w.c["in"], w.c["pos"], w.c["at"]
            y = eng.load(b, done)
            yield "the iterator is of the set", z3.Or(x.t == NOKEY, IN[x.t])
            yield "the keys passed are remembered", z3.And(y.c["size"] == P[x.t], forall([Int], lambda j: imp(z3.And(j >= 0, j < y.c["size"]), sel(y.c["at."], j) == AT[j]), lambda j: [AT[j]]))
            mine = lambda q, h: z3.And(own(h0, q, h), h0.g(q, "ov", h) == v, h0.uq(v, h0.g(q, "ok", h)), P[h0.g(q, "ok", h)] < P[x.t])
            yield from withrec(h0, h1, mine, n, lambda k: h0.rv(n, k))
            yield "their values were free", forall([Str, RRef], lambda k, r: imp(z3.And(h0.uq(v, k), P[k] < P[x.t], h0.hin(h0.hs(v, k), r)), h0.hkv(h0.hs(v, k), r) != h0.rv(n, k)), lambda k, r: [h0.hkv(h0.hs(v, k), r)])
        return Spec("over the unique keys", inv)

    def back(self, eng, st, node, loc):
        c = eng.cur[1]
        v, n, idx = self.ref(c), self.record(eng, st), loc["index"]

        def inv(eng, a, b):
            h0, h1 = H(a), H(b)
            i = eng.load(b, idx).t
            U = self.unique(eng, a, v)
            P = U.c["pos"]
            mine = lambda q, h: z3.And(own(h0, q, h), h0.g(q, "ov", h) == v, h0.uq(v, h0.g(q, "ok", h)), P[h0.g(q, "ok", h)] < i)
            yield from without(h0, h1, mine, n)
        return Spec("back over the unique keys", inv)

    def unique(self, eng, st, v):
        lv = eng.member(eng.deref(st, V(CT("VaultRecordSet").addr(), {"": v})), "UniqueKeys")
        return eng.model(lv.ct).read(st, lv)

    def over_all(self, eng, st, node, loc):
        c = eng.cur[1]
        v, n, idx = self.ref(c), self.record(eng, st), loc["index"]

        def inv(eng, a, b):
            h0, h1 = H(a), H(b)
            i = eng.load(b, idx).t
            P = eng.model(loc["range"].ct).read(a, loc["range"]).c["pos"]
            mine = lambda q, h: z3.And(own(h0, q, h), h0.g(q, "ov", h) == v, P[h0.g(q, "ok", h)] < i)
            yield from withrec(h0, h1, mine, n, lambda k: h0.rv(n, k))
        return Spec("over the keys", inv)


class CreateUnnamed(CreateRecord):
    """CreateRecord without a reference"""
    refarg = False


# ------------------------------------------------------------------ hooks
def new_thing(eng, st, e):
    ct = ctype(e)
    if ct.name != "VaultRecord":
        return new_index(eng, st, e)
    con = next((x for x in e.get("inner", ()) if x.get("kind") == "CXXConstructExpr"), None)
    if con is None:
        raise Unsupported("new %s" % ct)
    r = eng.find_ctor(st, CT("VaultRecord"), con)
    if r is None:
        raise Unsupported("new %s" % ct)
    out = []
    for s, vs in eng.evs([a for a in con.get("inner", ()) if a["kind"] != "CXXDefaultArgExpr"], st):
        n = fresh("new record", RRef)
        H(s)
        b = dict(s.heap["R"])
        s.assume(n != NOREC, z3.Not(b["#live"][n]))
        b["#live"] = z3.Store(b["#live"], n, TRUE)
        b["#home"] = z3.Store(b["#home"], n, home_of_new(eng))
        s.heap["R"] = b
        p = V(CT("VaultRecord", (), 1), {"": n})
        t2, d2 = eng.fn_by_mangled.get(r[1].get("mangledName"), r)
        k = eng.contract(eng.fkey(t2, d2), d2)
        if k is None or k.inline:
            raise Unsupported("constructor of a record")
        for s2, _ in k.apply(eng, s, eng.deref(s, p), vs, e):
            out.append((s2, p))
    return out


def home_of_new(eng):
    """ghost: a record made by a vault belongs to it"""
    con, c = eng.cur
    if not isinstance(con, VC):
        raise Unsupported("a record made by a stored function")
    return con.ref(c)


def create_engine():
    eng = keys_engine()
    u = eng.u
    u.hooks["new"] = new_thing
    s = RecordSetter()
    u.hooks["invoke " + s.name] = s.call
    old = u.hooks["closure"]

    def closure(eng, st, kind, fn, clo):
        k = SETTERS.get(kind)
        if k is None:
            return old(eng, st, kind, fn, clo)
        tie(eng, st, k, fn, clo)
        if k == "record setter":
            s.prove(eng, st, fn, clo)
    u.hooks["closure"] = closure
    for k, n in SETTERS.items():
        u.hooks["invoke " + k] = lambda eng, st, f, args, e, n=n: u.hooks["invoke " + n](eng, st, f, args, e)
    return eng


NEED.update({"record setter": ("AnyT",), "reference setter": ("AnyT",)})
CONTRACTS.update(
    RecordCopy=lambda: RecordCopy("VaultRecord::VaultRecord/1", pred=lambda n: "&&" not in n["type"]["qualType"]),
    ParamInput=lambda: ParamInput("VaultParamInput::VaultParamInput/1<AnyT>", cls="VaultParamInput"),
    CreateRecord=lambda: CreateRecord("Vault::CreateRecord/2", cls="VaultRecordSet"),
    CreateUnnamed=lambda: CreateUnnamed("Vault::CreateRecord/1", cls="VaultRecordSet"),
)


def proof(*names):
    p = prove_all(create_engine(), names)
    if "CreateRecord" in names:
        # what applied means: the last parameter of a name, or what was there
        K, F, R, i = z3.Const("names", NAMES), z3.Const("functions", FUNCS), z3.Const("row", ROW), z3.Int("i")
        k, j = z3.Const("k", Str), z3.Int("j")
        said = lambda i, j: z3.And(j >= 0, j < i, K[j] == k, applied(K, F, R, i)[k] == cDef(F[j]), forall([Int], lambda l: imp(z3.And(l > j, l < i), K[l] != k), lambda l: [K[l]]))
        unsaid = lambda i: z3.And(forall([Int], lambda l: imp(z3.And(l >= 0, l < i), K[l] != k), lambda l: [K[l]]), applied(K, F, R, i)[k] == R[k])
        laws = apply_laws(K, F, R, i)
        p.lemma("a name has the last parameter given for it or its default: none given", laws, unsaid(z3.IntVal(0)))
        p.lemma("a name has the last parameter given for it or its default: one more, not given so far", laws + [i >= 0, unsaid(i)], z3.Or(unsaid(i + 1), said(i + 1, i)))
        p.lemma("a name has the last parameter given for it or its default: one more, given before", laws + [i >= 0, said(i, j)], z3.Or(said(i + 1, j), said(i + 1, i)))
    return p
