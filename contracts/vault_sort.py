"""Contracts of sorted retrieval: the stored sorter, and the functions that call it."""
from .vault_create import *

TRACE = "visits#ghost"          # ghost: which records a visitor has been given, with which vault, and whether it asked for more


def trace(st):
    return st.cells[TRACE]


def set_trace(st, **k):
    st.cells = dict(st.cells)
    st.cells[TRACE] = dict(trace(st), **k)


def new_trace(st):
    st.cells = dict(st.cells)
    st.cells[TRACE] = dict(n=fresh("visits", Int), go=fresh("go on", Bool), at=fresh("visited", arr(Int, RRef)), vlt=fresh("vault of visit", arr(Int, VRef)))


class Line:
    """the records of an ordered index, forwards or backwards"""
    def __init__(self, h, t, rev):
        self.at, self.pos, self.n, self.IN = h.g("T", "at", t), h.g("T", "pos", t), h.g("T", "size", t), h.g("T", "in", t)
        self.rev = rev

    def el(self, i):
        return z3.If(self.rev, sel(self.at, self.n - 1 - i), sel(self.at, i))

    def place(self, r):
        return z3.If(self.rev, self.n - 1 - sel(self.pos, r), sel(self.pos, r))


def laws_of(eng, st, t):
    """laws of the ordered index t"""
    return eng.model(IDXT).read(st, LV(("heap", "T"), IDXT, "", (t,)))


def visit(eng, st, f, args, e):
    """a visitor of the user: it may keep references, and says whether it wants more"""
    r = args[0]
    p, v = eng.load(st, eng.member(r, "VaultRecordPtr")).t, eng.load(st, eng.member(r, "Vlt")).t
    h = H(st)
    g = trace(st)
    eng.oblige(st, "a visitor gets a reference to a record", z3.And(p != NOREC, h.live(p), h.valid(p), h.g("R", "RefCounter.", p) >= 1, v != NOV, h.base(v)))
    eng.oblige(st, "a visitor that has stopped the iteration is not called again", g["go"])
    go = fresh("go on", Bool)
    n = g["n"]
    set_trace(st, n=n + 1, go=go, at=z3.Store(g["at"], n, p), vlt=z3.Store(g["vlt"], n, v))
    b = dict(st.heap["R"])
    old, new = b["RefCounter."], fresh("R.RefCounter.", b["RefCounter."].sort())
    b["RefCounter."] = new
    st.heap["R"] = b
    st.assume(forall([RRef], lambda x: new[x] >= old[x], lambda x: [new[x]]))
    return [(st, bv(go))]


def kept_refs(h0, h1):
    A, B = h0.a("R", "RefCounter."), h1.a("R", "RefCounter.")
    yield "no reference is lost", forall([RRef], lambda r: B[r] >= A[r], lambda r: [B[r]])
    yield "records stay", forall([RRef], lambda r: h1.live(r) == h0.live(r), lambda r: [h1.live(r)])


def visited(g, line, v, i):
    """the first i visits were those of the line"""
    yield "visits are counted", g["n"] == i
    yield from visits_of(g, line, v)


def visits_of(g, line, v):
    yield "the records are visited in their order", forall([Int], lambda j: imp(z3.And(j >= 0, j < g["n"]), sel(g["at"], j) == line.el(j)), lambda j: [sel(g["at"], j)])
    yield "with their vault", forall([Int], lambda j: imp(z3.And(j >= 0, j < g["n"]), sel(g["vlt"], j) == v), lambda j: [sel(g["vlt"], j)])


class Sorter(Closure):
    """calls a visitor for the records of its ordered index, in order, until the visitor says no"""
    name = "sorter"
    heaps = RCNT

    def pre(self, eng, h, clo, a):
        t, v = cT(clo), a[1].t
        yield "its index is there", z3.And(t != nul(TP), h.g("T", "live", t))
        yield "its index holds records", forall([RRef], lambda r: imp(h.tin(t, r), z3.And(r != NOREC, h.live(r), h.valid(r), h.g("R", "RefCounter.", r) >= 0)), lambda r: [h.tin(t, r)])
        yield "the vault is there", z3.And(v != NOV, imp(h.isset(v), z3.And(h.par(v) != NOV, h.base(h.par(v)))), z3.Or(h.isset(v), h.base(v)))

    def prove(self, eng, st, fn, clo):
        s = st.copy()
        new_trace(s)
        set_trace(s, n=z3.IntVal(0), go=TRUE)
        eng.u.hooks["invoke predicate"], was = visit, eng.u.hooks["invoke predicate"]
        try:
            Closure.prove(self, eng, s, fn, clo)
        finally:
            eng.u.hooks["invoke predicate"] = was

    def line(self, eng, h, clo, a):
        return Line(h, cT(clo), a[2].t)

    def post(self, eng, h0, h1, clo, a, ret):
        g = trace(h1.st)
        l = self.line(eng, h0, clo, a)
        yield "no more visits than records", g["n"] <= l.n
        yield "every record is visited unless the visitor says no", imp(g["go"], g["n"] == l.n)
        yield from visits_of(g, l, resolved(h0, a[1].t))
        yield from kept_refs(h0, h1)

    def loop(self, eng, st, node, kind, loc):
        d = eng.cur[1]
        s0, clo, a = d["s0"], d["clo"], d["args"]
        l = self.line(eng, H(s0), clo, a)
        v = resolved(H(s0), a[1].t)
        if kind == "range":
            idx = loc["index"]
            place = lambda b: eng.load(b, idx).t
            at = lambda b: []
        else:
            cur = only(stepped(st, node), "iterator of the loop")
            x = lambda b: eng.load(b, cur).t
            back = "reverse" in str(cur.ct)
            start = eng.load(st, cur).t
            place = lambda b: z3.If(x(b) == NOREC, l.n, (l.n - 1 - sel(l.pos, x(b))) if back else sel(l.pos, x(b)))
            at = lambda b: [("the iterator is of the index", z3.Or(x(b) == NOREC, sel(l.IN, x(b))))]

        def inv(eng, e, b):
            g = trace(b)
            yield from at(b)
            yield from visited(g, l, v, place(b))
            yield "the visitor wants more", g["go"]
            yield from kept_refs(H(e), H(b))
        return Spec("over the records in order", inv)

    # -------------------------------------------------- calls of it, with a visitor that is known
    def call(self, eng, st, f, args, e):
        H(st)
        if not can_pat(f.t):
            f = V(f.ct, {"": constant(st, "closure", f.t)}, f.meta)
        a = [args[0]] + [eng.load(st, x) for x in args[1:]]
        cb = eng.load(st, args[0]) if not isinstance(args[0], Fn) else args[0]
        fn = cb if isinstance(cb, Fn) else cb.meta.get("fn")
        t = cT(f.t)
        for n, g in self.pre(eng, H(st), f.t, a):
            eng.oblige(st, "call of a stored sorter: %s" % n, g)
            st.assume(g)
        laws_of(eng, st, t)
        l = Line(H(st), t, a[2].t)
        idx = eng.newcell(st, iv(SIZE, 0), "index")
        con = eng.cur[0]
        spec = con.loop(eng, st, e, "sorted", dict(index=idx, line=l, vault=resolved(H(st), a[1].t)))
        if spec is None:
            raise Unattached("iteration in order in %s has no invariant" % st.env.get("fkey"))
        inv0 = spec._inv
        spec._inv = lambda e_, x, b: [("position", z3.And(e_.load(b, idx).t >= 0, e_.load(b, idx).t <= l.n))] + list(inv0(e_, x, b))
        make = eng.u.contracts[RK + "VaultRecordRef/2"]

        def step(s):
            i = eng.load(s, idx).t
            s.assume(i >= 0, i < l.n)
            r = name(s, "el", l.el(i))
            s.assume(l.IN[r] if can_pat(l.IN) else sel(l.IN, r), sel(l.pos, r) == z3.If(l.rev, l.n - 1 - i, i), r != NOREC)
            cell = eng.newcell(s, eng.havoc(CT("VaultRecordRef"), "element"), "element")
            out = []
            for s1, _ in make.apply(eng, s, cell, [V(CT("VaultRecord", (), 1), {"": r}), a[1]], e):
                rs = eng.call_lambda(s1, fn, [cell]) if fn is not None else visit(eng, s1, cb, [cell], e)
                for s2, y in rs:
                    more = eng.load(s2, y).t
                    for s3 in eng.u.hooks["temporary destroyed"](eng, s2, cell):
                        for s4, side in eng.split(s3, more):
                            if not side:
                                s4.ctl = "break"
                            out.append(s4)
            return out

        def inc(s):
            eng.store(s, idx, iv(SIZE, eng.load(s, idx).t + 1))
            return [s]
        return [(s, void()) for s in eng.cut_general(st, spec, lambda s: eng.split(s, eng.load(s, idx).t < l.n), step, inc)]


class SortedOp(Op):
    heaps = RCNT

    def key_of(self, c):
        return c.old(c.args[0]).t

    def needs(self, c):
        h = self.h0(c)
        v = self.ref(c)
        yield "kind", z3.Or(h.isset(v), h.base(v))
        if not self.checks:
            yield "the set has a vault", imp(h.isset(v), h.par(v) != NOV)

    checks = False

    def facts(self, c):
        h, v, k = self.h0(c), self.ref(c), self.key_of(c)
        laws_of(c.eng, c.s0, h.ts(v, k))
        return equal_sizes(h, v, k)

    def sequence(self, c, n, at, rev, limit, whole):
        """the n records at(i) are the first ones in order, at most the limit; whole: none was left out but for the limit"""
        h = self.h0(c)
        v, k = self.ref(c), self.key_of(c)
        size = h.g("V", "RecordsSet.size", v)
        has = h.kt(v, k)
        most = z3.If(has, z3.If(limit < size, limit, size), z3.IntVal(0))
        within = lambda i: z3.And(i >= 0, i < n)
        y = lambda r: rank(h.rv(r, k))
        yield "no more than asked for", z3.And(n >= 0, n <= most)
        yield "as many as asked for", imp(whole, n == most)
        yield "they are records of the vault", forall([Int], lambda i: imp(within(i), h.rs(v, at(i))), lambda i: [at(i)])
        yield "each of them once", forall([Int, Int], lambda i, j: imp(z3.And(within(i), within(j), at(i) == at(j)), i == j), lambda i, j: [(at(i), at(j))])
        yield "in ascending order", forall([Int, Int], lambda i, j: imp(z3.And(within(i), within(j), i < j, z3.Not(rev)), y(at(i)) <= y(at(j))), lambda i, j: [(at(i), at(j))])
        yield "or in descending order", forall([Int, Int], lambda i, j: imp(z3.And(within(i), within(j), i < j, rev), y(at(i)) >= y(at(j))), lambda i, j: [(at(i), at(j))])
        left = lambda r: forall([Int], lambda i: imp(within(i), at(i) != r), lambda i: [at(i)])
        yield "what is left out comes after", forall([RRef, Int], lambda r, i: imp(z3.And(has, h.rs(v, r), left(r), within(i)), z3.If(rev, y(r) <= y(at(i)), y(at(i)) <= y(r))), lambda r, i: [(h.rs(v, r), at(i))])


class GetSortedRecords(SortedOp):
    def result(self, c):
        return CT("std::vector", (CT("VaultRecordRef"),))

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        w = c.ret if isinstance(c.ret, V) else c.new(c.ret)
        at, vl = name(c.s1, "at", w.c["at.VaultRecordPtr."]), name(c.s1, "at", w.c["at.Vlt."])
        C = name(c.s1, "cnt", w.c["cnt"])
        n = w.c["size"]
        yield from self.sequence(c, n, lambda i: at[i], c.old(c.args[1]).t, c.old(c.args[2]).t, TRUE)
        yield "the references know the vault", forall([Int], lambda i: imp(z3.And(i >= 0, i < n), vl[i] == resolved(h0, v)), lambda i: [vl[i]])
        yield from counted(h0, h1, lambda r: C[r], lambda r: z3.IntVal(0))
        yield "the references count", refs_sound(h1, w)

    def loop(self, eng, st, node, kind, loc):
        if kind != "sorted":
            return None
        c = eng.cur[1]
        l, v, idx = loc["line"], loc["vault"], loc["index"]
        res = only(locals_of(eng, st, lambda ct: ct.name == "std::vector"), "list of references")
        counter = loop_counter(eng, st)
        amount = c.old(c.args[2]).t

        def inv(eng, a, b):
            i = eng.load(b, idx).t
            w = eng.load(b, res)
            at, vl, C = name(b, "at", w.c["at.VaultRecordPtr."]), name(b, "at", w.c["at.Vlt."]), name(b, "cnt", w.c["cnt"])
            yield "what was passed was counted", z3.And(eng.load(b, counter).t == i, w.c["size"] == i, i <= amount)
            yield "it is handed out in order", forall([Int], lambda j: imp(z3.And(j >= 0, j < i), at[j] == l.el(j)), lambda j: [at[j]])
            yield "with its vault", forall([Int], lambda j: imp(z3.And(j >= 0, j < i), vl[j] == v), lambda j: [vl[j]])
            yield "references to it", forall([RRef], lambda r: C[r] == one(z3.And(sel(l.IN, r), l.place(r) < i)), lambda r: [C[r]])
            yield from counted(H(a), H(b), lambda r: C[r], lambda r: z3.IntVal(0))
        return Spec("over the records in order", inv)


class SortBy(SortedOp):
    def setup(self, eng, st, info):
        new_trace(st)
        set_trace(st, n=z3.IntVal(0), go=TRUE)
        return SortedOp.setup(self, eng, st, info)

    def needs(self, c):
        yield from SortedOp.needs(self, c)
        g = trace(c.s0)
        yield "no visits so far", z3.And(g["n"] == 0, g["go"])

    def apply(self, eng, st, this, args, e):
        f = eng.load(st, args[1])
        if f.meta.get("fn") is not None or TRACE not in st.cells:
            raise Unsupported("SortBy with a visitor of its own")
        return SortedOp.apply(self, eng, st, this, args, e)

    def result(self, c):
        new_trace(c.s1)             # at a call: the visits are those of the postcondition
        return CT("void")

    def does(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        v = self.ref(c)
        g = trace(c.s1)
        at, vl = name(c.s1, "visited", g["at"]), name(c.s1, "vault", g["vlt"])
        yield from self.sequence(c, g["n"], lambda i: at[i], c.old(c.args[2]).t, c.old(c.args[3]).t, g["go"])
        yield "the visitor gets references to the vault", forall([Int], lambda i: imp(z3.And(i >= 0, i < g["n"]), vl[i] == resolved(h0, v)), lambda i: [vl[i]])
        yield from kept_refs(h0, h1)

    def loop(self, eng, st, node, kind, loc):
        if kind != "sorted":
            return None
        c = eng.cur[1]
        l, v, idx = loc["line"], loc["vault"], loc["index"]
        counter = loop_counter(eng, st)
        amount = c.old(c.args[3]).t

        def inv(eng, a, b):
            g = trace(b)
            i = eng.load(b, idx).t
            yield "what was passed was counted", z3.And(eng.load(b, counter).t == i, i <= amount)
            yield from visited(g, l, v, i)
            yield "the visitor wants more", g["go"]
            yield from kept_refs(H(a), H(b))
        return Spec("over the records in order", inv)


class OfSet:
    """the same for a record set: without a vault it does nothing"""
    checks = True

    def needs(self, c):
        yield from super().needs(c)
        yield "called on a set", self.h0(c).isset(self.ref(c))


class SetSorted(OfSet, GetSortedRecords):
    pass


class SetSortBy(OfSet, SortBy):
    pass


def sort_engine():
    eng = create_engine()
    u = eng.u
    s = Sorter()
    u.hooks["invoke sorter"] = s.call
    old, oldp = u.hooks["closure"], u.hooks["invoke predicate"]

    def closure(eng, st, kind, fn, clo):
        if kind == "sorter":
            tie(eng, st, kind, fn, clo)
            return s.prove(eng, st, fn, clo)
        if kind == "predicate" and isinstance(eng.cur[0], SortedOp):
            return
        return old(eng, st, kind, fn, clo)
    u.hooks["closure"] = closure
    u.hooks["invoke predicate"] = lambda eng, st, f, args, e: (visit if TRACE in st.cells else oldp)(eng, st, f, args, e)
    return eng


CONTRACTS.update(
    GetSortedRecords=lambda: GetSortedRecords("Vault::GetSortedRecords/3", cls="VaultRecordSet"),
    SortBy=lambda: SortBy("Vault::SortBy/4", cls="VaultRecordSet"),
    SetSorted=lambda: SetSorted("VaultRecordSet::GetSortedRecords/3", cls="VaultRecordSet"),
    SetSortBy=lambda: SetSortBy("VaultRecordSet::SortBy/4<std::function<fn<bool, VaultRecordRef>>>", cls="VaultRecordSet"),
)


def proof(*names):
    p = prove_all(sort_engine(), names)
    p.assumptions.add("visitors of sorted retrieval may keep references and leave the vault alone")
    return p
