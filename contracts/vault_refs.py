"""Contracts of references to records: counting, validity, and what the vault hands out."""
from .vault_ops import *

RCNT = (("R", "RefCounter."), ("R", "#live"))


def one(f):
    return z3.If(f, z3.IntVal(1), z3.IntVal(0))


def ptr_of(c, lv, new=False):
    l = c.eng.member(lv, "VaultRecordPtr")
    return (c.new(l) if new else c.old(l)).t


def vlt_of(c, lv, new=False):
    l = c.eng.member(lv, "Vlt")
    return (c.new(l) if new else c.old(l)).t


def sound(h, p, v):
    """a reference counts: its record is there as long as it refers to it"""
    return imp(p != NOREC, z3.And(h.live(p), h.g("R", "RefCounter.", p) >= 1, v != NOV, h.base(v)))


def current(h, p, v):
    """a reference of a valid record knows its vault"""
    return imp(z3.And(p != NOREC, h.valid(p)), h.g("R", "#home", p) == v)


def counted(h0, h1, plus, minus):
    """the counts after plus(r) new references and minus(r) ones that went; records no vault has go with their last reference"""
    A, B, L0, L1 = h0.a("R", "RefCounter."), h1.a("R", "RefCounter."), h0.a("R", "#live"), h1.a("R", "#live")
    yield "references are counted", forall([RRef], lambda r: B[r] == A[r] + plus(r) - minus(r), lambda r: [B[r]])
    yield "a record out of its vault goes with its last reference, no other", forall([RRef], lambda r: L1[r] == z3.And(L0[r], z3.Not(z3.And(minus(r) > 0, z3.Not(h0.valid(r)), B[r] == 0))), lambda r: [L1[r]])


class AddRef(VC):
    heaps = (("R", "RefCounter."),)

    def pre(self, c):
        h = self.h0(c)
        r = self.ref(c)
        yield "the record is alive", z3.And(r != NOREC, h.live(r))
        if getattr(self, "proving", False):
            yield "references fit the counter", h.g("R", "RefCounter.", r) < MAXLEN

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        r = self.ref(c)
        yield "one more reference", h1.a("R", "RefCounter.") == z3.Store(h0.a("R", "RefCounter."), r, h0.g("R", "RefCounter.", r) + 1)


class RemoveRef(VC):
    heaps = RCNT

    def pre(self, c):
        h = self.h0(c)
        r = self.ref(c)
        yield "the record is alive", z3.And(r != NOREC, h.live(r))
        yield "there is a reference", h.g("R", "RefCounter.", r) >= 1

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        r = self.ref(c)
        yield from counted(h0, h1, lambda x: z3.IntVal(0), lambda x: one(x == r))


class Ref(VC):
    """a function of a reference; ops: which of its references it lets go and takes"""
    heaps = RCNT

    def __init__(self, key, op, **k):
        VC.__init__(self, key, cls="VaultRecordRef", **k)
        self.op = op
        if op in ("valid", "equal", "unequal"):
            self.heaps = ()

    def modifies(self, c):
        l = VC.modifies(self, c)
        if self.op in ("copy", "move", "set", "assign", "moveassign", "reset", "make", "ctor"):
            l = l + [self.lv(c)]
        if self.op in ("move", "moveassign"):
            l = l + [c.args[0]]
        return l

    def lv(self, c):
        t = c.this
        return t if isinstance(t, LV) else (t.meta.get("lv") or c.eng.deref(c.s0, t))

    def constructs(self):
        return self.op in ("copy", "move", "ctor", "make")

    def setup(self, eng, st, info):
        this, args = VC.setup(self, eng, st, info)
        st.notes["temporaries"] = ()
        return this, args

    def target(self, c):
        """(record, vault) that the reference gets"""
        h = self.h0(c)
        if self.op in ("copy", "move", "assign", "moveassign"):
            p = ptr_of(c, c.args[0])
            v = vlt_of(c, c.args[0])
            return p, z3.If(p == NOREC, NOV, v)
        if self.op in ("set", "make"):
            v = c.old(c.args[1]).t
            return c.old(c.args[0]).t, z3.If(h.isset(v), h.par(v), v)
        return NOREC, NOV

    def pre(self, c):
        h = self.h0(c)
        lv = self.lv(c)
        if not self.constructs():
            yield "the reference counts", sound(h, ptr_of(c, lv), vlt_of(c, lv))
        if self.op in ("copy", "move", "assign", "moveassign", "equal", "unequal"):
            a = c.args[0]
            yield "the other reference counts", sound(h, ptr_of(c, a), vlt_of(c, a))
        if self.op in ("assign", "moveassign"):
            p, q = ptr_of(c, lv), ptr_of(c, a)
            if not lv.same(a):
                yield "both count", imp(z3.And(p == q, p != NOREC), h.g("R", "RefCounter.", p) >= 2)
        if self.op in ("set", "make"):
            r, v = c.old(c.args[0]).t, c.old(c.args[1]).t
            yield "the record is alive", imp(r != NOREC, h.live(r))
            yield "the vault is there", z3.And(v != NOV, imp(h.isset(v), z3.And(h.par(v) != NOV, h.base(h.par(v)))), z3.Or(h.isset(v), h.base(v)))

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        lv = self.lv(c)
        if self.op == "valid":
            p = ptr_of(c, lv)
            yield "valid when its record is in its vault", c.ret.t == z3.And(p != NOREC, h0.valid(p))
            return
        if self.op in ("equal", "unequal"):
            p, q = ptr_of(c, lv), ptr_of(c, c.args[0])
            vp, vq = z3.And(p != NOREC, h0.valid(p)), z3.And(q != NOREC, h0.valid(q))
            eq = z3.Or(z3.And(vp, vq, p == q), z3.And(z3.Not(vp), z3.Not(vq)))
            yield "equal when both refer to one record or to none", c.ret.t == (eq if self.op == "equal" else z3.Not(eq))
            return
        p = NOREC if self.constructs() else ptr_of(c, lv)
        r, v = self.target(c)
        moved = self.op in ("move", "moveassign")
        if self.op != "destroy":
            yield "the reference refers to the record", ptr_of(c, lv, True) == r
            yield "the reference knows the vault", vlt_of(c, lv, True) == v
        else:
            yield "the reference is gone", z3.BoolVal(True)
        if moved and not lv.same(c.args[0]):
            yield "the other reference is empty", imp(ptr_of(c, c.args[0]) != NOREC, z3.And(ptr_of(c, c.args[0], True) == NOREC, vlt_of(c, c.args[0], True) == NOV))
            yield "the other reference stays without a record", imp(ptr_of(c, c.args[0]) == NOREC, ptr_of(c, c.args[0], True) == NOREC)
        yield from counted(h0, h1, lambda x: z3.IntVal(0) if moved else one(z3.And(x == r, r != NOREC)), lambda x: one(z3.And(x == p, p != NOREC)))

    def result(self, c):
        if self.op in ("valid", "equal", "unequal"):
            return BOOL
        if self.op in ("assign", "moveassign"):
            return self.lv(c)
        return CT("void")


class RefSelf(Ref):
    """assignment of a reference to itself"""
    def setup(self, eng, st, info):
        this, args = Ref.setup(self, eng, st, info)
        return this, [this if isinstance(this, LV) else this.meta["lv"]]

    def target(self, c):
        return ptr_of(c, self.lv(c)), vlt_of(c, self.lv(c))

    def post(self, c):
        h0, h1 = self.h0(c), self.h1(c)
        lv = self.lv(c)
        yield "the reference stays", z3.And(ptr_of(c, lv, True) == ptr_of(c, lv), vlt_of(c, lv, True) == vlt_of(c, lv))
        yield "references are counted", z3.And(*[h1.a(*k) == h0.a(*k) for k in RCNT])


def param0(s):
    return lambda n: s in n["type"]["qualType"]


copyp = lambda n: "const VaultRecordRef &" in n["type"]["qualType"] or "const mvlt::VaultRecordRef &" in n["type"]["qualType"]
movep = lambda n: "&&" in n["type"]["qualType"]
RK = "VaultRecordRef::"
CONTRACTS.update(
    AddRef=lambda: AddRef("VaultRecord::AddRef/0"),
    RemoveRef=lambda: RemoveRef("VaultRecord::RemoveRef/0"),
    RefSet=lambda: Ref(RK + "SetRecord/2", "set"),
    RefMake=lambda: Ref(RK + "VaultRecordRef/2", "make"),
    RefEmpty=lambda: Ref(RK + "VaultRecordRef/0", "ctor"),
    RefCopy=lambda: Ref(RK + "VaultRecordRef/1", "copy", pred=copyp, label=RK + "VaultRecordRef(const&)"),
    RefMove=lambda: Ref(RK + "VaultRecordRef/1", "move", pred=movep, label=RK + "VaultRecordRef(&&)"),
    RefAssign=lambda: Ref(RK + "operator=/1", "assign", pred=copyp, label=RK + "operator=(const&)"),
    RefMoveAssign=lambda: Ref(RK + "operator=/1", "moveassign", pred=movep, label=RK + "operator=(&&)"),
    RefSelf=lambda: RefSelf(RK + "operator=/1", "assign", pred=copyp, label=RK + "operator=(const&), self"),
    RefMoveSelf=lambda: RefSelf(RK + "operator=/1", "moveassign", pred=movep, label=RK + "operator=(&&), self"),
    RefReset=lambda: Ref(RK + "Reset/0", "reset"),
    RefDestroy=lambda: Ref(RK + "~VaultRecordRef/0", "destroy"),
    RefValid=lambda: Ref(RK + "IsValid/0", "valid"),
    RefEqual=lambda: Ref(RK + "operator==/1", "equal"),
    RefUnequal=lambda: Ref(RK + "operator!=/1", "unequal"),
)
AT_CALLS = [n for n in ("RefSet", "RefMake", "RefEmpty", "RefCopy", "RefMove", "RefAssign", "RefMoveAssign", "RefReset", "RefDestroy", "RefValid", "RefEqual", "RefUnequal")]


def refs_engine(cons):
    eng = ops_engine()
    u = eng.u
    u.destroyed.add("VaultRecordRef")
    u.hooks["move"] = lambda eng, st, args, e: [(st, args[0])]

    def destroyed(eng, st, lv):
        return [s for s, _ in eng.u.contracts[RK + "~VaultRecordRef/0"].apply(eng, st, lv, [], None)]
    u.hooks["temporary destroyed"] = destroyed

    def scope_end(eng, x, outs):
        ids = []
        for d in x.get("inner", ()):
            if d.get("kind") == "DeclStmt":
                for v in d["inner"]:
                    if v["kind"] == "VarDecl" and "&" not in v["type"]["qualType"]:
                        ct = ctype(v)
                        if ct.ptr == 0 and ct.name == "VaultRecordRef":
                            ids.append(v["id"])
        for i in reversed(ids):
            nxt = []
            for s in outs:
                l = s.env.get(i)
                if isinstance(l, LV):
                    ret = s.ret
                    s.ret = None
                    for q in destroyed(eng, s, l):
                        q.ret = ret
                        nxt.append(q)
                else:
                    nxt.append(s)
            outs = nxt
        return outs
    u.hooks["scope_end"] = scope_end

    def dropped(eng, st, w):
        """the references of a vector go"""
        H(st)
        h0 = H(st.copy())
        C = w.c["cnt"]
        eng.oblige(st, "the references that go count", forall([RRef], lambda r: imp(C[r] > 0, z3.And(r != NOREC, h0.live(r), h0.g("R", "RefCounter.", r) >= C[r])), lambda r: [C[r]]))
        havoc_locs(eng, st, [("heap",) + k for k in RCNT])
        for n, f in counted(h0, H(st), lambda r: z3.IntVal(0), lambda r: C[r]):
            st.assume(f)
    u.hooks["references dropped"] = dropped

    def stored(eng, st, args, node):
        """a reference goes into a vector: copied or moved there"""
        if len(args) != 1:
            raise Unsupported("reference made in place")
        cell = eng.newcell(st, eng.havoc(CT("VaultRecordRef"), "element"), "element")
        op = "move" if moves(node, args[0]) else "copy"
        con = next(k for k in eng.u.contracts[RK + "VaultRecordRef/1"] if k.op == op)
        return [(s, eng.load(s, cell)) for s, _ in con.apply(eng, st, cell, list(args), node)]
    u.hooks["reference stored"] = stored
    return eng


def register(eng, cons):
    for n, c in cons.items():
        k = eng.u.contracts.get(c.key)
        if c.pred is not None and c.key.startswith(RK):
            if k is None:
                eng.u.contracts[c.key] = [c]
            elif not any(type(x) is type(c) and x.op == c.op for x in k) and not isinstance(c, RefSelf):
                k.append(c)
        elif k is None:
            eng.u.contracts[c.key] = c


def proof(*names):
    eng = refs_engine(None)
    cons = {n: f() for n, f in CONTRACTS.items()}
    register(eng, cons)
    p = Proof()
    for n in names:
        con = cons[n]
        p.run(eng, con.label, lambda: prove_fn(eng, con))
    p.assumptions |= {"key types are parametric: verified for one type with a strict total order and consistent equality and hash",
                      "holders and map wrappers by their contracts (contracts/saver.py, container.py, maps.py)", "locks by contracts/locks.py; one thread"}
    p.assumptions.add("fewer than 2^62 references to one record")
    p.trusted |= {"models of std::unordered_set, std::unordered_map, std::set, std::list, std::vector, std::function, std::type_index"}
    return p.close(eng)
