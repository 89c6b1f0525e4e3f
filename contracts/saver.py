"""P14: type-erased values. The heap "obj" holds the objects made by new: whether they live, their type and their value; function pointers
are opaque and carry the type they work for; what a function pointer does is a contract on its signature, proved for the lambda behind it."""
from .common import *
from .json import type_model, typeid

PRef, FnP = Sort("Object"), Sort("Function")
TYPES = ["int", "std::string"]
USER = "fnptr<void>"
SRC = '''
#include "DataSaver.cpp"
namespace mvlt {
typedef void (*Custom)(const void*);
inline void instances(int& i, std::string& s, Custom c)
{
    DataSaver d; const int ci = 0; const std::string cs;
    d.SetData(i); d.SetData(s); d.SetData(i, c); d.SetData(s, c); d.GetData(i); d.GetData(s);
    DataSaver a(i), b(s), e(i, c), f(s, c);
}
}
'''
works = {k: z3.Function("%s of" % k, FnP, Ty, Bool) for k in ("copy", "delete", "text", "parse")}
text = z3.Function("text of", Ty, Int, ISeq, ISeq)
SIG = {"void (*)(void *&, void *)": "copy", "void (*)(void *&)": "delete", "std::string (*)(void *)": "text",
       "bool (*)(void *, const std::string &)": "parse", "void (*)(const void *)": "custom"}


def sig_of(q):
    q = q.replace("std::basic_string<char>", "std::string").replace("std::__cxx11::", "std::")
    if q not in SIG:
        raise Unsupported("function pointer of type " + q)
    return SIG[q]


def heap(st):
    return st.heap["obj"]


def vals(b):
    return {k: v for k, v in b.items() if k.startswith("value")}


def comp(ct):
    return "value " + str(ct) + "."


def new_object(eng, st, ty):
    """a fresh live object"""
    b = st.heap["obj"] = dict(st.heap["obj"])
    p = fresh("new", PRef)
    st.assume(p != nul(PRef), z3.Not(b["live"][p]))
    b["live"] = upd(b["live"], [p], z3.BoolVal(True))
    b["type"] = upd(b["type"], [p], ty)
    return p


def delete_object(eng, st, p, ty, what):
    b = st.heap["obj"] = dict(st.heap["obj"])
    eng.oblige(st, what + ": the object lives", b["live"][p])
    eng.oblige(st, what + ": the object has the type", b["type"][p] == ty)
    st.assume(b["live"][p], b["type"][p] == ty)
    b["live"] = upd(b["live"], [p], z3.BoolVal(False))


def h_new(eng, st, e):
    ct = cast.ctype(e).deref()
    inner = [x for x in e.get("inner", ())]
    out = []
    if len(inner) != 1:
        raise Unsupported("new")
    for s, v in eng.rv(inner[0], st):
        p = new_object(eng, s, typeid(eng.u, ct))
        b = heap(s)
        b[comp(ct)] = upd(b[comp(ct)], [p], v.t)
        out.append((s, V(ct.addr(), {"": p})))
    return out


def h_delete(eng, st, v, e):
    if str(v.ct.deref()) not in TYPES:
        raise Unsupported("delete of %s" % v.ct)
    for s, side in eng.split(st.copy(), v.t == nul(PRef)):
        if side:
            yield s, void()
        else:
            delete_object(eng, s, v.t, typeid(eng.u, v.ct.deref()), "delete")
            yield s, void()


def h_deref(eng, st, p):
    if str(p.ct.deref()) in TYPES:
        b = heap(st)
        ty = typeid(eng.u, p.ct.deref())
        eng.oblige(st, "the object read lives and has the type", z3.And(b["live"][p.t], b["type"][p.t] == ty))
        st.assume(b["live"][p.t], b["type"][p.t] == ty)
        return LV(("heap", "obj"), p.ct.deref(), comp(p.ct.deref()), (p.t,))


def kind_of_call(e):
    c = e["inner"][0]
    t = c["type"]
    return sig_of(t.get("desugaredQualType") or t["qualType"])


class PtrCall:
    """the contract of a function pointer by its signature"""
    @staticmethod
    def pre(c, kind, st, f, a):
        ty = c
        b = heap(st)
        if kind == "copy":
            return z3.And(b["live"][a[1]], b["type"][a[1]] == ty)
        if kind in ("delete", "text", "parse"):
            return z3.And(b["live"][a[0]], b["type"][a[0]] == ty)


def h_callptr(eng, st, f, args, e):
    kind = kind_of_call(e)
    eng.oblige(st, "the function pointer is not null", f.t != nul(FnP))
    st.assume(f.t != nul(FnP))
    vs = [eng.load(st, x) for x in args]
    if kind == "custom":
        n = eng.load(st, CALLS).t
        eng.store(st, CALLS, V(CT("int"), {"": n + 1}))
        eng.store(st, LASTF, V(LASTF.ct, {"": f.t}))
        eng.store(st, LASTP, V(LASTP.ct, {"": vs[0].t}))
        return [(st, void())]
    p = vs[1].t if kind == "copy" else vs[0].t
    b = heap(st)
    ty = b["type"][p]
    eng.oblige(st, "%s: called with a live object of its type" % kind, z3.And(b["live"][p], works[kind](f.t, ty)))
    st.assume(b["live"][p], works[kind](f.t, ty))
    if kind == "copy":
        q = new_object(eng, st, ty)
        b = heap(st)
        for k in vals(b):
            b[k] = upd(b[k], [q], b[k][p])
        eng.store(st, args[0], V(vs[0].ct, {"": q}))
        return [(st, void())]
    if kind == "delete":
        b = st.heap["obj"] = dict(b)
        b["live"] = upd(b["live"], [p], z3.BoolVal(False))
        return [(st, void())]
    if kind == "text":
        return [(st, V(CT("std::string"), {"": text(ty, b[comp("int")][p], b[comp("std::string")][p])}))]
    b = st.heap["obj"] = dict(b)
    for k in vals(b):
        b[k] = upd(b[k], [p], fresh("parsed", b[k].sort().range()))
    return [(st, V(BOOL, {"": fresh("parsed", Bool)}))]


class LambdaC(FnContract):
    """the lambda behind a function pointer of kind `kind` for type ty"""
    def __init__(self, kind, tn, label):
        FnContract.__init__(self, label)
        self.kind, self.tn = kind, tn

    def modifies(self, c):
        return None

    def obj(self, c, st):
        a = c.args
        v = a[1] if self.kind == "copy" else a[0]
        return c.eng.load(st, v).t

    def pre(self, c):
        b, p = heap(c.s0), self.obj(c, c.s0)
        yield "a live object of the type", z3.And(p != nul(PRef), b["live"][p], b["type"][p] == typeid(c.eng.u, CT(self.tn)))

    def post(self, c):
        a, b, p = heap(c.s0), heap(c.s1), self.obj(c, c.s0)
        ty = typeid(c.eng.u, CT(self.tn))
        k = self.kind
        if k == "copy":
            q = c.new(c.args[0]).t
            yield "a new object with the type", z3.And(q != nul(PRef), z3.Not(a["live"][q]), b["live"] == z3.Store(a["live"], q, True), b["type"] == z3.Store(a["type"], q, ty))
            for x in vals(a):
                yield "other values stay", b[x] == z3.Store(a[x], q, b[x][q])
            yield "the value is copied", b[comp(self.tn)][q] == a[comp(self.tn)][p]
        elif k == "delete":
            yield "the object is destroyed", z3.And(b["live"] == z3.Store(a["live"], p, False), b["type"] == a["type"])
            for x in vals(a):
                yield "values stay", b[x] == a[x]
        elif k == "text":
            yield "nothing changes", z3.And(b["live"] == a["live"], b["type"] == a["type"], *[b[x] == a[x] for x in vals(a)])
            t = c.s1.notes.get("text")
            yield "the text of the value", z3.BoolVal(False) if t is None else z3.And(c.ret.t == t[0], t[1] == a[comp(self.tn)][p])
        else:
            yield "only the value changes", z3.And(b["live"] == a["live"], b["type"] == a["type"], *[b[x] == z3.Store(a[x], p, b[x][p]) for x in vals(a)])
            t = c.s1.notes.get("parsed")
            yield "the text is parsed into the value", z3.BoolVal(False) if t is None else z3.And(
                t[0] == c.old(c.args[1]).t, t[1] == a[comp(self.tn)][p], b[comp(self.tn)][p] == t[2], c.ret.t == t[3])


class ToS(FnContract):
    def result(self, c):
        return CT("std::string")

    def apply(self, eng, st, this, args, e):
        x = eng.load(st, args[0]).t
        out = FnContract.apply(self, eng, st, this, args, e)
        for s, r in out:
            s.notes["text"] = (r.t, x)
        return out


class FromS(FnContract):
    def result(self, c):
        return BOOL

    def modifies(self, c):
        return [c.args[1]]

    def apply(self, eng, st, this, args, e):
        t, x = eng.load(st, args[0]).t, eng.load(st, args[1]).t
        out = FnContract.apply(self, eng, st, this, args, e)
        for s, r in out:
            s.notes["parsed"] = (t, x, eng.load(s, args[1]).t, r.t)
        return out


def h_fnptr(eng, st, lam, e):
    kind = sig_of(cast_of(e))
    tn = current_type(st.env.get("fkey", ""))
    f = z3.Const("%s<%s>" % (kind, tn), FnP)
    if not eng.muted:
        # obligations of the lambda
        con = LambdaC(kind, tn, "%s: the function stored for %s" % (eng.current, kind))
        was = eng.current
        verify_lambda(eng, con, lam)
        eng.current = was
    st.assume(f != nul(FnP), works[kind](f, typeid(eng.u, CT(tn))))
    return [(st, V(CT("fnptr"), {"": f}))]


def cast_of(e):
    return e["type"].get("desugaredQualType") or e["type"]["qualType"]


def current_type(key):
    if "<" not in key:
        raise Unsupported("function pointer made in " + key)
    a = key[key.index("<") + 1:]
    for t in TYPES:
        if a.startswith(t + ",") or a.startswith(t + ">"):
            return t
    raise Unsupported("type of " + key)


def verify_lambda(eng, con, lam):
    st = State()
    init(eng, st)
    eng.current = con.label
    st.env = {"tu": lam.tu, "fkey": con.key}
    op = lam.node["op"]
    args = [con.param(eng, st, p) for p in func_params(op)]
    c = Ctx(eng, None, None, args)
    c.s0 = st
    for nm, f in named(con.pre(c), "pre"):
        st.assume(f)
    c.s0 = st.copy()
    eng.cover(st, "precondition can hold")
    n = 0
    for s, r in eng.call_lambda(st, lam, args):
        n += 1
        c.s1, c.ret = s, eng.load(s, r)
        for nm, f in named(con.post(c), "post"):
            eng.oblige(s, "postcondition: " + nm, f)
    if not n:
        eng.oblige(State(), "some path reaches the end", z3.BoolVal(False))


CALLS = LV(("cell", "ghost calls"), CT("int"))
LASTF = LV(("cell", "ghost function"), CT("fnptr"))
LASTP = LV(("cell", "ghost object"), CT("void", (), 1))


def init(eng, st):
    b = {"live": fresh("live", arr(PRef, Bool)), "type": fresh("type", arr(PRef, Ty))}
    for t in TYPES:
        b[comp(t)] = fresh("value_" + t, arr(PRef, eng.comps(CT(t))[""]))
    st.heap["obj"] = b
    st.assume(z3.Not(b["live"][nul(PRef)]))
    for l in (CALLS, LASTF, LASTP):
        st.cells[l.store[1]] = dict(eng.havoc(l.ct, l.store[1]).c)


class H:
    """a holder in a state"""
    def __init__(self, c, st, lv):
        g = lambda f: c.eng.load(st, c.eng.member(lv, f)).t
        self.p, self.ty, self.copy, self.delete, self.text, self.custom, self.parse = [g(f) for f in
            ("Ptr", "DataType", "CopyFunc", "DeleteFunc", "ToStringFunc", "CustomDeleteFunc", "SetDataFromStringFunc")]
        self.b, self.u = heap(st), c.eng.u

    def full(self):
        return self.p != nul(PRef)

    def inv(self):
        b = self.b
        return z3.And(
            imp(self.full(), z3.And(b["live"][self.p], b["type"][self.p] == self.ty, self.copy != nul(FnP), self.delete != nul(FnP), self.text != nul(FnP), self.parse != nul(FnP),
                                    *[works[k](getattr(self, k), self.ty) for k in works])),
            imp(z3.Not(self.full()), z3.And(self.ty == typeid(self.u, CT("void")), self.custom == nul(FnP))))

    def value(self, k):
        return self.b[k][self.p]

    def same_value(self, o):
        """the same value of the same type"""
        return z3.And(self.full() == o.full(), self.ty == o.ty, self.custom == o.custom,
                      imp(o.full(), z3.And(*[self.value(k) == o.value(k) for k in vals(self.b)])))

    def same(self, o):
        """untouched: the same object with the same value"""
        return z3.And(self.p == o.p, self.ty == o.ty, self.custom == o.custom, *[getattr(self, k) == getattr(o, k) for k in works],
                      imp(o.full(), z3.And(self.b["live"][o.p], *[self.value(k) == o.value(k) for k in vals(self.b)])))


def owned(x):
    """(condition, object) a holder owns"""
    return [(x.full(), x.p)]


def live_is(b1, b0, gone, come):
    """the live objects: those before without the ones gone, with the ones come"""
    t = b0["live"]
    for c, p in gone:
        t = z3.If(c, z3.Store(t, p, False), t)
    for c, p in come:
        t = z3.If(c, z3.Store(t, p, True), t)
    return b1["live"] == t


def others_stay(b1, b0, changed):
    out = [imp(z3.BoolVal(True), b1["type"] == stored(b0["type"], b1["type"], changed))]
    for k in vals(b0):
        out.append(b1[k] == stored(b0[k], b1[k], changed))
    return z3.And(*out)


def stored(a, b, changed):
    for c, p in changed:
        a = z3.If(c, z3.Store(a, p, b[p]), a)
    return a


class D(FnContract):
    """methods of DataSaver"""
    def __init__(self, key, what, tn=None, alias=False, **k):
        FnContract.__init__(self, key, **k)
        self.what, self.tn, self.alias = what, tn, alias

    def setup(self, eng, st, info):
        this, args = FnContract.setup(self, eng, st, info)
        if self.alias:
            args = [this] + args[1:]
        return this, args

    def modifies(self, c):
        w = self.what
        if w in ("GetData",):
            return [c.args[0], ("heap", "obj", "*")]
        out = [c.this, ("heap", "obj", "*")]
        if w == "Swap":
            out.append(c.args[0])
        if w == "Reset":
            out += [CALLS, LASTF, LASTP]
        if w in ("Str", "Type"):
            return []
        return out

    def result(self, c):
        w = self.what
        if w in ("GetData", "Parse"):
            return BOOL
        if w == "Str":
            return CT("std::string")
        if w == "Type":
            return CT("std::type_index")
        if w == "Assign":
            return c.this
        return VOID

    def distinct(self, c):
        return isinstance(c.args[0], LV) and not c.args[0].same(c.this)

    def pre(self, c):
        w = self.what
        if not w.startswith("Make"):
            yield "invariant of the holder", H(c, c.s0, c.this).inv()
        if w in ("Assign", "Swap", "MakeCopy"):
            o = H(c, c.s0, c.args[0])
            if self.distinct(c):
                yield "invariant of the other", o.inv()
                if w != "MakeCopy":
                    h = H(c, c.s0, c.this)
                    yield "holders own different objects", imp(h.full(), h.p != o.p)
        if w in ("Parse", "Str"):
            yield "the holder is not empty", H(c, c.s0, c.this).full()

    def post(self, c):
        w = self.what
        a = heap(c.s0)
        b = heap(c.s1)
        h0 = H(c, c.s0, c.this)
        h1 = H(c, c.s1, c.this)
        NO = []
        if w != "Destroy":
            yield "invariant of the holder", h1.inv()
        mine = [] if w.startswith("Make") else owned(h0)
        fresh_ = imp(h1.full(), z3.Not(z3.Select(a["live"], h1.p))) if w in ("Set", "MakeSet", "Assign", "MakeCopy") else None
        if w in ("Set", "MakeSet"):
            x = c.old(c.args[0]).t
            f = c.old(c.args[1]) if len(c.args) > 1 else None
            yield "the holder has the value", z3.And(h1.full(), h1.ty == typeid(c.eng.u, CT(self.tn)), h1.value(comp(self.tn)) == x)
            yield "the custom function is the one given", h1.custom == (nul(FnP) if f is None or f.meta.get("null") or f.ct.name == "nullptr_t" else f.t)
            yield "the object is new", z3.Or(fresh_, *[h1.p == p for _, p in mine])
            yield "the old object is destroyed, only the new one is made", live_is(b, a, mine, owned(h1))
            yield "other objects stay", others_stay(b, a, mine + owned(h1))
        elif w == "MakeEmpty":
            yield "empty", z3.And(z3.Not(h1.full()), live_is(b, a, NO, NO))
        elif w in ("Assign", "MakeCopy"):
            o0, o1 = H(c, c.s0, c.args[0]), H(c, c.s1, c.args[0])
            if w == "Assign" and not self.distinct(c):
                yield "assignment to itself changes nothing", z3.And(h1.same(h0), live_is(b, a, NO, NO), others_stay(b, a, NO))
            else:
                yield "the value of the other", h1.same_value(o0)
                yield "the other stays", o1.same(o0)
                yield "the copy is deep", imp(h1.full(), h1.p != o1.p)
                yield "the object is new", z3.Or(fresh_, *[h1.p == p for _, p in mine])
                yield "the old object is destroyed, only the new one is made", live_is(b, a, mine, owned(h1))
                yield "other objects stay", others_stay(b, a, mine + owned(h1))
        elif w == "Reset":
            yield "empty", z3.Not(h1.full())
            yield "the object is destroyed", live_is(b, a, mine, NO)
            yield "other objects stay", others_stay(b, a, NO)
            n0, n1 = c.old(CALLS).t, c.new(CALLS).t
            cu = h0.custom != nul(FnP)
            yield "the custom function is called once on the object", z3.If(cu, z3.And(n1 == n0 + 1, c.new(LASTF).t == h0.custom, c.new(LASTP).t == h0.p), n1 == n0)
        elif w == "Destroy":
            yield "the object is destroyed", live_is(b, a, mine, NO)
            yield "other objects stay", others_stay(b, a, NO)
        elif w == "Swap":
            o0, o1 = H(c, c.s0, c.args[0]), H(c, c.s1, c.args[0])
            if self.distinct(c):
                yield "the values are exchanged", z3.And(h1.same_value(o0), o1.same_value(h0))
                yield "invariant of the other", o1.inv()
                yield "holders own different objects", imp(h1.full(), h1.p != o1.p)
                ch = mine + owned(o0) + owned(h1) + owned(o1)
                yield "no object is lost or left over", live_is(b, a, mine + owned(o0), owned(h1) + owned(o1))
                yield "other objects stay", z3.BoolVal(True)
            else:
                yield "swapping with itself keeps the value", h1.same_value(h0)
                yield "no object is lost or left over", live_is(b, a, mine, owned(h1))
        elif w == "GetData":
            ok = z3.And(h0.full(), h0.ty == typeid(c.eng.u, CT(self.tn)))
            x0, x1 = c.old(c.args[0]).t, c.new(c.args[0]).t
            yield "gives the value exactly for its type", c.ret.t == ok
            yield "the value", imp(ok, x1 == h0.value(comp(self.tn)))
            yield "refusal leaves the output", imp(z3.Not(ok), x1 == x0)
            yield "the holder stays", h1.same(h0)
            yield "objects stay", z3.And(live_is(b, a, NO, NO), others_stay(b, a, NO))
        elif w == "Parse":
            yield "the holder keeps its type and object", z3.And(h1.p == h0.p, h1.ty == h0.ty, live_is(b, a, NO, NO))
            yield "other objects stay", others_stay(b, a, mine)
        elif w == "Str":
            yield "the text of the value", c.ret.t == text(h0.ty, h0.value(comp("int")), h0.value(comp("std::string")))
            yield "objects stay", z3.And(live_is(b, a, NO, NO), others_stay(b, a, NO))
        elif w == "Type":
            yield "the type", c.ret.t == h0.ty


def stream_hook(eng, st, vs, e):
    if isinstance(vs[0], (V, LV)) and "ostream" in vs[0].ct.name:
        return [(st, vs[0])]
    return None


def scope_end(eng, x, outs):
    """destructors of local holders"""
    con = eng.u.contracts.get("DataSaver::~DataSaver/0")
    ids = []
    for d in x.get("inner", ()):
        if d.get("kind") == "DeclStmt":
            ids += [v["id"] for v in d["inner"] if v["kind"] == "VarDecl" and cast.ctype(v).plain().name == "DataSaver" and "&" not in v["type"]["qualType"]]
    if not ids or con is None:
        return outs
    for i in reversed(ids):
        nxt = []
        for s in outs:
            l = s.env.get(i)
            if isinstance(l, LV):
                nxt += [q for q, _ in con.apply(eng, s, l, [], None)]
            else:
                nxt.append(s)
        outs = nxt
    return outs


def any_pointer(eng):
    """DataSaver* as this"""


def holder(eng, st, lv):
    pass


def proof():
    u = unit("saver")
    u.models.append(type_model)
    u.opaque_types["fnptr"] = FnP
    for t in ["void"] + TYPES:
        u.opaque_types[t + "*"] = PRef
    for n in ("std::ostream", "std::basic_ostream"):
        u.opaque_types[n] = Sort("Stream")
    u.hooks.update({"new": h_new, "delete": lambda *a: list(h_delete(*a)), "deref": h_deref, "callptr": h_callptr, "function pointer": h_fnptr, "operator<<": stream_hook,
                    "scope_end": scope_end, "global": lambda eng, st, d, e: V(CT("std::ostream"), {"": z3.Const("cerr", Sort("Stream"))}) if d.get("name") in ("cerr", "cout") else None})
    typeid(u, CT("void"))
    for t in TYPES:
        typeid(u, CT(t))
    eng = Engine(u, [cast.load(SRC, "saver")])
    p = Proof()
    K = "DataSaver::"
    for k in list(eng.fns):
        if k.startswith("ToString/1<"):
            u.contracts[k] = ToS(k)
        if k.startswith("FromString/2<"):
            u.contracts[k] = FromS(k)

    def go(con):
        p.run(eng, con.label, lambda: verify(eng, con, init))
    cons = [D(K + "DataSaver/0", "MakeEmpty"), D(K + "DataSaver/1", "MakeCopy"), D(K + "operator=/1", "Assign"), D(K + "SetDataFromString/1", "Parse"),
            D(K + "ResetData/0", "Reset"), D(K + "Swap/1", "Swap"), D(K + "Str/0", "Str"), D(K + "GetDataType/0", "Type"), D(K + "~DataSaver/0", "Destroy")]
    for key in eng.fns:
        for t in TYPES:
            if key.startswith(K + "SetData/") and ("<%s>" % t in key or "<%s," % t in key):
                cons.append(D(key, "Set", t))
            if key.startswith(K + "DataSaver/") and ("<%s>" % t in key or "<%s," % t in key):
                cons.append(D(key, "MakeSet", t))
            if key == K + "GetData/1<%s>" % t:
                cons.append(D(key, "GetData", t))
    if len(cons) < 9 + 2 * 3 + 2 * 2 + 2:
        raise Unattached("instances of DataSaver: %d" % len(cons))
    for c in cons:
        if "Set" not in c.what:
            u.contracts[c.key] = c
    # setters are verified with the body of what they call
    for c in cons:
        go(c)
    for c in (D(K + "operator=/1", "Assign", alias=True, label="DataSaver::operator= (itself)"), D(K + "Swap/1", "Swap", alias=True, label="DataSaver::Swap (itself)")):
        go(c)
    p.assumptions |= {"types of values are copied faithfully by their copy constructor; instances for int and std::string stand for all",
                      "the data given to a setter is not inside the holder itself", "custom functions do not touch the holder"}
    p.trusted |= {"model of new and delete, std::type_index, std::ostream"}
    return p.close(eng)
