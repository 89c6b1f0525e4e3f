"""The vault layer: models of the classes the vault is made of, and its invariant.

Values of keys are one sort (Val) with a type; the code is checked for one element type of which nothing but an equality, an order
and a hash consistent with it is known (AnyT). The map wrappers and the keyed containers of holders stand for themselves by their
contracts, which contracts/maps.py, contracts/saver.py and contracts/container.py prove; the standard containers are assumed."""
from .common import *

HP, TP = HRef, TRef
NOREC, NOV, NOKEY = nul(RRef), nul(VRef), nul(Str)
ty = z3.Function("ty", Val, Ty)
rank = z3.Function("rank", Val, z3.RealSort())
unrank = z3.Function("value of rank", z3.RealSort(), Val)
tyT = z3.Const("type AnyT", Ty)
tyH = z3.Function("type of hashed index of", Ty, Ty)
tyM = z3.Function("type of ordered index of", Ty, Ty)
ptrH, asH = z3.Function("ptrH", HP, Val), z3.Function("asH", Val, HP)
ptrT, asT = z3.Function("ptrT", TP, Val), z3.Function("asT", Val, TP)
cKey = z3.Function("captured key", Clo, Str)
cH = z3.Function("captured hashed index", Clo, HP)
cT = z3.Function("captured ordered index", Clo, TP)
cTy = z3.Function("captured type", Clo, Ty)
cDef = z3.Function("captured default", Clo, Val)
cUniq = z3.Function("captured uniqueness", Clo, Bool)
pred = z3.Function("predicate", Clo, RRef, Bool)
genval = z3.Function("generated", Clo, RRef, Val)
kpos = z3.Function("place of key", arr(Int, Str), Int, Str, Int)        # a place at which the key occurs in the sequence, if it does
anydef = z3.Const("AnyT{}", Val)
NOVAL = z3.Const("no value", Val)
strs = {}


def lit_str(bs):
    k = tuple(bs)
    if k not in strs:
        strs[k] = z3.Const("text " + "".join(chr(b % 256) for b in k), Str)
    return strs[k]


def tyconst(ct):
    if ct.name == "AnyT" and not ct.ptr:
        return tyT
    if ct.name == "UnorderedMap":
        return tyH(tyconst(ct.args[0]))
    if ct.name == "Map":
        return tyM(tyconst(ct.args[0]))
    return z3.Const("type " + str(ct.plain() if not ct.ptr else ct), Ty)


def toval(v):
    if v.ct.name == "UnorderedMap":
        return ptrH(v.t)
    if v.ct.name == "Map":
        return ptrT(v.t)
    if v.t.sort() == Val:
        return v.t
    raise Unsupported("holder of %s" % v.ct)


def ofval(ct, t):
    if ct.name == "UnorderedMap":
        return V(ct, {"": asH(t)})
    if ct.name == "Map":
        return V(ct, {"": asT(t)})
    return V(ct, {"": t})


class Plain(Model):
    """a type with one component and equality"""
    def __init__(self, ct, eng, sort, default=None):
        Model.__init__(self, ct, eng)
        self.sort, self.dflt = sort, default

    def comps(self):
        return {"": self.sort}

    def default(self, st):
        return V(self.ct, {"": self.dflt if self.dflt is not None else fresh("v", self.sort)})

    def val(self, st, x):
        x = self.eng.load(st, x)
        if x.meta.get("typeid") is not None:
            return tyconst(x.meta["typeid"])
        if x.meta.get("str") is not None:
            return lit_str(x.meta["str"])
        return x.t

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        return [(st, V(self.ct, {"": self.val(st, args[0])}))]

    def op(self, st, name, vs, e):
        if name == "operator=":
            self.eng.store(st, vs[0], V(self.ct, {"": self.val(st, vs[1])}))
            return [(st, vs[0])]
        a, b = [self.val(st, v) for v in vs[:2]]
        r = {"operator==": lambda: a == b, "operator!=": lambda: a != b}.get(name)
        if r is None and self.sort == Val:
            r = {"operator<": lambda: rank(a) < rank(b), "operator>": lambda: rank(a) > rank(b),
                 "operator<=": lambda: rank(a) <= rank(b), "operator>=": lambda: rank(a) >= rank(b)}.get(name)
        return [(st, bv(r()))] if r else None

    def method(self, st, obj, name, args, node):
        if name == "GetDataType" and self.ct.name == "DataSaver":
            return [(st, V(CT("std::type_index"), {"": ty(self.val(st, obj))}))]
        if name == "ResetData" and self.ct.name == "DataSaver" and isinstance(obj, LV):
            hk = self.eng.u.hooks.get("holder emptied")
            if hk:
                hk(self.eng, st, obj, self.val(st, obj))
            self.eng.store(st, obj, V(self.ct, {"": NOVAL}))
            return [(st, void())]
        r = self.op(st, name, [obj] + list(args), node)
        if r is None:
            raise Unsupported("%s::%s" % (self.ct, name))
        return r

    def wf(self, v):
        if self.sort == Str:
            return [v.t != NOKEY]
        return [ty(v.t) == tyT] if self.sort == Val and self.ct.name == "AnyT" else []


class Nothing(Model):
    """locks: what they do is the property of contracts/locks.py"""
    def comps(self):
        return {}

    def default(self, st):
        return V(self.ct, {})

    def construct(self, st, args, e):
        return [(st, V(self.ct, {}))]

    def method(self, st, obj, name, args, node):
        return [(st, void())]


# ------------------------------------------------------------------ places that iterators refer to
def place_id(eng, lv):
    ps = eng.__dict__.setdefault("places", [])
    for i, p in enumerate(ps):
        if p.same(lv):
            return z3.IntVal(i)
    ps.append(lv)
    return z3.IntVal(len(ps) - 1)


def place_of(eng, v):
    t = z3.simplify(v.c["of"])
    if not z3.is_int_value(t):
        raise Unsupported("iterator of an unknown container")
    return eng.places[t.as_long()]


class It(Model):
    """iterator: what it points at (an element, or the end), and the container"""
    def comps(self):
        return {"": self.esort(), "of": Int}

    def esort(self):
        n, a = self.ct.name, self.ct.args[0]
        if n == "AllMapIterator":
            return RRef
        if n in ("std::list_iterator", "std::vector_iterator"):
            return Int
        if a.name == "std::pair":
            return self.eng.comps(a.args[0])[""]
        return self.eng.comps(a)[""]

    def default(self, st):
        return self.eng.havoc(self.ct, "it")

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        v = self.eng.load(st, args[0])
        return [(st, V(self.ct, v.c))]

    def op(self, st, name, vs, e):
        eng = self.eng
        v = eng.load(st, vs[0])
        if name in ("operator==", "operator!="):
            r = v.t == eng.load(st, vs[1]).t
            return [(st, bv(r if name == "operator==" else z3.Not(r)))]
        if name == "operator=":
            eng.store(st, vs[0], eng.load(st, vs[1]))
            return [(st, vs[0])]
        p = place_of(eng, v)
        m = eng.model(p.ct)
        if name in ("operator*", "operator->"):
            l = m.element(st, p, v.t)
            return [(st, l if name == "operator*" else V(l.ct.addr(), {"": fresh("p", Int)}, {"lv": l if isinstance(l, LV) else eng.newcell(st, l)}))]
        if name in ("operator++", "operator--"):
            t = m.step(st, p, v.t, 1 if (name == "operator++") != ("reverse" in str(self.ct)) else -1, "reverse" in str(self.ct))
            eng.store(st, vs[0], V(v.ct, {"": t, "of": v.c["of"]}))
            post = len(vs) > 1 or (e is not None and len(e.get("inner", ())) > 2)
            return [(st, v if post else vs[0])]

    def method(self, st, obj, name, args, node):
        r = self.op(st, name, [obj] + list(args), node)
        if r is None:
            raise Unsupported("iterator " + name)
        return r


class Pair(Model):
    def comps(self):
        out = {}
        for n, a in zip(("first.", "second."), self.ct.args):
            for s, t in self.eng.comps(a).items():
                out[n + s] = t
        return out

    def default(self, st):
        return self.eng.havoc(self.ct, "pair")

    def construct(self, st, args, e):
        c = {}
        if len(args) == 1:
            x = self.eng.load(st, args[0])
            return [(st, V(self.ct, x.c))]
        for n, a, x in zip(("first.", "second."), self.ct.args, args):
            for s2, v in conv(self.eng, st, a, x):
                for k, t in v.c.items():
                    c[n + k] = t
        return [(st, V(self.ct, c))]

    def member(self, st, lv, name):
        a = self.ct.args[0 if name == "first" else 1]
        if isinstance(lv, LV) and name == "second" and not lv.prefix and lv.store in self.eng.__dict__.get("within", {}):
            return self.eng.within[lv.store]
        return lv.field(name, a) if isinstance(lv, LV) else lv.sub(name + ".", a)

    def op(self, st, name, vs, e):
        if name == "operator=":
            self.eng.store(st, vs[0], self.eng.load(st, vs[1]))
            return [(st, vs[0])]


def conv(eng, st, ct, x):
    """x as a value of type ct"""
    v = eng.load(st, x)
    if set(v.c) == set(eng.comps(ct)) and v.meta.get("str") is None:
        return [(st, V(ct, v.c))]
    return eng.model(ct).construct(st, [x], None)


# ------------------------------------------------------------------ ordered collections of distinct elements
class Coll(Model):
    """elements in some order: in, at, pos, size. at[size] and the end iterator are the null of the sort"""
    def esort(self):
        raise NotImplementedError

    def base(self):
        e = self.esort()
        return {"in": arr(e, Bool), "at": arr(Int, e), "pos": arr(e, Int), "size": Int}

    def wf(self, v):
        return []

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        x = self.eng.load(st, args[0])
        if set(x.c) != set(self.comps()):
            raise Unsupported("construction of %s" % self.ct)
        r = V(self.ct, dict(x.c))
        if isinstance(args[0], LV) and e is not None and moves(e, args[0]):
            self.moved(st, args[0])
        return [(st, r)]

    def laws(self, v):
        e = self.esort()
        IN, AT, POS, N = v.c["in"], v.c["at"], v.c["pos"], v.c["size"]
        sl = sel
        return [N >= 0, N < MAXLEN, z3.Or(N == 0, sl(IN, sl(AT, z3.IntVal(0)))), z3.Not(sl(IN, nul(e))), sl(POS, nul(e)) == N, sl(AT, N) == nul(e),
                forall([e], lambda x: imp(sl(IN, x), z3.And(sl(POS, x) >= 0, sl(POS, x) < N, sl(AT, sl(POS, x)) == x)), lambda x: [sl(IN, x)] if can_pat(IN) else []),
                forall([Int], lambda i: imp(z3.And(i >= 0, i < N), z3.And(sl(IN, sl(AT, i)), sl(POS, sl(AT, i)) == i)), lambda i: [sl(AT, i)] if can_pat(AT) else [])]

    def read(self, st, obj):
        """the collection as named constants obeying the laws"""
        v = self.eng.load(st, obj)
        key = ("laws", tuple(v.c[k].get_id() for k in ("in", "at", "pos", "size")))
        if key in st.notes:
            return st.notes[key][0]
        w = V(v.ct, {k: name(st, k, t) for k, t in v.c.items()})
        st.assume(*self.laws(w))
        st.notes[key] = (w, v)
        return w

    def nullel(self):
        return nul(self.esort())

    def fresh_order(self, st, c):
        c["at"], c["pos"] = fresh("at", c["at"].sort()), fresh("pos", c["pos"].sort())

    def shift(self, st, v, x, c):
        """the order after the element x went"""
        at, pos = fresh("at", c["at"].sort()), fresh("pos", c["pos"].sort())
        P = z3.Select(v.c["pos"], x)
        st.assume(forall([self.esort()], lambda y: pos[y] == v.c["pos"][y] - z3.If(v.c["pos"][y] > P, z3.IntVal(1), z3.IntVal(0)), lambda y: [pos[y]]),
                  forall([Int], lambda i: at[i] == z3.If(i < P, v.c["at"][i], v.c["at"][i + 1]), lambda i: [at[i]]))
        c["at"], c["pos"] = at, pos

    def iter(self, obj, t, ct=None):
        return V(self.itct, {"": t, "of": place_id(self.eng, obj)})

    def step(self, st, obj, t, d, rev=False):
        v = self.read(st, obj)
        self.eng.oblige(st, "the iterator is not at its end", v.c["in"][t])
        st.assume(v.c["in"][t])
        p = v.c["pos"][t] + d
        if rev:
            return z3.If(p < 0, self.nullel(), v.c["at"][p])
        return v.c["at"][p]

    def range_for(self, st, obj, var, body, x, kind="collection"):
        """for (var : obj): the body runs at each element in order; the collection itself may lose the elements already visited"""
        eng = self.eng
        if isinstance(obj, V):
            obj = eng.newcell(st, obj, "range")
        idx = eng.newcell(st, iv(SIZE, 0), "index")
        spec = eng.loopspec(st, x, "range", dict(index=idx, range=obj))
        if spec is None:
            raise Unattached("loop in %s has no invariant" % st.env.get("fkey"))
        v0 = self.read(st, obj)

        def unchanged(s):
            w = eng.load(s, obj)
            u = eng.load(st, obj)
            return all(w.c[k].eq(u.c[k]) for k in ("in", "at", "pos", "size"))

        def test(s):
            if not unchanged(s):
                w = self.eng.load(s, obj)
                eng.oblige(s, "the collection iterated over stays the same", z3.And(*[w.c[k] == v0.c[k] for k in ("in", "at", "pos", "size")]))
            return eng.split(s, eng.load(s, idx).t < v0.c["size"])

        def step(s):
            i = eng.load(s, idx).t
            s.assume(i >= 0, i < v0.c["size"])
            el = name(s, "el", v0.c["at"][i])
            s.assume(v0.c["in"][el], v0.c["pos"][el] == i, el != self.nullel())
            self.bind(s, obj, el, var)
            return eng.stmt(body, s)

        def inc(s):
            eng.store(s, idx, iv(SIZE, eng.load(s, idx).t + 1))
            return [s]
        spec._inv0 = spec._inv
        spec._inv = lambda e, a, b: [("position", z3.And(e.load(b, idx).t >= 0, e.load(b, idx).t <= v0.c["size"]))] + list(spec._inv0(e, a, b))
        return eng.cut_general(st, spec, test, step, inc)

    def bind(self, s, obj, el, var):
        x = self.element(s, obj, el)
        s.env = dict(s.env)
        s.env[var["id"]] = x if isinstance(x, LV) else self.eng.newcell(s, x, var.get("name", "x"))

    def iterate(self, st, c, var, body, x):
        return self.range_for(st, c, var, body, x)


def can_pat(t):
    return z3.is_const(t) or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and all(can_pat(x) for x in t.children()))


def name(st, n, t):
    """a constant for a term which is not a simple one, for the sake of triggers"""
    if z3.is_const(t):
        return t
    k = ("name", t.get_id())
    if k in st.notes:
        return st.notes[k][0]
    f = fresh(n, t.sort())
    st.pc.append(f == t)
    st.notes[k] = (f, t)
    return f


constant = name


class SetModel(Coll):
    """std::unordered_set and std::set"""
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        self.ect = ct.args[0]
        self.itct = CT("std::hash_iterator" if "unordered" in ct.name else "std::tree_iterator", (self.ect,))

    def esort(self):
        return self.eng.comps(self.ect)[""]

    def comps(self):
        return self.base()

    def default(self, st):
        e = self.esort()
        return V(self.ct, {"in": z3.K(e, z3.BoolVal(False)), "at": fresh("at", arr(Int, e)), "pos": fresh("pos", arr(e, Int)), "size": z3.IntVal(0)})

    def element(self, st, obj, t):
        v = self.eng.load(st, obj)
        self.eng.oblige(st, "the iterator points at an element", sel(v.c["in"], t))
        st.assume(sel(v.c["in"], t))
        return V(self.ect, {"": t})

    def moved(self, st, lv):
        self.eng.store(st, lv, self.default(st))

    def method(self, st, obj, name, args, node):
        eng = self.eng
        v = eng.load(st, obj)
        if name in ("end", "cend"):
            return [(st, self.iter(obj, self.nullel()))]
        if name in ("begin", "cbegin"):
            w = self.read(st, obj)
            return [(st, self.iter(obj, w.c["at"][z3.IntVal(0)]))]
        if name == "size":
            w = self.read(st, obj)
            return [(st, iv(SIZE, w.c["size"]))]
        if name == "empty":
            w = self.read(st, obj)
            return [(st, bv(w.c["size"] == 0))]
        if name == "clear":
            eng.store(st, obj, self.default(st))
            return [(st, void())]
        if name == "swap":
            o = eng.load(st, args[0])
            eng.store(st, args[0], V(args[0].ct, v.c))
            eng.store(st, obj, V(obj.ct, o.c))
            return [(st, void())]
        if name in ("find", "count"):
            w = self.read(st, obj)
            k = eng.load(st, args[0])
            k = eng.retarget(k, self.ect).t
            h = sel(w.c["in"], k)
            if name == "count":
                return [(st, iv(SIZE, z3.If(h, z3.IntVal(1), z3.IntVal(0))))]
            return [(st, self.iter(obj, z3.If(h, k, self.nullel())))]
        if name in ("emplace", "insert"):
            k = eng.load(st, args[0])
            if k.meta.get("lv") is not None and k.t.sort() != self.esort():
                raise Unsupported("element")
            k = k.t
            out = []
            for s, side in eng.split(st, sel(v.c["in"], k)):
                P = CT("std::pair", (self.itct, BOOL))
                if not side:
                    s.assume(k != self.nullel())
                    c = dict(v.c)
                    c["in"], c["size"] = z3.Store(v.c["in"], k, z3.BoolVal(True)), v.c["size"] + 1
                    self.fresh_order(s, c)
                    eng.store(s, obj, V(self.ct, c))
                out.append((s, V(P, {"first.": k, "first.of": place_id(eng, obj), "second.": z3.BoolVal(not side)})))
            return out
        if name == "erase":
            x = eng.load(st, args[0])
            isit = "of" in x.c
            if isit:
                w = self.read(st, obj)
                eng.oblige(st, "the element erased is in the container", w.c["in"][x.t])
                st.assume(w.c["in"][x.t])
            out = []
            for s, side in ([(st, True)] if isit else eng.split(st, sel(v.c["in"], x.t))):
                r = z3.IntVal(0)
                if side:
                    w = self.read(s, obj)
                    nxt = w.c["at"][w.c["pos"][x.t] + 1]
                    c = dict(w.c)
                    c["in"], c["size"] = z3.Store(w.c["in"], x.t, z3.BoolVal(False)), w.c["size"] - 1
                    self.shift(s, w, x.t, c)
                    eng.store(s, obj, V(self.ct, c))
                    r = z3.IntVal(1)
                out.append((s, self.iter(obj, nxt) if isit else iv(SIZE, r)))
            return out
        if name == "operator=":
            return self.op(st, name, [obj] + list(args), node)
        raise Unsupported("%s::%s" % (self.ct, name))

    def op(self, st, name, vs, e):
        eng = self.eng
        if name == "operator=":
            x = eng.load(st, vs[1])
            mv = isinstance(vs[1], LV) and moves(e, vs[1])
            if getattr(self, "counts", False):
                if isinstance(vs[1], LV) and not mv:
                    raise Unsupported("copy of references")
                y = eng.load(st, vs[0])
                if not (z3.is_int_value(y.c["size"]) and y.c["size"].as_long() == 0):
                    eng.u.hooks["references dropped"](eng, st, y)
            eng.store(st, vs[0], V(vs[0].ct, x.c))
            if mv:
                self.moved(st, vs[1])
            return [(st, vs[0])]
        if name in ("operator==", "operator!="):
            a, b = eng.load(st, vs[0]), eng.load(st, vs[1])
            r = a.c["in"] == b.c["in"]
            return [(st, bv(r if name == "operator==" else z3.Not(r)))]


def moves(e, x):
    """the right side of an assignment is an xvalue"""
    if e is None or not e.get("inner"):
        return False
    a = e["inner"][-1]
    return a.get("valueCategory") == "xvalue"


class Dict(Coll):
    """std::unordered_map from names: in, val and the order"""
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        self.vt = ct.args[1]
        self.pair = CT("std::pair", ct.args[:2])
        self.itct = CT("std::hash_iterator" if "unordered" in ct.name else "std::tree_iterator", (self.pair,))
        self.vsort = Val if self.vt.name == "DataSaver" else eng.comps(self.vt)[""]

    def esort(self):
        return Str

    def comps(self):
        c = self.base()
        c["val"] = arr(Str, self.vsort)
        return c

    def default(self, st):
        return V(self.ct, {"in": z3.K(Str, z3.BoolVal(False)), "at": fresh("at", arr(Int, Str)), "pos": fresh("pos", arr(Str, Int)),
                           "size": z3.IntVal(0), "val": fresh("val", arr(Str, self.vsort))})

    def element(self, st, obj, t):
        v = self.eng.load(st, obj)
        self.eng.oblige(st, "the iterator points at an element", sel(v.c["in"], t))
        st.assume(sel(v.c["in"], t))
        return V(self.pair, {"first.": t, "second.": sel(v.c["val"], t)})

    def moved(self, st, lv):
        self.eng.store(st, lv, self.default(st))

    def bind(self, s, obj, el, var):
        Coll.bind(self, s, obj, el, var)
        q = var["type"].get("desugaredQualType") or var["type"]["qualType"]
        if self.vt.name == "DataSaver" and isinstance(obj, LV) and "&" in q and not q.startswith("const"):
            self.eng.__dict__.setdefault("within", {})[s.env[var["id"]].store] = LV(obj.store, self.vt, obj.prefix + "val", obj.keys + (el,))

    def put(self, st, obj, v, k, x):
        c = dict(v.c)
        c["in"], c["val"], c["size"] = z3.Store(v.c["in"], k, z3.BoolVal(True)), z3.Store(v.c["val"], k, x), v.c["size"] + 1
        self.fresh_order(st, c)
        self.eng.store(st, obj, V(obj.ct, c))

    def drop(self, st, obj, v, k):
        c = dict(v.c)
        c["in"], c["size"] = z3.Store(v.c["in"], k, z3.BoolVal(False)), v.c["size"] - 1
        self.fresh_order(st, c)
        self.eng.store(st, obj, V(obj.ct, c))

    def method(self, st, obj, name, args, node):
        eng = self.eng
        v = eng.load(st, obj)
        if name in ("end", "cend"):
            return [(st, self.iter(obj, NOKEY))]
        if name in ("begin", "cbegin"):
            w = self.read(st, obj)
            return [(st, self.iter(obj, w.c["at"][z3.IntVal(0)]))]
        if name == "size":
            return [(st, iv(SIZE, self.read(st, obj).c["size"]))]
        if name == "empty":
            return [(st, bv(self.read(st, obj).c["size"] == 0))]
        if name == "clear":
            eng.store(st, obj, self.default(st))
            return [(st, void())]
        if name in ("find", "count"):
            k = eng.load(st, args[0]).t
            h = sel(v.c["in"], k)
            st.assume(z3.Not(sel(v.c["in"], NOKEY)))
            if name == "count":
                return [(st, iv(SIZE, z3.If(h, z3.IntVal(1), z3.IntVal(0))))]
            return [(st, self.iter(obj, z3.If(h, k, NOKEY)))]
        if name == "emplace":
            if len(args) == 1:
                p = eng.load(st, args[0])
                k, x = p.c["first."], p.c["second."]
            else:
                k = eng.load(st, args[0]).t
                rs = conv_fn(eng, st, self.vt, args[1])
                st, xv = rs[0]
                x = xv.t
                v = eng.load(st, obj)
            out = []
            for s, side in eng.split(st, sel(v.c["in"], k)):
                if not side:
                    self.put(s, obj, v, k, x)
                out.append((s, V(CT("std::pair", (self.itct, BOOL)), {"first.": k, "first.of": place_id(eng, obj), "second.": z3.BoolVal(not side)})))
            return out
        if name == "erase":
            x = eng.load(st, args[0])
            if "of" in x.c:
                eng.oblige(st, "the element erased is in the container", sel(v.c["in"], x.t))
                st.assume(sel(v.c["in"], x.t))
                self.drop(st, obj, v, x.t)
                return [(st, self.iter(obj, fresh("next", Str)))]
            out = []
            for s, side in eng.split(st, sel(v.c["in"], x.t)):
                if side:
                    self.drop(s, obj, v, x.t)
                out.append((s, iv(SIZE, z3.IntVal(1 if side else 0))))
            return out
        if name == "operator=":
            return self.op(st, name, [obj] + list(args), node)
        raise Unsupported("%s::%s" % (self.ct, name))

    def op(self, st, name, vs, e):
        if name == "operator=":
            x = self.eng.load(st, vs[1])
            mv = isinstance(vs[1], LV) and moves(e, vs[1])
            self.eng.store(st, vs[0], V(vs[0].ct, x.c))
            if mv:
                self.moved(st, vs[1])
            return [(st, vs[0])]


def conv_fn(eng, st, ct, x):
    if isinstance(x, Fn):
        return eng.model(ct).construct(st, [x], None)
    return conv(eng, st, ct, x)


class Named(Model):
    """DataHashMap, DataMap: a Dict of holders behind the interface that contracts/container.py proves"""
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        self.dct = CT("std::map" if "DataMap" in str(ct) or "std::map" in str(ct) else "std::unordered_map", (CT("std::string"), CT("DataSaver")))
        self.d = Dict(self.dct, eng)

    def comps(self):
        return {"Container." + k: t for k, t in self.d.comps().items()}

    def inner(self, obj):
        return obj.field("Container", self.dct)

    def member(self, st, lv, name):
        if name != "Container":
            raise Unsupported("%s::%s" % (self.ct, name))
        return self.inner(lv) if isinstance(lv, LV) else lv.sub("Container.", self.dct)

    def default(self, st):
        return V(self.ct, {"Container." + k: t for k, t in self.d.default(st).c.items()})

    def moved(self, st, lv):
        self.eng.store(st, self.inner(lv), self.d.default(st))

    def construct(self, st, args, e):
        if args:
            raise Unsupported("%s constructed from something" % self.ct)
        return [(st, self.default(st))]

    def method(self, st, obj, name, args, node):
        eng, c = self.eng, self.inner(obj)
        v = eng.load(st, c)
        k = eng.load(st, args[0]).t if args and not isinstance(args[0], Fn) else None
        if name in ("SetData", "AddData"):
            x = toval(eng.load(st, args[1]))
            h = sel(v.c["in"], k)
            d = dict(v.c)
            d["val"] = z3.Store(v.c["val"], k, z3.If(h, sel(v.c["val"], k), x) if name == "AddData" else x)
            d["in"] = z3.Store(v.c["in"], k, z3.BoolVal(True))
            # a name present keeps its place in the order of the container
            d["size"] = fresh("size", Int)
            self.d.fresh_order(st, d)
            eng.store(st, c, V(c.ct, d))
            hk = eng.u.hooks.get("index stored")
            if hk:
                hk(eng, st, obj, k, eng.load(st, args[1]))
            return [(st, void())]
        if name == "GetData":
            o = eng.load(st, args[1])
            h = sel(v.c["in"], k)
            t = sel(v.c["val"], k)
            n = ofval(o.ct, t)
            eng.store(st, args[1], V(o.ct, {"": z3.If(z3.And(h, ty(t) == tyconst(o.ct)), n.t, o.t)}))
            return [(st, bv(h))]
        if name == "GetDataSaver":
            h = sel(v.c["in"], k)
            o = eng.load(st, args[1])
            eng.store(st, args[1], V(o.ct, {"": z3.If(h, sel(v.c["val"], k), o.t)}))
            return [(st, bv(h))]
        if name == "IsData":
            return [(st, bv(sel(v.c["in"], k)))]
        if name == "EraseData":
            d = dict(v.c)
            h = sel(v.c["in"], k)
            d["in"] = z3.Store(v.c["in"], k, z3.BoolVal(False))
            d["size"] = fresh("size", Int)
            self.d.fresh_order(st, d)
            eng.store(st, c, V(c.ct, d))
            hk = eng.u.hooks.get("index dropped")
            if hk:
                hk(eng, st, obj, h, sel(v.c["val"], k))
            return [(st, bv(h))]
        if name == "Clear":
            hk = eng.u.hooks.get("indexes cleared")
            if hk:
                hk(eng, st, obj, v)
            eng.store(st, c, self.d.default(st))
            return [(st, void())]
        if name == "Size":
            return [(st, iv(SIZE, self.d.read(st, c).c["size"]))]
        if name == "operator=":
            return self.op(st, name, [obj] + list(args), node)
        hk = eng.u.hooks.get("named:" + name)
        if hk:
            return hk(eng, st, self, obj, args, node)
        raise Unsupported("%s::%s" % (self.ct, name))

    def op(self, st, name, vs, e):
        if name == "operator=":
            eng = self.eng
            x = eng.load(st, vs[1])
            mv = isinstance(vs[1], LV) and moves(e, vs[1])
            eng.store(st, vs[0], V(vs[0].ct, {k: t for k, t in x.c.items() if k.startswith("Container.")}) if vs[0].ct.name != "VaultRecord" else V(self.ct, x.c))
            hk = eng.u.hooks.get("indexes moved")
            if hk and mv:
                hk(eng, st, vs[0], vs[1])
            if mv:
                self.moved(st, vs[1])
            return [(st, vs[0])]

    def iterate(self, st, c, var, body, x):
        return self.d.range_for(st, self.inner(c), var, body, x)


class Seq(Model):
    """std::vector and std::list: at, size"""
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        self.ect = ct.args[0]
        self.itct = CT("std::list_iterator" if "list" in ct.name else "std::vector_iterator", (self.ect,))
        self.counts = self.ect.name == "VaultRecordRef" and not self.ect.ptr

    def comps(self):
        c = {"at." + s: arr(Int, t) for s, t in self.eng.comps(self.ect).items()}
        c["size"] = Int
        if self.counts:
            c["cnt"] = arr(RRef, Int)           # how many of its references refer to a record
        return c

    def wf(self, v):
        return [v.c["size"] >= 0, v.c["size"] < MAXLEN]

    def default(self, st):
        return V(self.ct, {k: z3.IntVal(0) if k == "size" else constant(st, "cnt", z3.K(RRef, z3.IntVal(0))) if k == "cnt" else fresh("at", t) for k, t in self.comps().items()})

    def moved(self, st, lv):
        self.eng.store(st, lv, self.default(st))

    def read(self, st, obj):
        v = self.eng.load(st, obj)
        w = V(v.ct, {k: name(st, k, t) for k, t in v.c.items()})
        st.assume(w.c["size"] >= 0, w.c["size"] < MAXLEN)
        return w

    def place(self, obj, i):
        return LV(obj.store, self.ect, obj.prefix + "at.", obj.keys + (i,))

    def element(self, st, obj, i):
        v = self.eng.load(st, obj)
        self.eng.oblige(st, "the iterator points at an element", z3.And(i >= 0, i < v.c["size"]))
        st.assume(i >= 0, i < v.c["size"])
        return self.place(obj, i) if isinstance(obj, LV) else V(self.ect, {k[3:]: sel(t, i) for k, t in v.c.items() if k != "size"})

    def step(self, st, obj, t, d, rev=False):
        v = self.eng.load(st, obj)
        self.eng.oblige(st, "the iterator is not at its end", z3.And(t >= 0, t < v.c["size"]))
        return t + d

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        x = self.eng.load(st, args[0])
        if len(args) == 1 and x.ct.name == "unsigned long":
            v = self.eng.havoc(self.ct, "vec")
            v.c["size"] = x.t
            return [(st, v)]
        if "items" in x.meta:
            v = self.default(st)
            for i, y in enumerate(x.meta["items"]):
                for k in list(v.c):
                    if k != "size":
                        v.c[k] = z3.Store(v.c[k], z3.IntVal(i), y.c[k[3:]])
            v.c["size"] = z3.IntVal(len(x.meta["items"]))
            return [(st, v)]
        raise Unsupported("construction of %s" % self.ct)

    def method(self, st, obj, name, args, node):
        eng = self.eng
        v = eng.load(st, obj)
        if name in ("begin", "cbegin"):
            return [(st, V(self.itct, {"": z3.IntVal(0), "of": place_id(eng, obj)}))]
        if name in ("end", "cend"):
            return [(st, V(self.itct, {"": v.c["size"], "of": place_id(eng, obj)}))]
        if name == "size":
            st.assume(v.c["size"] >= 0, v.c["size"] < MAXLEN)
            return [(st, iv(SIZE, v.c["size"]))]
        if name == "empty":
            st.assume(v.c["size"] >= 0)
            return [(st, bv(v.c["size"] == 0))]
        if name == "clear":
            if getattr(self, "counts", False):
                eng.u.hooks["references dropped"](eng, st, v)
            eng.store(st, obj, self.default(st))
            return [(st, void())]
        if name in ("emplace_back", "push_back"):
            if getattr(self, "counts", False):
                rs = eng.u.hooks["reference stored"](eng, st, args, node)
            elif len(args) == 1:
                rs = conv(eng, st, self.ect, args[0])
            else:
                rs = eng.model(self.ect).construct(st, args, node)
            st, x = rs[0]
            c = dict(v.c)
            for k, t in x.c.items():
                c["at." + k] = z3.Store(v.c["at." + k], v.c["size"], t)
            c["size"] = v.c["size"] + 1
            if getattr(self, "counts", False):
                c["cnt"] = constant(st, "cnt", z3.If(x.c["VaultRecordPtr."] == NOREC, v.c["cnt"], z3.Store(v.c["cnt"], x.c["VaultRecordPtr."], sel(v.c["cnt"], x.c["VaultRecordPtr."]) + 1)))
            st.assume(v.c["size"] < MAXLEN - 1)
            eng.store(st, obj, V(obj.ct, c))
            return [(st, void())]
        if name in ("operator[]", "at"):
            i = eng.load(st, args[0]).t
            eng.oblige(st, "index within the vector", z3.And(i >= 0, i < v.c["size"]))
            st.assume(i >= 0, i < v.c["size"])
            return [(st, self.place(obj, i))]
        if name == "front":
            return [(st, self.element(st, obj, z3.IntVal(0)))]
        if name == "erase":
            x = eng.load(st, args[0])
            eng.oblige(st, "the element erased is in the list", z3.And(x.t >= 0, x.t < v.c["size"]))
            st.assume(x.t >= 0, x.t < v.c["size"])
            c = dict(v.c)
            for k in v.c:
                if k != "size":
                    f = fresh("at", v.c[k].sort())
                    st.assume(forall([Int], lambda i: f[i] == z3.If(i < x.t, sel(v.c[k], i), sel(v.c[k], i + 1)), lambda i: [f[i]]))
                    c[k] = f
                    if f.sort() == arr(Int, Str):
                        # where a name is then: an instance of the line above
                        a, n, p = constant(st, "at", v.c[k]), v.c["size"], lambda y: kpos(a, n, y)
                        st.assume(forall([Str], lambda y: imp(z3.And(p(y) != x.t, p(y) >= 0, a[p(y)] == y), f[z3.If(p(y) > x.t, p(y) - 1, p(y))] == y), lambda y: [kpos(f, n - 1, y)]))
            c["size"] = v.c["size"] - 1
            eng.store(st, obj, V(obj.ct, c))
            return [(st, V(self.itct, {"": x.t, "of": place_id(eng, obj)}))]
        if name == "operator=":
            return self.op(st, name, [obj] + list(args), node)
        raise Unsupported("%s::%s" % (self.ct, name))

    def op(self, st, name, vs, e):
        eng = self.eng
        if name == "operator=":
            x = eng.load(st, vs[1])
            mv = isinstance(vs[1], LV) and moves(e, vs[1])
            if getattr(self, "counts", False):
                if isinstance(vs[1], LV) and not mv:
                    raise Unsupported("copy of references")
                y = eng.load(st, vs[0])
                if not (z3.is_int_value(y.c["size"]) and y.c["size"].as_long() == 0):
                    eng.u.hooks["references dropped"](eng, st, y)
            eng.store(st, vs[0], V(vs[0].ct, x.c))
            if mv:
                self.moved(st, vs[1])
            return [(st, vs[0])]
        if name == "operator[]":
            return self.method(st, vs[0], name, vs[1:], e)

    def iterate(self, st, c, var, body, x):
        eng = self.eng
        if isinstance(c, V):
            c = eng.newcell(st, c, "range")
        idx = eng.newcell(st, iv(SIZE, 0), "index")
        spec = eng.loopspec(st, x, "range", dict(index=idx, range=c))
        if spec is None:
            raise Unattached("loop in %s has no invariant" % st.env.get("fkey"))
        n0 = self.read(st, c).c["size"]
        inv0 = spec._inv
        spec._inv = lambda e, a, b: [("position", z3.And(e.load(b, idx).t >= 0, e.load(b, idx).t <= n0))] + list(inv0(e, a, b))

        def step(s):
            i = eng.load(s, idx).t
            el = self.element(s, c, i)
            s.env = dict(s.env)
            q = var["type"].get("desugaredQualType") or var["type"]["qualType"]
            s.env[var["id"]] = el if "&" in q else eng.newcell(s, eng.load(s, el), var.get("name", "x"))
            return eng.stmt(body, s)

        def inc(s):
            eng.store(s, idx, iv(SIZE, eng.load(s, idx).t + 1))
            return [s]
        return eng.cut_general(st, spec, lambda s: eng.split(s, eng.load(s, idx).t < eng.load(s, c).c["size"]), step, inc)


# ------------------------------------------------------------------ indexes
class Index(Coll):
    """UnorderedMap and Map from values to records, by the contracts of contracts/maps.py: pairs of a value and a record. A record is
    in an index at most once, which is an obligation at every insertion; so a pair is named by its record."""
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        self.hashed = ct.name == "UnorderedMap"
        i = "std::hash_iterator" if self.hashed else "std::tree_iterator"
        self.pair = CT("std::pair", ct.args[:2])
        it = CT(i, (self.pair,))
        self.itct = CT("AllMapIterator", (it, it) + tuple(ct.args[:2]))
        rt = CT("std::reverse_iterator", (it,))
        self.ritct = CT("AllMapIterator", (rt, rt) + tuple(ct.args[:2]))
        self.ref = HP if self.hashed else TP

    def esort(self):
        return RRef

    def comps(self):
        c = self.base()
        c.update({"kv": arr(RRef, Val), "multi": Bool, "ov": VRef, "ok": Str, "live": Bool})
        return c

    def laws(self, v):
        out = Coll.laws(self, v)
        IN, POS, KV = v.c["in"], v.c["pos"], v.c["kv"]
        if not self.hashed:
            out.append(forall([RRef, RRef], lambda a, b: imp(z3.And(IN[a], IN[b], POS[a] < POS[b]), rank(KV[a]) <= rank(KV[b])), lambda a, b: [(IN[a], IN[b])]))
        return out

    def element(self, st, obj, t):
        v = self.eng.load(st, obj)
        self.eng.oblige(st, "the iterator points at an element", sel(v.c["in"], t))
        st.assume(sel(v.c["in"], t))
        return V(self.pair, {"first.": sel(v.c["kv"], t), "second.": t})

    def it(self, obj, t, rev=False):
        return V(self.ritct if rev else self.itct, {"": t, "of": place_id(self.eng, obj)})

    def method(self, st, obj, name, args, node):
        eng = self.eng
        v = eng.load(st, obj)
        if name == "IsMultiContainer":
            return [(st, bv(v.c["multi"]))]
        if name in ("End", "end", "cend", "Rend"):
            return [(st, self.it(obj, NOREC, name == "Rend"))]
        if name in ("Begin", "begin", "cbegin"):
            w = self.read(st, obj)
            return [(st, self.it(obj, w.c["at"][z3.IntVal(0)]))]
        if name == "Rbegin":
            w = self.read(st, obj)
            return [(st, self.it(obj, z3.If(w.c["size"] == 0, NOREC, w.c["at"][w.c["size"] - 1]), True))]
        if name == "Size":
            return [(st, iv(SIZE, self.read(st, obj).c["size"]))]
        if name == "Find":
            k = eng.load(st, args[0]).t
            r = fresh("found", RRef)
            IN, KV = v.c["in"], v.c["kv"]
            st.assume(imp(r != NOREC, z3.And(sel(IN, r), sel(KV, r) == k)), z3.Not(sel(IN, NOREC)),
                      imp(r == NOREC, self.absent(st, v, k)))
            return [(st, self.it(obj, r))]
        if name in ("EqualRange", "LowerBound", "UpperBound"):
            w = self.read(st, obj)
            k = eng.load(st, args[0]).t
            IN, KV, POS, AT, N = w.c["in"], w.c["kv"], w.c["pos"], w.c["at"], w.c["size"]
            if name == "EqualRange":
                lo, hi = fresh("lo", Int), fresh("hi", Int)
                st.assume(lo >= 0, lo <= hi, hi <= N, forall([RRef], lambda r: imp(IN[r], (KV[r] == k) == z3.And(lo <= POS[r], POS[r] < hi)), lambda r: [IN[r]]))
                if self.hashed:
                    st.assume(imp(lo == hi, lo == N))
                else:
                    st.assume(forall([RRef], lambda r: imp(IN[r], z3.And((POS[r] < lo) == (rank(KV[r]) < rank(k)), (POS[r] < hi) == (rank(KV[r]) <= rank(k)))), lambda r: [IN[r]]))
                st.assume(AT[lo] == AT[lo])
                P = CT("std::pair", (self.itct, self.itct))
                o = place_id(eng, obj)
                st.notes[("range", "lo")], st.notes[("range", "hi")] = lo, hi
                return [(st, V(P, {"first.": AT[lo], "first.of": o, "second.": AT[hi], "second.of": o}))]
            lo = fresh("lo", Int)
            st.assume(lo >= 0, lo <= N, forall([RRef], lambda r: imp(IN[r], (POS[r] < lo) == ((rank(KV[r]) < rank(k)) if name == "LowerBound" else (rank(KV[r]) <= rank(k)))), lambda r: [IN[r]]))
            return [(st, self.it(obj, AT[lo]))]
        if name == "Emplace":
            k, r = eng.load(st, args[0]).t, eng.load(st, args[1]).t
            IN, KV = v.c["in"], v.c["kv"]
            w = fresh("same", RRef)
            out = []
            taken = z3.And(z3.Not(v.c["multi"]), sel(IN, w), sel(KV, w) == k)
            for s, side in eng.split(st, taken):
                if not side:
                    s.assume(imp(z3.Not(v.c["multi"]), self.absent(s, v, k)))
                    if not eng.feasible(s):
                        continue
                    eng.oblige(s, "the record is not in the index yet", z3.And(r != NOREC, z3.Not(sel(IN, r))))
                    s.assume(r != NOREC, z3.Not(sel(IN, r)))
                    c = dict(v.c)
                    c["in"], c["kv"], c["size"] = z3.Store(IN, r, z3.BoolVal(True)), z3.Store(KV, r, k), v.c["size"] + 1
                    self.fresh_order(s, c)
                    eng.store(s, obj, V(obj.ct, c))
                out.append((s, V(CT("std::pair", (self.itct, BOOL)), {"first.": w if side else r, "first.of": place_id(eng, obj), "second.": z3.BoolVal(not side)})))
            return out
        if name == "Erase":
            x = eng.load(st, args[0])
            if "of" not in x.c:
                raise Unsupported("erase by value")
            eng.oblige(st, "the element erased is in the index", sel(v.c["in"], x.t))
            st.assume(sel(v.c["in"], x.t))
            w = self.read(st, obj)
            c = dict(w.c)
            c["in"], c["size"] = z3.Store(v.c["in"], x.t, z3.BoolVal(False)), w.c["size"] - 1
            self.shift(st, w, x.t, c)
            eng.store(st, obj, V(obj.ct, c))
            return [(st, void())]
        if name == "Clear":
            c = dict(v.c)
            c["in"], c["size"] = z3.K(RRef, z3.BoolVal(False)), z3.IntVal(0)
            self.fresh_order(st, c)
            eng.store(st, obj, V(obj.ct, c))
            return [(st, void())]
        raise Unsupported("%s::%s" % (self.ct.name, name))

    def absent(self, st, v, k):
        IN, KV = [t if can_pat(t) else name(st, n, t) for n, t in (("in", v.c["in"]), ("kv", v.c["kv"]))]
        return forall([RRef], lambda r: imp(IN[r], KV[r] != k), lambda r: [IN[r]])

    def iterate(self, st, c, var, body, x):
        return self.range_for(st, c, var, body, x)


class Func(Model):
    """std::function: a closure known by what it captured, or an opaque one"""
    def kind(self):
        a = str(self.ct.args[0])
        if self.ct.args[0].args and self.ct.args[0].args[0].name == "AnyT":
            return "generator"
        return {"fn<bool, VaultRecord*>": "adder", "fn<void, VaultRecord*>": "eraser", "fn<void>": "clearer", "fn<void, Vault*>": "copier",
                "fn<bool, VaultRecordRef>": "predicate", "fn<void, std::function<fn<bool, VaultRecordRef>>, Vault*, bool>": "sorter"}.get(a, a)

    def comps(self):
        return {"": Clo}

    def default(self, st):
        return V(self.ct, {"": fresh("function", Clo)})

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        a = args[0]
        if not isinstance(a, Fn):
            v = self.eng.load(st, a)
            if "items" in v.meta:                       # {lambda}
                a = v.meta["items"][0]
                if not isinstance(a, Fn):
                    return [(st, V(self.ct, a.c, a.meta))]
            elif v.ct.name == "std::function":
                return [(st, V(self.ct, v.c, v.meta))]
            elif v.ct.name == "nullptr_t":
                return [(st, self.default(st))]
            else:
                raise Unsupported("function from %s" % v.ct)
        c = fresh("closure", Clo)
        h = self.eng.u.hooks.get("closure")
        r = h(self.eng, st, self.kind(), a, c) if h else None
        return [(st, V(self.ct, {"": c}, {"fn": a}))]

    def invoke(self, st, f, args, e):
        h = self.eng.u.hooks.get("invoke " + self.kind())
        if h is None:
            if f.meta.get("fn") is not None:
                return self.eng.call(st, f.meta["fn"], args, e, done=True)
            raise Unsupported("call of a %s" % self.kind())
        return h(self.eng, st, f, args, e)

    def op(self, st, name, vs, e):
        if name == "operator()":
            return self.invoke(st, self.eng.load(st, vs[0]), vs[1:], e)
        if name == "operator=":
            for s, v in self.construct(st, [vs[1]], e):
                self.eng.store(s, vs[0], v)
                return [(s, vs[0])]

    def method(self, st, obj, name, args, node):
        if name == "operator()":
            return self.invoke(st, self.eng.load(st, obj), args, node)
        raise Unsupported("std::function::" + name)


addr_text = z3.Function("text of a pointer", VRef, Str)
addr_of = z3.Function("pointer of a text", Str, VRef)


class Stream(Model):
    """std::stringstream to which one thing is written: the text of a pointer, or a literal"""
    def comps(self):
        return {"": Str}

    def default(self, st):
        return V(self.ct, {"": lit_str([])})

    def construct(self, st, args, e):
        if args:
            raise Unsupported("stream with content")
        return [(st, self.default(st))]

    def op(self, st, name, vs, e):
        if name != "operator<<":
            return None
        eng = self.eng
        if not eng.load(st, vs[0]).t.eq(lit_str([])):
            raise Unsupported("more than one text in a stream")
        x = eng.load(st, vs[1])
        if x.meta.get("str") is not None:
            t = lit_str(x.meta["str"])
        elif x.ct.ptr and "" in x.c and x.t.sort() == VRef:
            t = addr_text(x.t)
            eng.assumptions.add("the text a stream gives for a pointer is that of no other pointer, and no word")
            n = lit_str([ord(b) for b in "null"])
            st.assume(addr_of(t) == x.t, t != n)
        else:
            raise Unsupported("%s written to a stream" % x.ct)
        eng.store(st, vs[0], V(vs[0].ct, {"": t}))
        return [(st, vs[0])]

    def method(self, st, obj, name, args, node):
        if name == "str":
            return [(st, V(CT("std::string"), {"": self.eng.load(st, obj).t}))]
        r = self.op(st, name, [obj] + list(args), node)
        if r is None:
            raise Unsupported("%s::%s" % (self.ct, name))
        return r


def vmodel(ct, eng):
    if ct.ptr:
        return None
    n = ct.name
    if n == "std::string":
        return Plain(ct, eng, Str, lit_str([]))
    if n == "AnyT":
        return Plain(ct, eng, Val, anydef)
    if n in ("std::type_index", "std::type_info"):
        return Plain(ct, eng, Ty)
    if n == "DataSaver":
        return Plain(ct, eng, Val, NOVAL)
    if n in ("ReadLock", "WriteLock", "RecursiveReadWriteMutex", "ReadWriteMutex", "std::recursive_mutex", "std::lock_guard"):
        return Nothing(ct, eng)
    if n in ("std::unordered_set", "std::set"):
        return SetModel(ct, eng)
    if n in ("std::unordered_map", "std::map"):
        return Dict(ct, eng)
    if n in ("DataHashMap", "DataMap") or n == "DataContainer":
        return Named(ct, eng)
    if n in ("UnorderedMap", "Map"):
        return Index(ct, eng)
    if n in ("std::hash_iterator", "std::tree_iterator", "std::list_iterator", "std::vector_iterator", "AllMapIterator"):
        return It(ct, eng)
    if n == "std::pair":
        return Pair(ct, eng)
    if n in ("std::vector", "std::list"):
        return Seq(ct, eng)
    if n == "std::function":
        return Func(ct, eng)
    if n.replace("basic_", "").split("<")[0] in ("std::stringstream", "std::ostream", "std::iostream"):
        return Stream(ct, eng)


AXIOMS = [
    forall([Val], lambda a: unrank(rank(a)) == a, lambda a: [rank(a)]),        # < is a strict total order which == agrees with
    forall([HP], lambda h: asH(ptrH(h)) == h, lambda h: [ptrH(h)]),
    forall([TP], lambda h: asT(ptrT(h)) == h, lambda h: [ptrT(h)]),
    ty(anydef) == tyT, asH(NOVAL) == nul(HP), asT(NOVAL) == nul(TP),
    forall([arr(Int, Str), Int, Str, Int], lambda a, n, k, i: imp(z3.And(i >= 0, i < n, a[i] == k), z3.And(kpos(a, n, k) >= 0, kpos(a, n, k) < n, a[kpos(a, n, k)] == k)), lambda a, n, k, i: [(a[i], kpos(a, n, k))]),
]
