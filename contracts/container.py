"""P14: the keyed containers of holders behave as maps from names to values. A holder is its abstract value here (its contracts:
contracts/saver.py); the standard containers are sets of nodes with a key and a value (assumed contracts)."""
from .common import *
from .json import type_model

HV, Node, FnP = Sort("HolderValue"), Sort("Node"), Sort("Function")
holds = z3.Function("holds", Int, FnP, HV)
empty = z3.Const("empty holder", HV)
isint = z3.Function("holds an integer", HV, Bool)
intof = z3.Function("integer of", HV, Int)
parsed = z3.Function("parsed into", HV, ISeq, HV)
parses = z3.Function("parses", HV, ISeq, Bool)
textof = z3.Function("text of holder", HV, ISeq)
NONE = nul(FnP)
SRC = '''
#include "DataContainer.h"
namespace mvlt {
typedef void (*Custom)(const void*);
template <class C> void instance(C& c, std::string& k, int& i, Custom f, DataSaver& d)
{
    c.AddData(k, i); c.AddData(k, i, f); c.SetData(k, i); c.SetData(k, i, f); c.GetData(k, i);
    c.AddDataFromDataSaver(k, d); c.SetDataFromDataSaver(k, d); c.SetDataFromString(k, k); c.GetDataSaver(k, d); c.GetDataAsString(k, k);
    c.IsData(k); c.EraseData(k); c.Clear(); c.Size();
}
template class DataContainer<std::unordered_map<std::string, DataSaver>>;
template class DataContainer<std::unordered_multimap<std::string, DataSaver>>;
template class DataContainer<std::map<std::string, DataSaver>>;
template class DataContainer<std::multimap<std::string, DataSaver>>;
inline void instances(DataHashMap& a, DataMultiHashMap& b, DataMap& c, DataMultiMap& d, std::string& k, int& i, Custom f, DataSaver& s)
{ instance(a, k, i, f, s); instance(b, k, i, f, s); instance(c, k, i, f, s); instance(d, k, i, f, s); }
}
'''


class Holder(Model):
    def comps(self):
        return {"": HV}

    def default(self, st):
        return V(self.ct, {"": empty})

    def fnp(self, st, f):
        f = self.eng.load(st, f) if not isinstance(f, Fn) else f
        if f.meta.get("null") or f.ct.name == "nullptr_t":
            return NONE
        return f.t

    def construct(self, st, args, e):
        vs = [self.eng.load(st, a) for a in args]
        if not vs:
            return [(st, self.default(st))]
        if vs[0].ct.name == "int":
            return [(st, V(self.ct, {"": holds(vs[0].t, self.fnp(st, args[1]) if len(args) > 1 else NONE)}))]
        raise Unsupported("construction of a holder")

    def op(self, st, name, vs, e):
        if name == "operator=":
            self.eng.store(st, vs[0], V(vs[0].ct, {"": self.eng.load(st, vs[1]).t}))
            return [(st, vs[0])]

    def method(self, st, obj, name, args, node):
        eng = self.eng
        t = eng.load(st, obj).t
        if name == "SetData":
            eng.store(st, obj, V(obj.ct, {"": holds(eng.load(st, args[0]).t, self.fnp(st, args[1]) if len(args) > 1 else NONE)}))
            return [(st, void())]
        if name == "ResetData":
            st.notes["reset"] = st.notes.get("reset", ()) + (t,)
            eng.store(st, obj, V(obj.ct, {"": empty}))
            return [(st, void())]
        if name == "GetData":
            x = eng.load(st, args[0])
            eng.store(st, args[0], V(x.ct, {"": z3.If(isint(t), intof(t), x.t)}))
            return [(st, bv(isint(t)))]
        if name == "Str":
            return [(st, V(CT("std::string"), {"": textof(t)}))]
        if name == "SetDataFromString":
            s = eng.load(st, args[0]).t
            eng.store(st, obj, V(obj.ct, {"": parsed(t, s)}))
            return [(st, bv(parses(t, s)))]
        raise Unsupported("DataSaver::" + name)


class NodeMap(Model):
    """std::map and its kin: nodes with a key and a value; `node` gives a node of a key when there is one"""
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        self.multi = "multi" in ct.name
        self.kt, self.vt = ct.args[0], ct.args[1]
        self.ks = eng.comps(self.kt)[""]
        self.pair = CT("std::pair", ct.args[:2])
        self.it = CT("std::hash_iterator" if "unordered" in ct.name else "std::tree_iterator", (self.pair,))

    def comps(self):
        c = {"in": arr(Node, Bool), "key": arr(Node, self.ks), "node": arr(self.ks, Node), "size": Int}
        for s, t in self.eng.comps(self.vt).items():
            c["at.second." + s] = arr(Node, t)
        return c

    def has(self, v, k):
        n = z3.Select(v.c["node"], k)
        return z3.And(z3.Select(v.c["in"], n), z3.Select(v.c["key"], n) == k)

    def laws(self, v):
        IN, K, N = v.c["in"], v.c["key"], v.c["node"]
        out = [forall([Node], lambda n: imp(IN[n], z3.And(IN[N[K[n]]], K[N[K[n]]] == K[n])), lambda n: [IN[n]]), v.c["size"] >= 0, v.c["size"] <= MAXLEN, z3.Not(IN[nul(Node)])]
        if not self.multi:
            out.append(forall([Node], lambda n: imp(IN[n], N[K[n]] == n), lambda n: [IN[n]]))
        return out

    def wf(self, v):
        return self.laws(v)

    def renode(self, st, c):
        c["node"] = fresh("node", c["node"].sort())
        for k in ("in", "key"):
            if not z3.is_const(c[k]):
                f = fresh(k, c[k].sort())
                st.assume(f == c[k])
                c[k] = f
        st.assume(*self.laws(V(self.ct, c)))

    def default(self, st):
        c = {k: fresh("empty." + k, s) for k, s in self.comps().items()}
        c["in"] = z3.K(Node, z3.BoolVal(False))
        c["size"] = z3.IntVal(0)
        return V(self.ct, c)

    def iter(self, obj, n):
        return V(self.it, {"": n}, {"of": obj})

    def place(self, obj, n):
        return LV(obj.store, self.pair, obj.prefix + "at.", obj.keys + (n,))

    def method(self, st, obj, name, args, node):
        eng = self.eng
        v = eng.load(st, obj)
        if name in ("end", "cend"):
            return [(st, self.iter(obj, nul(Node)))]
        if name == "find":
            k = eng.load(st, args[0]).t
            return [(st, self.iter(obj, z3.If(self.has(v, k), v.c["node"][k], nul(Node))))]
        if name == "count" and not self.multi:
            return [(st, iv(SIZE, z3.If(self.has(v, eng.load(st, args[0]).t), z3.IntVal(1), z3.IntVal(0))))]
        if name == "size":
            return [(st, iv(SIZE, v.c["size"]))]
        if name == "empty":
            return [(st, bv(v.c["size"] == 0))]
        if name == "clear":
            eng.store(st, obj, self.default(st))
            return [(st, void())]
        if name == "emplace":
            k, x = eng.load(st, args[0]).t, eng.load(st, args[1])
            out = []
            for s, side in ([(st, False)] if self.multi else eng.split(st, self.has(v, k))):
                if side:
                    out.append((s, V(CT("std::pair", (self.it, BOOL)), {"first.": v.c["node"][k], "second.": z3.BoolVal(False)}, {"sub": {"first.": {"of": obj}}})))
                    continue
                n = fresh("node", Node)
                s.assume(z3.Not(v.c["in"][n]), n != nul(Node))
                c = dict(v.c)
                c["in"], c["key"], c["size"] = z3.Store(c["in"], n, True), z3.Store(c["key"], n, k), c["size"] + 1
                for q in eng.comps(self.vt):
                    c["at.second." + q] = z3.Store(c["at.second." + q], n, x.c[q])
                # memory allocation succeeds and fewer than 2^62 elements fit
                self.renode(s, c)
                eng.store(s, obj, V(self.ct, c))
                s.notes["new node"] = n
                if self.multi:
                    out.append((s, self.iter(obj, n)))
                else:
                    out.append((s, V(CT("std::pair", (self.it, BOOL)), {"first.": n, "second.": z3.BoolVal(True)}, {"sub": {"first.": {"of": obj}}})))
            return out
        if name == "erase":
            x = eng.load(st, args[0])
            if x.t.sort() != Node:
                raise Unsupported("erase by key")
            eng.oblige(st, "the element erased is in the container", v.c["in"][x.t])
            st.assume(v.c["in"][x.t], v.c["size"] > 0)
            c = dict(v.c)
            c["in"], c["size"] = z3.Store(c["in"], x.t, False), c["size"] - 1
            self.renode(st, c)
            eng.store(st, obj, V(self.ct, c))
            st.notes["erased"] = st.notes.get("erased", ()) + (x.t,)
            return [(st, self.iter(obj, fresh("next", Node)))]
        raise Unsupported("%s::%s" % (self.ct.name, name))


class Iter(Model):
    def comps(self):
        return {"": Node}

    def construct(self, st, args, e):
        if len(args) == 1:
            v = self.eng.load(st, args[0])
            return [(st, V(self.ct, v.c, v.meta))]
        raise Unsupported("iterator")

    def op(self, st, name, vs, e):
        eng = self.eng
        v = eng.load(st, vs[0])
        if name in ("operator==", "operator!="):
            r = v.t == eng.load(st, vs[1]).t
            return [(st, bv(r if name == "operator==" else z3.Not(r)))]
        if name in ("operator->", "operator*"):
            obj = v.meta.get("of")
            if obj is None:
                raise Unsupported("iterator of an unknown container")
            m = eng.model(obj.ct)
            c = eng.load(st, obj)
            eng.oblige(st, "the iterator points at an element", c.c["in"][v.t])
            st.assume(c.c["in"][v.t])
            l = m.place(obj, v.t)
            return [(st, l if name == "operator*" else V(l.ct.addr(), {"": fresh("p", Int)}, {"lv": l}))]
        if name == "operator=":
            eng.store(st, vs[0], eng.load(st, vs[1]))
            return [(st, vs[0])]

    def method(self, st, obj, name, args, node):
        return self.op(st, name, [obj] + list(args), node)


class PairAt(Model):
    def comps(self):
        out = {}
        for n, a in zip(("first.", "second."), self.ct.args):
            for s, t in self.eng.comps(a).items():
                out[n + s] = t
        return out

    def member(self, st, lv, name):
        a = self.ct.args[0 if name == "first" else 1]
        return lv.field(name, a) if isinstance(lv, LV) else lv.sub(name + ".", a)


def model(ct, eng):
    if ct.ptr:
        return None
    if ct.name == "DataSaver":
        return Holder(ct, eng)
    if ct.name in ("std::map", "std::multimap", "std::unordered_map", "std::unordered_multimap"):
        return NodeMap(ct, eng)
    if ct.name in ("std::tree_iterator", "std::hash_iterator"):
        return Iter(ct, eng)
    if ct.name == "std::pair":
        return PairAt(ct, eng)


class C(FnContract):
    def __init__(self, key, cls, op, **k):
        FnContract.__init__(self, key, cls=cls, **k)
        self.op = op

    def modifies(self, c):
        return None

    def post(self, c):
        eng, n = c.eng, self.op
        a, b = c.f0("Container"), c.f1("Container")
        M = eng.model(a.ct)
        IN, K, X = "in", "key", "at.second."
        same = z3.And(*[b.c[k] == a.c[k] for k in (IN, K, X, "size")])
        args = [c.old(x) for x in c.args]
        k = args[0].t if args else None
        has = M.has(a, k) if args else None
        nd = a.c["node"][k] if args else None
        new = c.s1.notes.get("new node")
        fn = lambda i: NONE if len(args) <= i or args[i].meta.get("null") or args[i].ct.name == "nullptr_t" else args[i].t

        def added(x):
            if new is None:
                return z3.BoolVal(False)
            return z3.And(z3.Not(a.c[IN][new]), b.c[IN] == z3.Store(a.c[IN], new, True), b.c[K] == z3.Store(a.c[K], new, k), b.c[X] == z3.Store(a.c[X], new, x), b.c["size"] == a.c["size"] + 1)

        def at_key(x):
            return z3.And(b.c[IN] == a.c[IN], b.c[K] == a.c[K], b.c[X] == z3.Store(a.c[X], nd, x), b.c["size"] == a.c["size"])
        if n in ("AddData", "AddDataFromDataSaver"):
            x = holds(args[1].t, fn(2)) if n == "AddData" else args[1].t
            if M.multi:
                yield "one more value under the name", added(x)
            else:
                yield "a name present keeps its value", imp(has, same)
                yield "a new name gets the value", imp(z3.Not(has), added(x))
        elif n in ("SetData", "SetDataFromDataSaver"):
            x = holds(args[1].t, fn(2)) if n == "SetData" else args[1].t
            yield "a name present gets the value", imp(has, at_key(x))
            yield "a new name gets the value", imp(z3.Not(has), added(x))
        elif n == "SetDataFromString":
            yield "a name present takes the parsed value", imp(has, z3.And(at_key(parsed(a.c[X][nd], args[1].t)), c.ret.t == parses(a.c[X][nd], args[1].t)))
            yield "an unknown name is refused", imp(z3.Not(has), z3.And(same, z3.Not(c.ret.t)))
        elif n in ("GetData", "GetDataSaver", "GetDataAsString"):
            x = a.c[X][nd]
            o0, o1 = args[1].t, c.new(c.args[1]).t
            want = {"GetData": lambda: z3.If(isint(x), intof(x), o0), "GetDataSaver": lambda: x, "GetDataAsString": lambda: textof(x)}[n]()
            yield "nothing changes", same
            yield "tells whether the name is present", c.ret.t == has
            yield "the value of the name", imp(has, o1 == want)
            yield "refusal leaves the output", imp(z3.Not(has), o1 == o0)
        elif n == "IsData":
            yield "tells whether the name is present", z3.And(c.ret.t == has, same)
        elif n == "EraseData":
            er, rs = c.s1.notes.get("erased", ()), c.s1.notes.get("reset", ())
            yield "an unknown name changes nothing", imp(z3.Not(has), z3.And(same, z3.BoolVal(not er)))
            yield "one value of the name goes", imp(has, z3.BoolVal(len(er) == 1 and len(rs) == 1) if len(er) != 1 or len(rs) != 1 else z3.And(
                a.c[K][er[0]] == k, a.c[IN][er[0]], b.c[IN] == z3.Store(a.c[IN], er[0], False), b.c[K] == a.c[K], b.c[X] == z3.Store(a.c[X], er[0], b.c[X][er[0]]), b.c["size"] == a.c["size"] - 1))
            yield "it is reset first", imp(has, z3.BoolVal(len(rs) == 1) if len(rs) != 1 or len(er) != 1 else rs[0] == a.c[X][er[0]])
        elif n == "Clear":
            yield "empty", z3.And(b.c[IN] == z3.K(Node, z3.BoolVal(False)), b.c["size"] == 0)
        elif n == "Size":
            yield "the number of values", z3.And(same, c.ret.t == a.c["size"])


OPS = ["AddData", "AddDataFromDataSaver", "SetData", "SetDataFromDataSaver", "SetDataFromString", "GetData", "GetDataSaver", "GetDataAsString", "IsData", "EraseData", "Clear", "Size"]


def proof():
    u = unit("container")
    u.models += [type_model, model]
    u.opaque_types["fnptr"] = FnP
    u.axioms.append(forall([Int, FnP], lambda x, f: z3.And(isint(holds(x, f)), intof(holds(x, f)) == x), lambda x, f: [holds(x, f)]))
    eng = Engine(u, [cast.load(SRC, "container")])
    p = Proof()
    cs = [k for k in eng.classes if k.startswith("DataContainer<")]
    if len(cs) != 4:
        raise Unattached("instances of DataContainer")
    for cls in cs:
        found = set()
        for key in sorted(eng.fns):
            if not key.startswith("DataContainer::") or key.split("::")[1].split("/")[0] not in OPS:
                continue
            for f in eng.fns[key]:
                if eng.record_name(eng.owner(f.tu, f.node)) != cls:
                    continue
                mn, nm = f.node["mangledName"], f.node["name"]
                found.add(nm)
                con = C(key, cls, nm, pred=lambda n, mn=mn: n["mangledName"] == mn, label="%s (%s)" % (key, cls[14:cls.index("<", 15)]))
                p.run(eng, con.label, lambda: verify(eng, con))
        for m in OPS:
            if m not in found:
                p.undecided.append({"function": "DataContainer::%s of %s" % (m, cls), "why": "not found"})
    p.assumptions |= {"holders by the contracts of contracts/saver.py, as abstract values"}
    p.trusted |= {"models of std::map, std::multimap, std::unordered_map, std::unordered_multimap: sets of nodes"}
    return p.close(eng)
