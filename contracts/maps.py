"""P22: the map wrappers act on the container of their mode and give what it gives. The standard containers and their iterators
are opaque values; their operations are functions of them (assumed contracts)."""
from .common import *

SRC = '''
#include "Map.h"
namespace mvlt {
template class ParentMap<std::multimap<int, long>, std::map<int, long>, MapIterator<int, long>, int, long>;
template class ParentMap<std::unordered_multimap<int, long>, std::unordered_map<int, long>, UnorderedMapIterator<int, long>, int, long>;
template class Map<int, long>;
template class UnorderedMap<int, long>;
template class AllMapIterator<std::multimap<int, long>::iterator, std::map<int, long>::iterator, int, long>;
template class AllMapIterator<std::multimap<int, long>::reverse_iterator, std::map<int, long>::reverse_iterator, int, long>;
inline void instances(Map<int, long>& m, UnorderedMap<int, long>& u, const int& k, const long& v, int& mk, long& mv)
{ m.Emplace(k, v); u.Emplace(k, v); m.Emplace(mk, mv); u.Emplace(mk, mv); m.Emplace(1, 2L); u.Emplace(1, 2L);
  UnorderedMapIterator<int, long> i(u.begin()), j(i); j = i; j = u.begin(); ++i; *i; i == j; i != j; i.GetContainerIterator(); i.GetMultiContainerIterator(); }
}
'''
CONTAINERS = ("std::map", "std::multimap", "std::unordered_map", "std::unordered_multimap")
ITERS = ("std::tree_iterator", "std::hash_iterator", "std::reverse_iterator")
sname = lambda ct: str(ct).replace(" ", "")


def fn(name, *sorts):
    return z3.Function(name, *sorts)


class Container(Model):
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        self.sort = Sort(sname(ct))
        self.it = Sort("iterator of " + ("hash" if "unordered" in ct.name else "tree"))
        self.rit = Sort("reverse iterator")
        self.multi = "multi" in ct.name

    def comps(self):
        return {"": self.sort}

    def empty(self):
        return z3.Const("empty " + sname(self.ct), self.sort)

    def default(self, st):
        return V(self.ct, {"": self.empty()})

    def f(self, name, *sorts):
        return fn("%s %s" % (sname(self.ct), name), self.sort, *sorts)

    def itct(self):
        return CT("std::hash_iterator" if "unordered" in self.ct.name else "std::tree_iterator", (CT("std::pair", self.ct.args[:2]),))

    def iter(self, t):
        return V(self.itct(), {"": t})

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        raise Unsupported("container constructor")

    def method(self, st, obj, name, args, node):
        eng = self.eng
        m = eng.load(st, obj).t
        a = [eng.load(st, x) for x in args]
        if name == "emplace":
            k, v = a[0].t, a[1].t
            eng.store(st, obj, V(self.ct, {"": self.f("emplace", Int, Int, self.sort)(m, k, v)}))
            it = self.iter(self.f("emplaced", Int, Int, self.it)(m, k, v))
            if self.multi:
                return [(st, it)]
            new = self.f("is new", Int, Bool)(m, k)
            return [(st, V(CT("std::pair", (self.itct(), BOOL)), {"first.": it.t, "second.": new}))]
        if name in ("begin", "end", "cbegin", "cend"):
            return [(st, self.iter(self.f(name.lstrip("c"), self.it)(m)))]
        if name in ("rbegin", "rend"):
            return [(st, V(CT("std::reverse_iterator", (self.itct(),)), {"": self.f(name, self.rit)(m)}))]
        if name in ("find", "lower_bound", "upper_bound"):
            return [(st, self.iter(self.f(name, Int, self.it)(m, a[0].t)))]
        if name == "equal_range":
            lo, hi = [self.f("equal_range " + x, Int, self.it)(m, a[0].t) for x in ("first", "second")]
            # definition: equal_range is lower_bound and upper_bound
            if "unordered" not in self.ct.name:
                st.assume(lo == self.f("lower_bound", Int, self.it)(m, a[0].t), hi == self.f("upper_bound", Int, self.it)(m, a[0].t))
            return [(st, V(CT("std::pair", (self.itct(), self.itct())), {"first.": lo, "second.": hi}))]
        if name == "erase":
            if a[0].t.sort() == Int:
                eng.store(st, obj, V(self.ct, {"": self.f("erase key", Int, self.sort)(m, a[0].t)}))
                return [(st, iv(SIZE, self.f("erased", Int, Int)(m, a[0].t)))]
            eng.store(st, obj, V(self.ct, {"": self.f("erase at", self.it, self.sort)(m, a[0].t)}))
            return [(st, self.iter(self.f("after erase", self.it, self.it)(m, a[0].t)))]
        if name == "clear":
            eng.store(st, obj, self.default(st))
            return [(st, void())]
        if name == "size":
            t = self.f("size", Int)(m)
            st.assume(t >= 0, t <= MAXLEN)
            return [(st, iv(SIZE, t))]
        if name == "empty":
            t = self.f("size", Int)(m)
            return [(st, bv(t == 0))]
        if name == "count":
            t = self.f("count", Int, Int)(m, a[0].t)
            return [(st, iv(SIZE, t))]
        raise Unsupported("%s::%s" % (self.ct.name, name))


class Iterator(Model):
    def __init__(self, ct, eng):
        Model.__init__(self, ct, eng)
        r = ct.name == "std::reverse_iterator"
        self.k = "reverse" if r else "hash" if "hash" in ct.name else "tree"
        self.sort = Sort("reverse iterator") if r else Sort("iterator of " + self.k)

    def comps(self):
        return {"": self.sort}

    def default(self, st):
        return V(self.ct, {"": fresh("it", self.sort)})

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        v = self.eng.load(st, args[0])
        return [(st, V(self.ct, v.c))]          # iterator to const iterator

    def at(self, t):
        return V(CT("std::pair", (CT("int"), CT("long"))), {"first.": fn(self.k + " key", self.sort, Int)(t), "second.": fn(self.k + " value", self.sort, Int)(t)})

    def op(self, st, name, vs, e):
        eng = self.eng
        t = eng.load(st, vs[0]).t
        if name in ("operator==", "operator!="):
            r = t == eng.load(st, vs[1]).t
            return [(st, bv(r if name == "operator==" else z3.Not(r)))]
        if name in ("operator++", "operator--"):
            f = fn("%s %s" % (self.k, name), self.sort, self.sort)
            eng.store(st, vs[0], V(self.ct, {"": f(t)}))
            if len(vs) > 1:
                return [(st, V(self.ct, {"": t}))]
            return [(st, vs[0])]
        if name == "operator*":
            return [(st, self.at(t))]
        if name == "operator->":
            return [(st, V(CT("std::pair", (CT("int"), CT("long")), 1), {"": fresh("p", Int)}, {"lv": eng.newcell(st, self.at(t))}))]
        if name == "operator=":
            eng.store(st, vs[0], eng.load(st, vs[1]))
            return [(st, vs[0])]
        if name in ("move", "forward"):
            return [(st, vs[0])]

    def method(self, st, obj, name, args, node):
        return self.op(st, name, [obj] + list(args), node)


class Pair(Model):
    def comps(self):
        out = {}
        for n, a in zip(("first.", "second."), self.ct.args):
            for s, t in self.eng.comps(a).items():
                out[n + s] = t
        return out

    def wf(self, v):
        return self.eng.wf(v.sub("first.", self.ct.args[0])) + self.eng.wf(v.sub("second.", self.ct.args[1]))

    def member(self, st, lv, name):
        a = self.ct.args[0 if name == "first" else 1]
        if isinstance(lv, LV):
            return lv.field(name, a)
        return lv.sub(name + ".", a)

    def construct(self, st, args, e):
        vs = [self.eng.load(st, a) for a in args]
        if len(vs) == 2:
            c = {}
            for n, v, a in zip(("first.", "second."), vs, self.ct.args):
                for s in self.eng.comps(a):
                    c[n + s] = v.c[s]
            return [(st, V(self.ct, c))]
        if len(vs) == 1 and set(vs[0].c) == set(self.comps()):
            return [(st, V(self.ct, vs[0].c))]
        raise Unsupported("pair")


def model(ct, eng):
    if ct.ptr:
        return None
    if ct.name in CONTAINERS:
        return Container(ct, eng)
    if ct.name in ITERS:
        return Iterator(ct, eng)
    if ct.name == "std::pair":
        return Pair(ct, eng)


def passes(eng, st, args, e):
    return [(st, args[0])]


class W(FnContract):
    """a method of a wrapper"""
    def __init__(self, key, cls, op, **k):
        FnContract.__init__(self, key, cls=cls, **k)
        self.op = op

    def modifies(self, c):
        return None

    def post(self, c):
        eng = c.eng
        n = self.op
        mode = c.f0("IsMultiMap").t
        d = {True: (c.f0("DataMultiMap"), c.f1("DataMultiMap")), False: (c.f0("DataMap"), c.f1("DataMap"))}
        a = [c.old(x).t if not isinstance(c.old(x).ct, CT) or "" in c.old(x).c else c.old(x) for x in c.args]
        yield "the mode stays", c.f1("IsMultiMap").t == mode
        for multi in (True, False):
            on = mode if multi else z3.Not(mode)
            m0, m1 = d[multi]
            M = eng.model(m0.ct)
            what = "repeated keys: " if multi else "unique keys: "
            yield what + "the other container stays", imp(on, d[not multi][1].t == d[not multi][0].t)
            same = m1.t == m0.t

            def it(v, x):
                """v is the position x of the active container"""
                cs = v.c
                return z3.And(cs["IsMultiMap."] == mode, (cs["DataMultiMapIt."] if multi else cs["DataMapIt."]) == x)
            r = c.ret
            if n == "Emplace":
                k, v = a
                new = z3.BoolVal(True) if multi else M.f("is new", Int, Bool)(m0.t, k)
                yield what + "insertion of the standard container", imp(on, z3.And(
                    m1.t == M.f("emplace", Int, Int, M.sort)(m0.t, k, v), it(r.sub("first.", None), M.f("emplaced", Int, Int, M.it)(m0.t, k, v)), r.c["second."] == new))
            elif n in ("begin", "end", "Begin", "End"):
                yield what + n, imp(on, z3.And(same, it(r, M.f(n.lower(), M.it)(m0.t))))
            elif n in ("Rbegin", "Rend"):
                yield what + n, imp(on, z3.And(same, it(r, M.f(n.lower(), M.rit)(m0.t))))
            elif n in ("Find", "LowerBound", "UpperBound"):
                s = {"Find": "find", "LowerBound": "lower_bound", "UpperBound": "upper_bound"}[n]
                yield what + n, imp(on, z3.And(same, it(r, M.f(s, Int, M.it)(m0.t, a[0]))))
            elif n == "EqualRange":
                if "unordered" in M.ct.name:
                    lo, hi = [M.f("equal_range " + x, Int, M.it)(m0.t, a[0]) for x in ("first", "second")]
                else:
                    lo, hi = M.f("lower_bound", Int, M.it)(m0.t, a[0]), M.f("upper_bound", Int, M.it)(m0.t, a[0])
                yield what + n, imp(on, z3.And(same, it(r.sub("first.", None), lo), it(r.sub("second.", None), hi)))
            elif n == "Erase key":
                yield what + n, imp(on, z3.And(m1.t == M.f("erase key", Int, M.sort)(m0.t, a[0]), r.t == M.f("erased", Int, Int)(m0.t, a[0])))
            elif n == "Erase at":
                p = c.old(c.args[0])
                x = p.c["DataMultiMapIt." if multi else "DataMapIt."]
                yield what + n, imp(z3.And(on, p.c["IsMultiMap."] == mode), z3.And(m1.t == M.f("erase at", M.it, M.sort)(m0.t, x), it(r, M.f("after erase", M.it, M.it)(m0.t, x))))
            elif n == "Clear":
                yield what + n, imp(on, m1.t == M.empty())
            elif n == "Size":
                yield what + n, imp(on, z3.And(same, r.t == M.f("size", Int)(m0.t)))
            elif n == "IsMultiContainer":
                yield what + n, z3.And(same, r.t == mode)


class Make(FnContract):
    def modifies(self, c):
        return None

    def post(self, c):
        yield "the mode chosen", c.f1("IsMultiMap").t == c.old(c.args[0]).t
        for f in ("DataMultiMap", "DataMap"):
            v = c.f1(f)
            yield f + " is empty", v.t == c.eng.model(v.ct).empty()


class I(FnContract):
    """a method of the iterator of the wrappers"""
    def __init__(self, key, cls, op, **k):
        FnContract.__init__(self, key, cls=cls, **k)
        self.op = op

    def modifies(self, c):
        return None

    def val(self, c, st):
        return c.eng.load(st, c.this).c

    def post(self, c):
        n = self.op
        a, b = self.val(c, c.s0), self.val(c, c.s1)
        F = ("IsMultiMap.", "DataMultiMapIt.", "DataMapIt.")
        same = z3.And(*[a[f] == b[f] for f in F])
        if n in ("copy", "operator="):
            o = c.old(c.args[0]).c
            yield "the value of the other", z3.And(*[b[f] == o[f] for f in F])
            yield "the other stays", z3.And(*[c.new(c.args[0]).c[f] == o[f] for f in F])
        elif n == "make":
            x, y, m = [c.old(q).t for q in c.args]
            yield "the parts given", z3.And(b[F[1]] == x, b[F[2]] == y, b[F[0]] == m)
        elif n in ("operator++", "operator--"):
            for multi in (True, False):
                on = a[F[0]] if multi else z3.Not(a[F[0]])
                f, g = (F[1], F[2]) if multi else (F[2], F[1])
                k = c.eng.model(c.eng.member(c.this, f[:-1]).ct).k
                yield "steps the position of the mode", imp(on, z3.And(b[f] == fn("%s %s" % (k, n), a[f].sort(), a[f].sort())(a[f]), b[g] == a[g], b[F[0]] == a[F[0]]))
        elif n in ("operator==", "operator!="):
            o = c.old(c.args[0]).c
            r = z3.If(a[F[0]], a[F[1]] == o[F[1]], a[F[2]] == o[F[2]])
            yield "compares the positions of the mode", c.ret.t == (r if n == "operator==" else z3.Not(r))
            yield "nothing changes", same
        elif n == "operator*":
            for multi in (True, False):
                on = a[F[0]] if multi else z3.Not(a[F[0]])
                f = F[1] if multi else F[2]
                k = c.eng.model(c.eng.member(c.this, f[:-1]).ct).k
                yield "the element at the position of the mode", imp(on, z3.And(c.ret.c["first."] == fn(k + " key", a[f].sort(), Int)(a[f]), c.ret.c["second."] == fn(k + " value", a[f].sort(), Int)(a[f])))
            yield "nothing changes", same
        else:
            yield "the position", z3.And(same, c.ret.t == a[F[2] if n == "GetContainerIterator" else F[1]])


def proof():
    u = unit("maps")
    u.models.append(model)
    u.hooks["forward"] = u.hooks["move"] = passes
    t = cast.load(SRC, "maps")
    eng = Engine(u, [t])
    p = Proof()
    par = [k for k in eng.classes if k.startswith("ParentMap<")]
    its = [k for k in eng.classes if k.startswith("AllMapIterator<")]
    if len(par) != 2 or len(its) != 3:
        raise Unattached("instances of the wrappers")

    def go(con):
        p.run(eng, con.label, lambda: verify(eng, con))
    for cls in par:
        tag = "hash" if "unordered" in cls else "tree"
        have = {k.split("::")[1].split("/")[0] for k in eng.fns if k.startswith("ParentMap::")}
        for nm in ("begin", "end", "Begin", "End", "IsMultiContainer", "Emplace", "EqualRange", "Find", "Erase", "Clear", "Size"):
            if nm not in have:
                p.undecided.append({"function": "ParentMap::" + nm, "why": "not found"})
        for key in sorted(eng.fns):
            if not key.startswith("ParentMap::"):
                continue
            for f in eng.fns[key]:
                nm = f.node["name"]
                o = eng.owner(f.tu, f.node)
                if eng.record_name(o) != cls or nm[0] in "~" or nm == "ParentMap":
                    continue
                op = nm
                if nm == "Erase":
                    op = "Erase key" if "AllMapIterator" not in f.node["type"]["qualType"].split("(")[1] else "Erase at"
                mn = f.node["mangledName"]
                go(W(key, cls, op, pred=lambda n, mn=mn: n["mangledName"] == mn, label="%s (%s)%s" % (key, tag, mn[-6:] if nm in ("Emplace", "Erase") else "")))
    for nm in ("LowerBound", "UpperBound", "Rbegin", "Rend"):
        n = 1 if "B" in nm and nm != "Rbegin" else 0
        go(W("Map::%s/%d" % (nm, n), "Map<int, long>", nm))
    for c in ("Map", "UnorderedMap"):
        go(Make("%s::%s/1" % (c, c), cls=c + "<int, long>", label=c))
    for cls in its:
        tag = "reverse" if "reverse" in cls else "hash" if "hash" in cls else "tree"
        for key in sorted(eng.fns):
            if not key.startswith("AllMapIterator::"):
                continue
            for f in eng.fns[key]:
                nm = f.node["name"]
                o = eng.owner(f.tu, f.node)
                if eng.record_name(o) != cls or nm[0] == "~" or (nm == "AllMapIterator" and not func_params(f.node)):
                    continue
                op = nm if nm != "AllMapIterator" else "make" if len(func_params(f.node)) == 3 else "copy"
                mn = f.node["mangledName"]
                go(I(key, cls, op, pred=lambda n, mn=mn: n["mangledName"] == mn, label="%s (%s)%s" % (key, tag, mn[-4:] if op in ("copy", "operator=") else "")))
    p.assumptions |= {"the code of the templates is parametric in key and value: one instance with opaque containers stands for all"}
    p.trusted |= {"operations of std::map, std::multimap, std::unordered_map, std::unordered_multimap and their iterators as functions of the container; std::pair; std::forward"}
    return p.close(eng)
