"""Contracts on functions: how they are assumed at calls and turned into obligations for bodies."""
import z3
from . import cast
from .cast import CT, ctype
from .core import *
from .sym import Fn, V, LV, FuncInfo, func_params, func_body


class Ctx:
    """One call seen from its contract: state before (s0) and after (s1), this, arguments, result."""
    def __init__(self, eng, s0, this, args):
        self.eng, self.s0, self.s1, self.this, self.args, self.ret = eng, s0, None, this, args, None

    def old(self, x):
        return self.eng.load(self.s0, x)

    def new(self, x):
        return self.eng.load(self.s1, x)

    def fld(self, st, *names):
        """field of this in a state"""
        lv = self.this
        if isinstance(lv, V) and lv.ct.ptr:
            lv = lv.meta.get("lv") or self.eng.deref(st, lv)
        for n in names:
            lv = self.eng.member(lv, n)
        return self.eng.load(st, lv)

    def f0(self, *names):
        return self.fld(self.s0, *names)

    def f1(self, *names):
        return self.fld(self.s1, *names)


class FnContract:
    """Contract of one function. Overridden: setup, pre, modifies, post, rtype."""
    inline = False

    def __init__(self, key, cls=None, pred=None, label=None):
        self.key, self.cls, self.pred, self.label = key, cls, pred, label or key

    def pre(self, c):
        return []

    def post(self, c):
        return []

    def modifies(self, c):
        """locations the call may change"""
        return []

    def result(self, c):
        return CT("void")

    def axioms(self, c):
        """facts assumed at a call beyond the postcondition: none by default"""
        return []

    # -------------------------------------------------- at a call
    def apply(self, eng, st, this, args, e):
        s0 = st.copy()
        c = Ctx(eng, s0, this, args)
        for nm, f in named(self.pre(c), "pre"):
            eng.oblige(st, "precondition of %s: %s" % (self.label, nm), f)
            st.assume(f)
        havoc_locs(eng, st, self.modifies(c))
        c.s1 = st
        rt = self.result(c)
        if isinstance(rt, (V, LV, Fn)):
            c.ret = rt
        elif rt.name == "void" and not rt.ptr:
            c.ret = V(rt, {"": z3.IntVal(0)})
        else:
            c.ret = eng.havoc(rt, "ret_" + self.label.split("/")[0].split("::")[-1])
            st.assume(*eng.wf(c.ret))
        for nm, f in named(self.post(c), "post"):
            st.assume(f)
        return [(st, c.ret)]

    # -------------------------------------------------- of the body
    def setup(self, eng, st, info):
        """(this, args) for the proof of the body"""
        this = None
        owner = eng.owner(info.tu, info.node)
        if owner is not None:
            ct = CT(owner["name"])
            if eng.is_class(ct) or self.cls:
                ct = cast.canon(cast.parse_type(self.cls)) if self.cls else ct
                if ct.name in eng.u.heapclass:
                    h = eng.u.heapclass[ct.name]
                    p = fresh("this", h[1])
                    st.assume(p != nul(h[1]))
                    this = V(ct.addr(), {"": p})
                else:
                    v = eng.havoc(ct, "this")
                    st.assume(*eng.wf(v))
                    this = eng.newcell(st, v, "this")
        args = []
        for p in func_params(info.node):
            args.append(self.param(eng, st, p))
        return this, args

    def param(self, eng, st, p):
        q = p["type"].get("desugaredQualType") or p["type"]["qualType"]
        ct = ctype(p).plain() if not ctype(p).ptr else ctype(p)
        v = eng.havoc(CT(ct.name, ct.args, ct.ptr), p.get("name", "arg"))
        st.assume(*eng.wf(v))
        return eng.newcell(st, v, p.get("name", "arg")) if "&" in q else v


def named(fs, d):
    out = []
    for i, f in enumerate(fs or ()):
        if isinstance(f, tuple):
            out.append(f)
        else:
            out.append(("%s %d" % (d, i + 1), f))
    return out


def havoc_locs(eng, st, locs):
    for l in locs:
        if isinstance(l, LV):
            v = eng.havoc(l.ct, "mod")
            eng.store(st, l, v)
            if not l.keys:
                st.assume(*eng.wf(v))
        else:                                   # ("heap", class, component)
            _, cls, comp = l
            b = st.heap[cls] = dict(st.heap[cls])
            for s in b:
                if s == comp or (comp.endswith("*") and s.startswith(comp[:-1])):
                    b[s] = fresh("mod_" + s, b[s].sort())


def verify(eng, con, init=None):
    """obligations of one function body"""
    info = eng.find(con.key, con.pred)
    return verify_node(eng, con, info, init)


def verify_node(eng, con, info, init=None):
    st = State()
    if init:
        init(eng, st)
    eng.current = con.label
    st.env = {"tu": info.tu, "fkey": con.key}
    this, args = con.setup(eng, st, info)
    c = Ctx(eng, None, this, args)
    c.s0 = st.copy()
    c.s0 = st
    for nm, f in named(con.pre(c), "pre"):
        st.assume(f)
    c.s0 = st.copy()
    eng.cover(st, "precondition can hold")
    saved = eng.u.contracts.get(con.key)
    eng.under.add(con.label)
    this_lv = this
    exits = eng.inline(st, info.tu, info.node, this_lv, list(args)) if info.node["kind"] != "LambdaExpr" else None
    n = 0
    for s, r in exits:
        n += 1
        c.s1 = s
        c.ret = r
        for nm, f in named(con.post(c), "post"):
            eng.oblige(s, "postcondition: %s" % nm, f)
        frame(eng, con, c)
    if exits:
        eng.covers.append(("%s: some path reaches the end" % con.label, [list(s.pc) for s, _ in exits]))
    elif not getattr(con, "noreturn", False):
        eng.oblige(State(), "some path reaches the end", z3.BoolVal(False))
    return n


def frame(eng, con, c):
    mods = con.modifies(c)
    if mods is None:
        return
    lvs = [m for m in mods if isinstance(m, LV)]
    hs = [m for m in mods if not isinstance(m, LV)]
    s0, s1 = c.s0, c.s1
    for k, v in s0.cells.items():
        w = s1.cells.get(k)
        if w is v or w is None:
            continue
        for comp in v:
            if v[comp].eq(w[comp]):
                continue
            if any(m.store == ("cell", k) and comp.startswith(m.prefix) for m in lvs):
                continue
            if ("cell", k) in [(a.store) for a in c.args if isinstance(a, LV)] or (isinstance(c.this, LV) and c.this.store == ("cell", k)):
                eng.oblige(s1, "frame: %s%s is not changed" % (k.split("#")[0], "." + comp if comp else ""), v[comp] == w[comp])
    for k, v in s0.heap.items():
        w = s1.heap[k]
        if w is v:
            continue
        for comp in v:
            if v[comp].eq(w[comp]):
                continue
            ok = False
            allowed = []
            for m in hs:
                if m[1] == k and (m[2] == comp or (m[2].endswith("*") and comp.startswith(m[2][:-1]))):
                    ok = True
            for m in lvs:
                if m.store == ("heap", k) and comp.startswith(m.prefix):
                    if not m.keys:
                        ok = True
                    else:
                        allowed.append(m.keys)
            if ok:
                continue
            a, b = v[comp], w[comp]
            for ks in allowed:
                a = upd(a, list(ks), sel(b, *ks))
            eng.oblige(s1, "frame: %s.%s is not changed" % (k, comp), a == b)
