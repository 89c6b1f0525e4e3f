"""Symbolic execution of the clang AST of the real functions into proof obligations.

Every function under contract is executed on symbolic inputs that satisfy its precondition; calls to functions under
contract are replaced by their contracts, calls to others are inlined, loops are cut by invariants (or unrolled when the
bound is a constant), and library classes are replaced by the models of stdmodel.py (assumed contracts)."""
import z3
from . import cast
from .cast import CT, INTS, ctype, parse_type, canon
from .core import *

MAXUNROLL = 80


def rng(ct):
    w, s = INTS[ct.name]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def is_int(ct):
    return ct.ptr == 0 and ct.name in INTS and ct.name != "bool"


def simp(t):
    return z3.simplify(t)


def div_const(x, n):
    """x / n for a positive constant; (a / m) / n is a / (m * n)"""
    x = simp(x)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
        return div_const(x.arg(0), x.arg(1).as_long() * n)
    return x / n


class Ob:
    __slots__ = ("name", "pc", "goal", "hints")

    def __init__(self, name, pc, goal, hints=None):
        self.name, self.pc, self.goal, self.hints = name, pc, goal, hints


class Fn:
    """A function value: a lambda with its captured variables, or a named function."""
    def __init__(self, kind, node, env=None, tu=None, this=None):
        self.kind, self.node, self.env, self.tu, self.this = kind, node, env, tu, this


class FuncInfo:
    def __init__(self, tu, node, cls, key):
        self.tu, self.node, self.cls, self.key = tu, node, cls, key


class Contract:
    """pre(c) and post(c) yield (name, formula) or formulas; frame(c) names what a call may change."""
    key = None
    inline = False

    def pre(self, c):
        return ()

    def post(self, c):
        return ()


class Unit:
    """What one verification run needs to know: translation units, type models, contracts, loop invariants."""
    def __init__(self, name):
        self.name = name
        self.models = []          # callables ct -> Model or None
        self.contracts = {}       # function key -> Contract
        self.loops = {}           # function key -> LoopSpec selector
        self.hooks = {}           # function key or std name -> handler(eng, st, call)
        self.ignore_fields = set()
        self.heapclass = {}       # class -> (heap name, ref sort)
        self.axioms = []
        self.ghost = {}
        self.opaque_types = {}
        self.destroyed = set()    # classes whose destructors count: hook "temporary destroyed"


class Model:
    """A library class."""
    def __init__(self, ct, eng):
        self.ct, self.eng = ct, eng

    def comps(self):
        return {}

    def default(self, st):
        raise Unsupported("default value of %s" % self.ct)

    def method(self, st, obj, name, args, node):
        raise Unsupported("%s::%s" % (self.ct, name))

    def wf(self, v):
        """what holds of every value of the type"""
        return []

    def moved(self, st, lv):
        """the location was moved from: by default the value stays"""


def func_params(node):
    return [c for c in node.get("inner", ()) if c.get("kind") == "ParmVarDecl"]


def func_body(node):
    for c in node.get("inner", ()):
        if c.get("kind") == "CompoundStmt":
            return c
    return None


class Engine:
    def __init__(self, unit, tus):
        self.u = unit
        self.tus = tus
        self.obs = []
        self.muted = 0
        self.current = None
        self.depth = 0
        self.fn_by_mangled = {}
        self.fns = {}
        self.assumptions = set()
        self.inlined = set()
        self.under = set()
        self.layouts = {}
        self._cell = 0
        self.covers = []
        self.loopstack = []
        self.feas_cache = {}
        for tu in tus:
            for m, n in tu.func.items():
                if m not in self.fn_by_mangled:
                    self.fn_by_mangled[m] = (tu, n)
        self.classes = {}
        for tu in tus:
            for i, d in tu.decl.items():
                if d.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and d.get("completeDefinition") and d.get("name"):
                    nm = self.record_name(d)
                    self.classes.setdefault(nm, (tu, d))
        for m, (tu, n) in self.fn_by_mangled.items():
            k = self.fkey(tu, n)
            self.fns.setdefault(k, []).append(FuncInfo(tu, n, None, k))

    # ------------------------------------------------------------ names
    def record_name(self, d):
        nm = d["name"]
        if d["kind"] == "ClassTemplateSpecializationDecl":
            args = [canon(parse_type(a["type"].get("desugaredQualType") or a["type"]["qualType"])) for a in d.get("inner", ()) if a.get("kind") == "TemplateArgument" and "type" in a]
            return str(canon(CT(nm, args)))
        return nm

    def owner(self, tu, n):
        """name of the class a function belongs to"""
        p = tu.parent.get(n.get("id"))
        pid = n.get("parentDeclContextId")
        if pid and pid in tu.decl:
            p = tu.decl[pid]
        while p is not None and p.get("kind") not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            if p.get("kind") == "NamespaceDecl":
                return None
            p = tu.parent.get(p.get("id"))
        return p

    def fkey(self, tu, n):
        o = self.owner(tu, n)
        nm = n.get("name", "?")
        if o is not None:
            nm = o.get("name", "?") + "::" + nm
        ta = []
        for a in n.get("inner", ()):
            if a.get("kind") == "TemplateArgument" and "type" in a:
                ta.append(str(canon(parse_type(a["type"].get("desugaredQualType") or a["type"]["qualType"]))))
        ps = func_params(n)
        return "%s/%d" % (nm, len(ps)) + ("<%s>" % ",".join(ta) if ta else "")

    def contract(self, key, node):
        """contract of a function; overloads of one key are told apart by their nodes"""
        k = self.u.contracts.get(key)
        if isinstance(k, list):
            k = next((c for c in k if c.pred is None or c.pred(node)), None)
        return k

    def find(self, key, pred=None):
        l = [f for f in self.fns.get(key, ()) if pred is None or pred(f.node)]
        if len(l) != 1:
            raise Unattached("function %s: %d definitions" % (key, len(l)))
        return l[0]

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, hints=None):
        if self.muted:
            return
        if goal is True or (z3.is_expr(goal) and z3.is_true(simp(goal))):
            self.trivial = getattr(self, "trivial", 0) + 1
            goal = z3.BoolVal(True)
        self.obs.append(Ob("%s: %s" % (self.current, name), list(st.pc), goal if z3.is_expr(goal) else z3.BoolVal(bool(goal)), hints))

    def feasible(self, st, cond=None, ms=150):
        fs = [f for f in st.pc if not has_quant(f)]
        if cond is not None:
            c = simp(cond)
            if z3.is_false(c):
                return False
            fs = fs + [c]
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(fs)
        return s.check() != z3.unsat

    def split(self, st, cond):
        """[(state, bool)] for the feasible sides"""
        cond = simp(cond)
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        out = []
        a, b = st, st.copy()
        fa, fb = self.feasible(a, cond), self.feasible(b, z3.Not(cond))
        if fa:
            a.assume(cond)
            out.append((a, True))
        if fb:
            b.assume(z3.Not(cond))
            out.append((b, False))
        return out

    # ------------------------------------------------------------ types
    def model(self, ct):
        k = "M" + str(ct)
        m = self.layouts.get(k)
        if m is None:
            m = False
            for f in self.u.models:
                m = f(ct, self)
                if m:
                    break
            self.layouts[k] = m
        return m

    def fields(self, ct):
        """[(name, CT, decl, tu)] of a user class with its bases"""
        k = "F" + str(ct)
        r = self.layouts.get(k)
        if r is not None:
            return r
        c = self.classes.get(str(ct)) or self.classes.get(ct.name)
        if c is None:
            raise Unsupported("type %s" % ct)
        tu, d = c
        out = []
        for b in d.get("bases", ()):
            t = b["type"]
            out += self.fields(canon(parse_type(t.get("desugaredQualType") or t["qualType"])))
        for f in d.get("inner", ()):
            if f.get("kind") == "FieldDecl":
                fct = ctype(f)
                if fct.name in self.u.ignore_fields or f["name"] in self.u.ignore_fields:
                    continue
                out.append((f["name"], fct, f, tu))
        self.layouts[k] = out
        return out

    def is_class(self, ct):
        return ct.ptr == 0 and (str(ct) in self.classes or ct.name in self.classes)

    def refsort(self, ct):
        """sort of pointers to ct"""
        h = self.u.heapclass.get(ct.name)
        if h:
            return h[1]
        return Int

    def comps(self, ct):
        """{suffix: sort}"""
        k = "C" + str(ct)
        r = self.layouts.get(k)
        if r is not None:
            return r
        if ct.ptr:
            o = self.u.opaque_types.get(str(ct))
            r = {"": o if o is not None else self.refsort(ct.deref())}
        elif ct.name == "bool":
            r = {"": Bool}
        elif ct.name in INTS:
            r = {"": Int}
        elif str(ct) in self.u.opaque_types or ct.name in self.u.opaque_types:
            r = {"": self.u.opaque_types[str(ct) if str(ct) in self.u.opaque_types else ct.name]}
        elif ct.name == "[]":
            r = {"at:" + s: arr(Int, t) for s, t in self.comps(ct.args[0]).items()}
        elif ct.name in ("void", "nullptr_t"):
            r = {"": Int}
        elif self.model(ct):
            r = self.model(ct).comps()
        elif self.is_class(ct):
            r = {}
            for n, fct, d, tu in self.fields(ct):
                for s, t in self.comps(fct).items():
                    r[n + "." + s] = t
        elif self.is_enum(ct):
            r = {"": Int}
        else:
            raise Unsupported("type %s" % ct)
        self.layouts[k] = r
        return r

    def is_enum(self, ct):
        for tu in self.tus:
            for d in tu.decl.values():
                if d.get("kind") == "EnumDecl" and d.get("name") == ct.name.split("::")[-1]:
                    return True
        return False

    def wf(self, v):
        """type invariants of a value (ranges of integers)"""
        ct = v.ct
        if ct.ptr:
            return []
        if ct.name in INTS and ct.name != "bool":
            lo, hi = rng(ct)
            return [v.t >= lo, v.t <= hi]
        if str(ct) in self.u.opaque_types or ct.name in self.u.opaque_types or ct.name == "[]" or ct.name == "bool":
            return []
        m = self.model(ct)
        if m:
            return m.wf(v)
        if self.is_class(ct):
            out = []
            for n, fct, d, tu in self.fields(ct):
                out += self.wf(v.sub(n + ".", fct))
            return out
        return []

    def havoc(self, ct, name):
        return V(ct, {s: fresh(name + ("." + s if s else ""), t) for s, t in self.comps(ct).items()})

    def const(self, ct, n):
        if ct.ptr == 0 and ct.name == "bool":
            return V(ct, {"": z3.BoolVal(bool(n))})
        return V(ct, {"": z3.IntVal(n)})

    def null(self, ct):
        s = self.comps(ct)[""]
        if s == Int:
            return V(ct, {"": z3.IntVal(0)})
        return V(ct, {"": nul(s)})

    # ------------------------------------------------------------ memory
    def newcell(self, st, v, name="tmp"):
        self._cell += 1
        i = "%s#%d" % (name, self._cell)
        st.cells[i] = dict(v.c)
        if v.meta:
            st.notes[("meta", i)] = v.meta
        return LV(("cell", i), v.ct)

    def base(self, st, store):
        if store[0] == "cell":
            return st.cells[store[1]]
        b = st.heap.get(store[1])
        if b is None:
            raise Unsupported("heap %s" % store[1])
        return b

    def load(self, st, x):
        if not isinstance(x, LV):
            return x
        if x.ct is None:
            raise Unsupported("load of untyped location")
        b = self.base(st, x.store)
        if x.prefix.endswith("@"):              # element of a sequence
            t = sel(b[x.prefix[:-1]], *x.keys[:-1])
            return V(x.ct, {"": seq_nth(t, x.keys[-1])})
        c = {}
        for s in self.comps(x.ct):
            t = b.get(x.prefix + s)
            if t is None:
                raise Unsupported("component %s%s of %s" % (x.prefix, s, x.store))
            c[s] = sel(t, *x.keys)
        meta = None
        if x.store[0] == "cell" and not x.prefix:
            meta = st.notes.get(("meta", x.store[1]))
        elif not x.keys:
            meta = st.notes.get(("meta", x.store[1], x.prefix))
        return V(x.ct, c, meta)

    def store(self, st, lv, v):
        if not isinstance(lv, LV):
            raise Unsupported("assignment to a value")
        if lv.store[0] == "cell":
            b = st.cells[lv.store[1]] = dict(st.cells[lv.store[1]])
        else:
            b = st.heap[lv.store[1]] = dict(st.heap[lv.store[1]])
        if lv.prefix.endswith("@"):
            k, ks = lv.prefix[:-1], list(lv.keys[:-1])
            b[k] = upd(b[k], ks, seq_upd(sel(b[k], *ks), lv.keys[-1], v.t))
            return
        for s in self.comps(lv.ct):
            if s not in v.c:
                raise Unsupported("assignment of %s to %s" % (v, lv.ct))
            if lv.keys and v.c[s].eq(sel(b[lv.prefix + s], *lv.keys)):
                continue                            # what is there already
            b[lv.prefix + s] = upd(b[lv.prefix + s], list(lv.keys), v.c[s]) if lv.keys else v.c[s]
        k = ("meta", lv.store[1]) if lv.store[0] == "cell" and not lv.prefix else ("meta", lv.store[1], lv.prefix)
        if v.meta and not lv.keys:
            st.notes[k] = v.meta
        else:
            st.notes.pop(k, None)

    def deref(self, st, p):
        """location a pointer value denotes"""
        if p.meta.get("lv") is not None:
            return p.meta["lv"]
        ct = p.ct.deref()
        h = self.u.heapclass.get(ct.name)
        if h is None:
            hk = self.u.hooks.get("deref")
            if hk:
                r = hk(self, st, p)
                if r is not None:
                    return r
            raise Unsupported("dereference of %s" % p.ct)
        self.oblige(st, "pointer is not null", p.t != nul(h[1]))
        st.assume(p.t != nul(h[1]))
        lk = self.u.hooks.get("alive")
        if lk:
            lk(self, st, h[0], p.t)
        return LV(("heap", h[0]), ct, "", (p.t,))

    def member(self, lv, name, ct=None):
        """field of a class location or value"""
        if isinstance(lv, LV):
            for n, fct, d, tu in self.fields(lv.ct):
                if n == name:
                    return lv.field(name, fct)
        else:
            for n, fct, d, tu in self.fields(lv.ct):
                if n == name:
                    return lv.sub(name + ".", fct)
        raise Unsupported("member %s of %s" % (name, lv.ct))

    # ------------------------------------------------------------ expressions
    def evs(self, es, st, rval=False):
        rs = [(st, [])]
        for e in es:
            nrs = []
            for s, vs in rs:
                for s2, v in self.ev(e, s):
                    nrs.append((s2, vs + [self.load(s2, v) if rval else v]))
            rs = nrs
        return rs

    def rv(self, e, st):
        return [(s, self.load(s, v)) for s, v in self.ev(e, st)]

    def ev(self, e, st):
        k = e["kind"]
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported("expression " + k)
        return f(e, st)

    def _through(self, e, st):
        return self.ev(e["inner"][0], st)

    def e_ExprWithCleanups(self, e, st):
        """the temporaries of a full expression are destroyed at its end"""
        h = self.u.hooks.get("temporary destroyed")
        if h is None:
            return self.ev(e["inner"][0], st)
        was = st.notes.get("temporaries", ())
        st.notes["temporaries"] = ()
        out = []
        for s, v in self.ev(e["inner"][0], st):
            ts = s.notes.get("temporaries", ())
            s.notes["temporaries"] = was
            if ts and isinstance(v, LV) and any(v.store == t.store for t in ts):
                v = self.load(s, v)
            todo = [s]
            for t in reversed(ts):
                todo = [q for r in todo for q in h(self, r, t)]
            out += [(q, v) for q in todo]
        return out
    e_ParenExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = _through

    def e_MaterializeTemporaryExpr(self, e, st):
        out = []
        for s, v in self.ev(e["inner"][0], st):
            if isinstance(v, V):
                v = self.newcell(s, v)
                if v.ct.name in self.u.destroyed and not v.ct.ptr:
                    if e.get("storageDuration") != "full expression":
                        raise Unsupported("temporary %s with a longer life" % v.ct)
                    s.notes["temporaries"] = s.notes.get("temporaries", ()) + (v,)
            out.append((s, v))
        return out

    def e_IntegerLiteral(self, e, st):
        return [(st, self.const(ctype(e), int(e["value"])))]

    def e_CharacterLiteral(self, e, st):
        v = int(e["value"])
        if v > 127 and ctype(e).name == "char":
            v -= 256
        return [(st, self.const(ctype(e), v))]

    def e_CXXBoolLiteralExpr(self, e, st):
        return [(st, V(CT("bool"), {"": z3.BoolVal(bool(e["value"]))}))]

    def e_FloatingLiteral(self, e, st):
        raise Unsupported("floating point")

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return [(st, V(CT("nullptr_t"), {"": z3.IntVal(0)}, {"null": True}))]

    def e_StringLiteral(self, e, st):
        import ast as pyast
        return [(st, V(CT("char", (), 1), {"": z3.IntVal(-1)}, {"str": c_string(e["value"])}))]

    def e_CXXThisExpr(self, e, st):
        return [(st, st.env["this"])]

    def e_CXXTypeidExpr(self, e, st):
        t = e.get("typeArg")
        if t is not None:
            ct = canon(parse_type(t.get("desugaredQualType") or t["qualType"]))
            return [(st, V(CT("std::type_info"), {}, {"typeid": ct}))]
        out = []
        for s, v in self.ev(e["inner"][0], st):
            out.append((s, V(CT("std::type_info"), {}, {"typeid": v.ct.plain() if hasattr(v.ct, "plain") else v.ct})))
        return out

    def e_DeclRefExpr(self, e, st):
        d = e["referencedDecl"]
        k = d["kind"]
        if k in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            x = st.env.get(d["id"])
            if x is not None:
                return [(st, x)]
            return [(st, self.globalvar(d, st, e))]
        if k in cast.FUNCS:
            return [(st, Fn("func", d, None, st.env["tu"]))]
        if k == "EnumConstantDecl":
            return [(st, V(ctype(e), {"": z3.IntVal(self.enum_value(st.env["tu"], d))}))]
        raise Unsupported("reference to " + k)

    def enum_value(self, tu, d):
        for x in tu.decl.values():
            if x.get("kind") == "EnumDecl":
                n = 0
                for c in x.get("inner", ()):
                    if c.get("kind") == "EnumConstantDecl":
                        for q in c.get("inner", ()):
                            if q.get("kind") == "ConstantExpr" and "value" in q:
                                n = int(q["value"])
                        if c["id"] == d["id"]:
                            return n
                        n += 1
        raise Unsupported("enum constant")

    def globalvar(self, d, st, e):
        h = self.u.hooks.get("global")
        if h:
            r = h(self, st, d, e)
            if r is not None:
                return r
        if d.get("name") == "npos":
            return V(CT("unsigned long"), {"": z3.IntVal((1 << 64) - 1)})
        full = st.env["tu"].decl.get(d["id"])
        if full is not None and full.get("inner") and "const" in full["type"]["qualType"]:
            for s, v in self.ev(full["inner"][0], st):
                return v
        if full is not None and d["id"] in st.env["tu"].decl:
            g = "global:" + d["name"]
            if g in st.cells:
                return LV(("cell", g), ctype(full))
        raise Unsupported("variable " + d.get("name", "?"))

    def e_MemberExpr(self, e, st):
        name = e["name"]
        out = []
        d = st.env["tu"].decl.get(e.get("referencedMemberDecl"))
        isfn = (d is not None and d["kind"] in cast.FUNCS) or "bound member function" in e["type"]["qualType"]
        for s, b in self.ev(e["inner"][0], st):
            if e.get("isArrow"):
                p = self.load(s, b)
                lv = self.deref(s, p) if not p.meta.get("iter") else self.iter_deref(s, p)
            else:
                lv = b
            if isinstance(lv, Fn) and isfn and name.startswith("operator "):
                out.append((s, Fn("conversion", lv, None, s.env["tu"], lv)))     # lambda to function pointer
            elif isfn:
                out.append((s, Fn("method", d if d is not None else {"name": name, "kind": "std"}, None, s.env["tu"], lv)))
            elif d is not None and d["kind"] == "VarDecl":
                out.append((s, self.globalvar(d, s, e)))
            else:
                out.append((s, self.std_member(s, lv, name)))
        return out

    def std_member(self, st, lv, name):
        m = self.model(lv.ct)
        if m:
            return m.member(st, lv, name)
        return self.member(lv, name)

    def iter_deref(self, s, p):
        return p.meta["lv"]

    def e_ArraySubscriptExpr(self, e, st):
        out = []
        for s, (b, i) in self.evs(e["inner"], st):
            i = self.load(s, i)
            if isinstance(b, LV) and b.ct.name == "[]":
                n = b.ct.args[1].name
                self.oblige(s, "array index within bounds", z3.And(i.t >= 0, i.t < int(n)))
                s.assume(i.t >= 0, i.t < int(n))
                out.append((s, b.elem("at:", i.t, b.ct.args[0])))
                continue
            p = self.load(s, b)
            if isinstance(p, V) and "arr" in p.meta:      # decayed array
                a = p.meta["arr"]
                if isinstance(a, LV):
                    n = a.ct.args[1].name
                    self.oblige(s, "array index within bounds", z3.And(i.t >= 0, i.t < int(n)))
                    s.assume(i.t >= 0, i.t < int(n))
                    out.append((s, a.elem("at:", i.t, a.ct.args[0])))
                    continue
            if isinstance(p, V) and "str" in p.meta:
                lit = p.meta["str"]
                self.oblige(s, "index within the string literal", z3.And(i.t >= 0, i.t <= len(lit)))
                s.assume(i.t >= 0, i.t <= len(lit))
                t = z3.IntVal(0)
                for j in range(len(lit) - 1, -1, -1):
                    t = z3.If(i.t == j, z3.IntVal(lit[j]), t)
                out.append((s, V(CT("char"), {"": simp(t)})))
                continue
            h = self.u.hooks.get("subscript")
            if h is None:
                raise Unsupported("subscript of %s" % p.ct)
            out.append((s, h(self, s, p, i)))
        return out

    def cast_int(self, st, v, ct):
        """value of integral type ct"""
        if ct.name == "bool":
            if v.ct.name == "bool":
                return V(ct, v.c)
            return V(ct, {"": v.t != 0})
        t = z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if v.ct.name == "bool" else v.t
        lo, hi = rng(ct)
        slo, shi = rng(v.ct) if v.ct.name in INTS and v.ct.name != "bool" else (0, 1) if v.ct.name == "bool" else (lo, hi)
        if slo >= lo and shi <= hi:
            return V(ct, {"": t})
        return V(ct, {"": self.wrap(t, ct, slo, shi)})

    def wrap(self, t, ct, slo=None, shi=None):
        t = simp(t)
        lo, hi = rng(ct)
        m = hi - lo + 1
        if z3.is_int_value(t):
            return z3.IntVal((t.as_long() - lo) % m + lo)
        if slo is not None and slo >= lo - m and shi <= hi + m:
            r = t
            if slo < lo:
                r = z3.If(t < lo, t + m, r)
            if shi > hi:
                r = z3.If(t > hi, t - m, r)
            return r
        if lo == 0:
            return t % m
        return (t - lo) % m + lo

    def e_ImplicitCastExpr(self, e, st):
        ck = e["castKind"]
        inner = e["inner"][0]
        ct = ctype(e)
        if ck == "LValueToRValue":
            return self.rv(inner, st)
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ConstructorConversion", "UserDefinedConversion"):
            return self.ev(inner, st)
        if ck == "ArrayToPointerDecay":
            out = []
            for s, v in self.ev(inner, st):
                if isinstance(v, LV):
                    out.append((s, V(CT(v.ct.args[0].name, v.ct.args[0].args, v.ct.args[0].ptr + 1), {"": z3.IntVal(-2)}, {"arr": v})))
                else:
                    out.append((s, v))
            return out
        out = []
        for s, v in self.ev(inner, st):
            if ck in ("IntegralCast",):
                out.append((s, self.cast_int(s, self.load(s, v), ct)))
            elif ck == "IntegralToBoolean":
                out.append((s, V(CT("bool"), {"": self.load(s, v).t != 0})))
            elif ck == "PointerToBoolean":
                out.append((s, V(CT("bool"), {"": self.nonnull(self.load(s, v))})))
            elif ck == "NullToPointer":
                out.append((s, self.null(ct) if str(ct) not in ("nullptr_t*",) else v))
            elif ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
                out.append((s, self.upcast(s, v, ct, e)))
            elif ck == "BitCast":
                x = self.load(s, v)
                out.append((s, V(ct, x.c, x.meta)))
            elif ck == "ToVoid":
                out.append((s, V(CT("void"), {"": z3.IntVal(0)})))
            else:
                raise Unsupported("cast " + ck)
        return out

    def upcast(self, st, v, ct, e):
        if v.ct.ptr == 0 and self.model(v.ct) and not self.is_class(ct.plain()):
            return v                            # a library class and its library base share the model
        if v.ct.ptr <= 1 and self.u.models and any(m(CT(v.ct.name, v.ct.args), self) for m in self.u.models) and not any(m(CT(ct.name, ct.args), self) for m in self.u.models):
            return v                            # the base of a class that a model stands for
        if isinstance(v, LV):
            return LV(v.store, ct.plain(), v.prefix, v.keys)
        if v.ct.ptr:
            m = dict(v.meta)
            if m.get("lv") is not None:
                l = m["lv"]
                m["lv"] = LV(l.store, ct.deref(), l.prefix, l.keys)
            return V(ct, v.c, m)
        return V(ct, {k: x for k, x in v.c.items() if k in self.comps(ct)}, v.meta)

    def e_cast(self, e, st):
        ck = e["castKind"]
        if ck in ("IntegralCast", "IntegralToBoolean", "BitCast", "PointerToBoolean", "BaseToDerived", "DerivedToBase", "ToVoid", "NullToPointer"):
            return self.e_ImplicitCastExpr(e, st)
        if ck in ("NoOp", "ConstructorConversion", "LValueToRValue", "UserDefinedConversion"):
            r = self.ev(e["inner"][0], st)
            return [(s, self.load(s, v)) for s, v in r] if ck == "LValueToRValue" else r
        raise Unsupported("cast " + ck)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXFunctionalCastExpr = e_cast

    def nonnull(self, p):
        if p.meta.get("null"):
            return z3.BoolVal(False)
        if p.meta.get("lv") is not None or "arr" in p.meta or "str" in p.meta or p.meta.get("fn") is not None:
            return z3.BoolVal(True)
        return p.t != self.null(p.ct).t

    def e_UnaryOperator(self, e, st):
        op = e["opcode"]
        out = []
        for s, v in self.ev(e["inner"][0], st):
            if op == "!":
                x = self.load(s, v)
                out.append((s, V(CT("bool"), {"": z3.Not(x.t)})))
            elif op == "-":
                x = self.load(s, v)
                out.append((s, self.arith(s, "-", self.const(ctype(e), 0), x, ctype(e))))
            elif op == "+":
                out.append((s, self.load(s, v)))
            elif op == "~":
                x = self.load(s, v)
                w, sg = INTS[ctype(e).name]
                out.append((s, V(ctype(e), {"": (-1 - x.t) if sg else ((1 << w) - 1 - x.t)})))
            elif op in ("++", "--"):
                x = self.load(s, v)
                one = self.const(CT("int"), 1)
                r = self.arith(s, "+" if op == "++" else "-", x, one, x.ct, incr=True)
                self.store(s, v, r)
                out.append((s, x if e.get("isPostfix") else v))
            elif op == "&":
                if isinstance(v, LV):
                    if v.store[0] == "heap" and not v.prefix and len(v.keys) == 1:
                        out.append((s, V(v.ct.addr(), {"": v.keys[0]})))
                    else:
                        out.append((s, V(v.ct.addr(), {"": self.addr(v)}, {"lv": v})))
                elif isinstance(v, Fn):
                    out.append((s, v))
                else:
                    raise Unsupported("address of a value")
            elif op == "*":
                p = self.load(s, v)
                if isinstance(p, Fn):
                    out.append((s, p))
                else:
                    out.append((s, self.deref(s, p)))
            else:
                raise Unsupported("unary " + op)
        return out

    def addr(self, lv):
        ref = self.u.heapclass.get(lv.ct.name)
        sort = ref[1] if ref else Int
        return z3.Const("addr_%s_%s_%s" % (lv.store[1], lv.prefix, "_".join(map(str, lv.keys))), sort)

    def arith(self, st, op, a, b, ct, incr=False):
        x = z3.If(a.t, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(a.t) else a.t
        y = z3.If(b.t, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(b.t) else b.t
        lo, hi = rng(ct)
        signed = lo < 0
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op in ("/", "%"):
            self.oblige(st, "divisor is not zero", y != 0)
            if signed:
                # C++ truncates
                q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
                if z3.is_int_value(simp(y)) and simp(y).as_long() > 0:
                    q = z3.If(x >= 0, x / y, -((-x) / y))
                r = q if op == "/" else x - q * y
            else:
                r = (div_const(x, simp(y).as_long()) if z3.is_int_value(simp(y)) and simp(y).as_long() > 0 else x / y) if op == "/" else x % y
        elif op == "&":
            ys, xs = simp(y), simp(x)
            if z3.is_int_value(xs) and not z3.is_int_value(ys):
                xs, ys = ys, xs
                x, y = y, x
            if z3.is_int_value(ys) and not signed and (ys.as_long() & (ys.as_long() + 1)) == 0:
                r = x % (ys.as_long() + 1)
            else:
                raise Unsupported("bitwise and")
        elif op == ">>":
            ys = simp(y)
            if z3.is_int_value(ys) and 0 <= ys.as_long() < INTS[ct.name][0]:
                r = div_const(x, 1 << ys.as_long())
            else:
                raise Unsupported("shift")
        elif op == "<<":
            ys = simp(y)
            if z3.is_int_value(ys) and 0 <= ys.as_long() < INTS[ct.name][0]:
                r = x * (1 << ys.as_long())
            else:
                raise Unsupported("shift")
        elif op == "|":
            r = self.bit_or(st, x, y, ct)
        else:
            raise Unsupported("operator " + op)
        r = simp(r)
        if signed:
            if incr and hi < (1 << 31) - 1:
                return V(ct, {"": self.wrap(r, ct)})
            if not z3.is_int_value(r) or not lo <= r.as_long() <= hi:
                self.oblige(st, "no signed overflow", z3.And(r >= lo, r <= hi))
                st.assume(r >= lo, r <= hi)
            return V(ct, {"": r})
        if op in ("+", "-"):
            r = self.wrap(r, ct, lo - hi if op == "-" else lo, hi * 2 if op == "+" else hi)
        elif op in ("*", "<<"):
            r = self.wrap(r, ct)
        return V(ct, {"": r})

    def bit_or(self, st, x, y, ct):
        xs, ys = simp(x), simp(y)
        if z3.is_int_value(xs) and not z3.is_int_value(ys):
            xs, ys, x, y = ys, xs, y, x
        if z3.is_int_value(ys):
            n = ys.as_long()
            if n > 0 and n & (n - 1) == 0:
                # setting one bit
                if not self.feasible(st, div_const(x, n) % 2 == 1, 1000):
                    return x + n
                return z3.If((x / n) % 2 == 1, x, x + n)
        raise Unsupported("bitwise or")

    def e_BinaryOperator(self, e, st):
        op = e["opcode"]
        a, b = e["inner"]
        ct = ctype(e)
        if op in ("&&", "||"):
            out = []
            for s, x in self.rv(a, st):
                # no effects on the right: one formula instead of two paths
                s2 = s.copy()
                n0, mark = len(self.obs), len(s2.pc)
                s2.assume(x.t if op == "&&" else z3.Not(x.t))
                sub = self.rv(b, s2)
                if len(sub) == 1 and self.same_mem(s, sub[0][0]):
                    s3, y = sub[0]
                    for extra in s3.pc[mark + 1:]:
                        s.assume(z3.Implies(x.t if op == "&&" else z3.Not(x.t), extra))
                    # laws and names hold on the right side only
                    s.cells = s3.cells
                    s.notes = {k: v for k, v in s3.notes.items() if k in s.notes or not (isinstance(k, tuple) and k[0] in ("name", "laws"))}
                    out.append((s, V(CT("bool"), {"": z3.And(x.t, y.t) if op == "&&" else z3.Or(x.t, y.t)})))
                    continue
                del self.obs[n0:]
                for s4, side in self.split(s, x.t):
                    if side == (op == "||"):
                        out.append((s4, V(CT("bool"), {"": z3.BoolVal(side)})))
                    else:
                        out += self.rv(b, s4)
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(a, st):
                out += self.ev(b, s)
            return out
        if op == "=":
            out = []
            for s, (l, r) in self.evs([a, b], st):
                r = self.load(s, r)
                r = self.retarget(r, l.ct)
                self.store(s, l, r)
                out.append((s, l))
            return out
        out = []
        for s, (x, y) in self.evs([a, b], st):
            x, y = self.load(s, x), self.load(s, y)
            out.append((s, self.binop(s, op, x, y, ct)))
        return out

    def same_mem(self, a, b):
        if a.heap is not b.heap and any(a.heap[k] is not b.heap.get(k) for k in a.heap):
            return False
        return all(b.cells.get(k) is v for k, v in a.cells.items()) and b.ctl is None

    def retarget(self, v, ct):
        """null pointer constants take the type they are used as"""
        if v.meta.get("null") and ct.ptr:
            return self.null(ct)
        if v.meta.get("null") and self.comps(ct).get("") is not None and self.comps(ct)[""] != Int:
            return V(ct, {"": nul(self.comps(ct)[""])})
        return v

    def binop(self, s, op, x, y, ct):
        if op in ("==", "!="):
            if x.ct.ptr or y.ct.ptr or x.meta.get("null") or y.meta.get("null"):
                if y.meta.get("null") or (not y.meta and x.meta and y.ct.ptr and z3.is_expr(y.t) and y.t.eq(self.null(y.ct).t)):
                    r = z3.Not(self.nonnull(x))
                elif x.meta.get("null"):
                    r = z3.Not(self.nonnull(y))
                elif x.meta.get("lv") is not None and y.meta.get("lv") is not None:
                    r = z3.BoolVal(x.meta["lv"].same(y.meta["lv"])) if x.meta["lv"].store[0] == "cell" or y.meta["lv"].store[0] == "cell" else x.t == y.t
                else:
                    r = x.t == y.t
                return V(CT("bool"), {"": r if op == "==" else z3.Not(r)})
            xt, yt = x.t, y.t
            if z3.is_bool(xt) != z3.is_bool(yt):
                xt = z3.If(xt, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(xt) else xt
                yt = z3.If(yt, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(yt) else yt
            r = xt == yt
            return V(CT("bool"), {"": r if op == "==" else z3.Not(r)})
        if op in ("<", "<=", ">", ">="):
            r = {"<": lambda: x.t < y.t, "<=": lambda: x.t <= y.t, ">": lambda: x.t > y.t, ">=": lambda: x.t >= y.t}[op]()
            return V(CT("bool"), {"": r})
        if not is_int(ct):
            raise Unsupported("operator %s on %s" % (op, ct))
        return self.arith(s, op, x, y, ct)

    def e_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]
        a, b = e["inner"]
        cr = e.get("computeResultType")
        rct = canon(parse_type(cr.get("desugaredQualType") or cr["qualType"])) if cr else ctype(e)
        out = []
        for s, (l, r) in self.evs([a, b], st):
            x, y = self.load(s, l), self.load(s, r)
            if not is_int(rct) and rct.name != "bool":
                raise Unsupported("compound assignment on %s" % rct)
            v = self.arith(s, op, self.cast_int(s, x, rct), y, rct)
            self.store(s, l, self.cast_int(s, v, l.ct))
            out.append((s, l))
        return out

    def e_ConditionalOperator(self, e, st):
        c, a, b = e["inner"]
        out = []
        for s, x in self.rv(c, st):
            for s2, side in self.split(s, x.t):
                out += self.ev(a if side else b, s2)
        return out

    def e_CXXDefaultArgExpr(self, e, st):
        raise Unsupported("default argument outside a call")

    def e_CXXDefaultInitExpr(self, e, st):
        raise Unsupported("default member initialiser outside a constructor")

    def e_ImplicitValueInitExpr(self, e, st):
        return [(st, self.zero(ctype(e), st))]

    def e_CXXScalarValueInitExpr(self, e, st):
        return [(st, self.zero(ctype(e), st))]

    def zero(self, ct, st):
        if ct.ptr:
            return self.null(ct)
        if ct.name == "bool":
            return V(ct, {"": z3.BoolVal(False)})
        if ct.name in INTS:
            return self.const(ct, 0)
        m = self.model(ct)
        if m:
            return m.default(st)
        if ct.name == "[]":
            e0 = self.zero(ct.args[0], st)
            return V(ct, {"at:" + k: z3.K(Int, t) for k, t in e0.c.items()})
        raise Unsupported("zero value of %s" % ct)

    def e_InitListExpr(self, e, st):
        ct = ctype(e)
        if ct.name == "[]":
            inner = e.get("inner", [])
            filler = e.get("array_filler")
            if filler:
                inner = [x for x in filler if x.get("kind") != "ImplicitValueInitExpr"]
            z = self.zero(ct.args[0], st)
            out = []
            for s, vs in self.evs(inner, st, True):
                c = {"at:" + k: z3.K(Int, t) for k, t in z.c.items()}
                for i, v in enumerate(vs):
                    for k in z.c:
                        c["at:" + k] = z3.Store(c["at:" + k], z3.IntVal(i), v.c[k])
                out.append((s, V(ct, c)))
            return out
        if len(e.get("inner", ())) == 1 and not self.is_class(ct):
            return self.ev(e["inner"][0], st)
        m = self.model(ct)
        if m and not e.get("inner"):
            return [(st, m.default(st))]
        raise Unsupported("initialiser list of %s" % ct)

    def e_CXXStdInitializerListExpr(self, e, st):
        out = []
        inner = e["inner"][0]
        while inner["kind"] in ("MaterializeTemporaryExpr", "ExprWithCleanups", "ImplicitCastExpr"):
            inner = inner["inner"][0]
        if inner["kind"] != "InitListExpr":
            raise Unsupported("initializer_list")
        for s, vs in self.evs(inner.get("inner", []), st, True):
            out.append((s, V(CT("initlist"), {}, {"items": vs})))
        return out

    # ------------------------------------------------------------ lambdas and calls
    def e_LambdaExpr(self, e, st):
        env = {}
        caps = []
        body = None
        rec = None
        for c in e["inner"]:
            if c["kind"] == "CXXRecordDecl":
                rec = c
            elif c["kind"] == "CompoundStmt":
                body = c
            else:
                caps.append(c)
        fields = [f for f in rec.get("inner", ()) if f.get("kind") == "FieldDecl"]
        out = [(st, {})]
        for i, c in enumerate(caps):
            byref = i < len(fields) and "&" in fields[i]["type"]["qualType"]
            n = []
            for s, en in out:
                for s2, v in self.ev(c, s):
                    d = c
                    while d["kind"] in ("ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr", "ParenExpr") and d.get("inner"):
                        d = d["inner"][0]
                    en2 = dict(en)
                    if d["kind"] == "CXXThisExpr":
                        en2["this"] = self.load(s2, v)
                    elif d["kind"] == "DeclRefExpr":
                        did = d["referencedDecl"]["id"]
                        if byref:
                            en2[did] = v
                        else:
                            en2[did] = self.newcell(s2, self.load(s2, v), "cap") if not isinstance(v, Fn) else v
                    n.append((s2, en2))
            out = n
        op = None
        for m in rec.get("inner", ()):
            if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                op = m
            if m.get("kind") == "FunctionTemplateDecl" and m.get("name") == "operator()":
                raise Unsupported("generic lambda")
        return [(s, Fn("lambda", {"op": op, "body": body, "expr": e}, en, s.env["tu"])) for s, en in out]

    def call_lambda(self, st, fn, args):
        env = dict(fn.env)
        env["tu"] = fn.tu
        return self.run_body(st, fn.node["op"], fn.node["body"], env, args)

    def default_arg(self, node, i):
        p = func_params(node)[i]
        for c in p.get("inner", ()):
            if "Comment" not in c["kind"] and "Attr" not in c["kind"]:
                return c
        return None

    def e_CallExpr(self, e, st):
        callee, args = e["inner"][0], e["inner"][1:]
        out = []
        for s, f in self.ev(callee, st):
            out += self.call(s, f, args, e)
        return out
    e_CXXMemberCallExpr = e_CallExpr

    def e_CXXOperatorCallExpr(self, e, st):
        callee, args = e["inner"][0], e["inner"][1:]
        out = []
        for s, f in self.ev(callee, st):
            if isinstance(f, Fn) and f.kind == "func":
                d = s.env["tu"].decl.get(f.node["id"])
                name = f.node["name"]
                if f.node["kind"] == "CXXMethodDecl" or (d is None):
                    for s2, vs in self.evs(args, s):
                        if d is not None and d["kind"] == "CXXMethodDecl" and not self.model_of(vs[0]):
                            out += self.call(s2, Fn("method", d, None, s2.env["tu"], vs[0]), vs[1:], e, done=True)
                        elif isinstance(vs[0], Fn):
                            out += self.call_value(s2, vs[0], vs[1:], e)
                        else:
                            out += self.std_op(s2, name, vs, e)
                    continue
                for s2, vs in self.evs(args, s):
                    out += self.call(s2, Fn("func", d, None, s2.env["tu"]), vs, e, done=True)
                continue
            raise Unsupported("operator call")
        return out

    def model_of(self, v):
        if isinstance(v, Fn):
            return None
        return self.model(v.ct) if v.ct.ptr == 0 else None

    def std_op(self, st, name, vs, e):
        a = vs[0]
        h = self.u.hooks.get(name)
        if h:
            r = h(self, st, vs, e)
            if r is not None:
                return r
        for v in vs:
            m = self.model_of(v)
            if m and hasattr(m, "op"):
                r = m.op(st, name, vs, e)
                if r is not None:
                    return r
        raise Unsupported("%s on %s" % (name, [getattr(v, "ct", v) for v in vs]))

    def call(self, st, f, args, e, done=False):
        """args: expressions, or values when done"""
        if not isinstance(f, Fn):
            out = []
            if isinstance(f, (V, LV)):
                for s, vs in ([(st, args)] if done else self.evs(args, st)):
                    out += self.call_value(s, self.load(s, f), vs, e)
                return out
            raise Unsupported("call of a value")
        if f.kind == "lambda":
            out = []
            for s, vs in ([(st, args)] if done else self.evs(args, st)):
                out += self.call_lambda(s, f, vs)
            return out
        if f.kind == "conversion":
            h = self.u.hooks.get("function pointer")
            return h(self, st, f.this, e) if h else [(st, f.this)]
        node = f.node
        tu = f.tu
        defn = None
        if node.get("kind") != "std":
            full = tu.decl.get(node["id"], node)
            mn = full.get("mangledName")
            if mn in self.fn_by_mangled:
                defn = self.fn_by_mangled[mn]
            elif full.get("id") in tu.decl:
                defn = (tu, full)
        if not done:
            nargs = [a for a in args]
            out = []
            exprs = []
            for i, a in enumerate(nargs):
                if a["kind"] == "CXXDefaultArgExpr":
                    full = tu.decl.get(node["id"]) if node.get("kind") != "std" else None
                    d = None
                    if full is not None:
                        d = self.default_arg_any(tu, full, i)
                    if d is None:
                        if defn is None:
                            continue          # default argument of a library function
                        raise Unsupported("default argument")
                    a = d
                exprs.append(a)
            for s, vs in self.evs(exprs, st):
                out += self.call(s, f, vs, e, done=True)
            return out
        if defn is not None:
            n = defn[1]
            # a library type with a model stands for its own methods
            if f.kind == "method" and self.model_of(f.this) and not isinstance(f.this, Fn):
                return self.model_of(f.this).method(st, f.this, n["name"], args, e)
            return self.call_user(st, defn[0], n, f.this, args, e)
        if f.kind == "method":
            m = self.model_of(f.this)
            if not m:
                hk = self.u.hooks.get("method:" + node["name"])
                if hk:
                    return hk(self, st, f.this, args, e)
                raise Unsupported("method %s of %s" % (node["name"], getattr(f.this, "ct", None)))
            return m.method(st, f.this, node["name"], args, e)
        h = self.u.hooks.get(node["name"])
        if h:
            r = h(self, st, args, e)
            if r is not None:
                return r
        for v in args:
            m = self.model_of(v)
            if m and hasattr(m, "op"):
                r = m.op(st, node["name"], args, e)
                if r is not None:
                    return r
        raise Unsupported("function " + node["name"])

    def default_arg_any(self, tu, full, i):
        d = self.default_arg(full, i)
        if d is not None and d["kind"] not in ("CXXDefaultArgExpr",):
            return d
        # another declaration of the same function carries it
        for x in tu.decl.values():
            if x.get("kind") in cast.FUNCS and x.get("mangledName") == full.get("mangledName") and x is not full:
                ps = func_params(x)
                if i < len(ps):
                    d = self.default_arg(x, i)
                    if d is not None:
                        return d
        return None

    def call_value(self, st, f, args, e):
        if isinstance(f, Fn):
            return self.call(st, f, args, e, done=True)
        m = self.model_of(f)
        if m and hasattr(m, "invoke"):
            return m.invoke(st, f, args, e)
        if f.meta.get("fn") is not None:
            return self.call(st, f.meta["fn"], args, e, done=True)
        h = self.u.hooks.get("callptr")
        if h:
            r = h(self, st, f, args, e)
            if r is not None:
                return r
        raise Unsupported("call through %s" % getattr(f, "ct", f))

    def call_user(self, st, tu, n, this, args, e):
        key = self.fkey(tu, n)
        h = self.u.hooks.get(key)
        if h:
            r = h(self, st, this, args, e)
            if r is not None:
                return r
        c = self.contract(key, n)
        if c is not None and not hasattr(c, "apply"):
            c = c(self, st, this, args)
        if c is not None and not c.inline:
            return c.apply(self, st, this, args, e)
        body = func_body(n)
        if body is None:
            raise Unsupported("no definition of " + key)
        self.inlined.add(key)
        return self.inline(st, tu, n, this, args)

    def inline(self, st, tu, n, this, args):
        env = {"tu": tu, "fkey": self.fkey(tu, n)}
        if this is not None:
            env["this"] = self.this_ptr(this)
        self.depth += 1
        if self.depth > 30:
            raise Unsupported("inlining too deep at " + env["fkey"])
        try:
            if n["kind"] == "CXXConstructorDecl":
                return self.run_ctor(st, tu, n, this, args, env)
            return self.run_body(st, n, func_body(n), env, args)
        finally:
            self.depth -= 1

    def this_ptr(self, lv):
        if isinstance(lv, V):
            if lv.ct.ptr:
                return lv
            raise Unsupported("method of a temporary")
        if lv.store[0] == "heap" and not lv.prefix and len(lv.keys) == 1:
            return V(lv.ct.addr(), {"": lv.keys[0]})
        return V(lv.ct.addr(), {"": self.addr(lv)}, {"lv": lv})

    def bind_params(self, st, n, env, args):
        ps = func_params(n)
        if len(args) < len(ps):
            raise Unsupported("missing arguments of " + n.get("name", "?"))
        for p, a in zip(ps, args):
            q = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            pct = ctype(p)
            if isinstance(a, Fn):
                env[p["id"]] = a
                continue
            if pct.ref or "&" in q:
                if isinstance(a, V):
                    a = self.newcell(st, self.retarget(a, pct), p.get("name", "arg"))
                elif isinstance(a, LV) and a.ct.ptr == 0 and pct.name != a.ct.name and self.is_class(pct.plain()) and self.is_class(a.ct):
                    a = LV(a.store, pct.plain(), a.prefix, a.keys)
                env[p["id"]] = a
            else:
                v = self.load(st, a)
                env[p["id"]] = self.newcell(st, self.retarget(v, pct), p.get("name", "arg"))

    def run_body(self, st, n, body, env, args):
        saved = st.env
        self.bind_params(st, n, env, args)
        env.setdefault("this", saved.get("this") if saved else None)
        env.setdefault("fkey", saved.get("fkey") if saved else None)
        env["loopno"] = [0]
        st.env = env
        out = []
        rt = parse_type(n["type"]["qualType"]) if "type" in n else CT("void")
        for s in self.run([body], [st]):
            r = s.ret
            ctl = s.ctl
            s.ctl = s.ret = None
            s.env = saved
            if ctl == "return" and r is not None:
                out.append((s, r))
            else:
                out.append((s, V(CT("void"), {"": z3.IntVal(0)})))
        return out

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, e, st):
        ct = ctype(e)
        args = [a for a in e.get("inner", ()) if a["kind"] != "CXXDefaultArgExpr"]
        m = self.model(ct)
        if ct.name == "[]":
            raise Unsupported("array construction")
        if m:
            out = []
            for s, vs in self.evs(args, st):
                vs2 = [x if isinstance(x, Fn) else x for x in vs]
                if len(vs2) == 1 and not isinstance(vs2[0], Fn) and vs2[0].ct.ptr == 0 and vs2[0].ct.plain() == ct.plain():
                    v = self.load(s, vs2[0])
                    if isinstance(vs2[0], LV) and "&&" in (e.get("ctorType", {}).get("qualType", "")):
                        m.moved(s, vs2[0])
                    out.append((s, V(ct, v.c, v.meta)))
                    continue
                out += m.construct(s, vs2, e)
            return out
        if self.is_class(ct):
            h = self.u.hooks.get("construct:" + ct.name)
            if h:
                r = h(self, st, args, e)
                if r is not None:
                    return r
            return self.construct(st, ct, e, args)
        if len(args) == 1:
            return self.rv(args[0], st)
        raise Unsupported("construction of %s" % ct)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def find_ctor(self, st, ct, e):
        tu, d = self.classes.get(str(ct)) or self.classes[ct.name]
        want = e.get("ctorType", {}).get("qualType")
        cs = [(tu, c) for c in d.get("inner", ()) if c.get("kind") == "CXXConstructorDecl"]
        for t in d.get("inner", ()):
            if t.get("kind") == "FunctionTemplateDecl":
                cs += [(tu, c) for c in t.get("inner", ()) if c.get("kind") == "CXXConstructorDecl"]
        for t, c in cs:
            if c["type"]["qualType"] == want:
                return t, c
        # constructors of templates: match by number of parameters
        if want is not None:
            w = want.replace(" noexcept", "")
            for t, c in cs:
                if c["type"]["qualType"].replace(" noexcept", "") == w:
                    return t, c
        return None

    def construct(self, st, ct, e, args):
        """user class in a new cell; the value is returned"""
        r = self.find_ctor(st, ct, e)
        if r is None:
            raise Unsupported("constructor of %s" % ct)
        tu, c = r
        out = []
        exprs = []
        for i, a in enumerate(e.get("inner", ())):
            if a["kind"] == "CXXDefaultArgExpr":
                a = self.default_arg_any(tu, c, i)
                if a is None:
                    raise Unsupported("default argument of a constructor")
            exprs.append(a)
        for s, vs in self.evs(exprs, st):
            out += self.construct_at(s, ct, tu, c, vs, e)
        return out

    def implicit(self, c):
        return c.get("isImplicit") or c.get("explicitlyDefaulted") == "default"

    def construct_at(self, st, ct, tu, c, vs, e, lv=None):
        h = self.u.hooks.get("ctor:" + ct.name)
        if h:
            r = h(self, st, c, vs, e, lv)
            if r is not None:
                return r
        if self.implicit(c) and not any(x.get("kind") == "CXXCtorInitializer" for x in c.get("inner", ())) and len(vs) == 1:
            return [(st, self.load(st, vs[0]))]              # member-wise copy or move
        if self.implicit(c) and len(vs) == 1 and func_params(c):
            v = self.load(st, vs[0])
            if "&&" in c["type"]["qualType"] and isinstance(vs[0], LV):
                self.move_out(st, vs[0])
            return [(st, V(ct, v.c))]
        cell = self.newcell(st, self.havoc(ct, "new_" + ct.name), ct.name)
        mn = c.get("mangledName")
        t2, d2 = self.fn_by_mangled.get(mn, (tu, c))
        key = self.fkey(t2, d2)
        k = self.contract(key, d2)
        out = []
        if k is not None and not k.inline:
            for s, _ in k.apply(self, st, cell, vs, e):
                out.append((s, self.load(s, cell)))
            return out
        for s, _ in self.inline(st, t2, d2, cell, vs):
            out.append((s, self.load(s, cell)))
        return out

    def move_out(self, st, lv):
        for n, fct, d, tu in self.fields(lv.ct):
            m = self.model(fct)
            if m:
                m.moved(st, lv.field(n, fct))

    def run_ctor(self, st, tu, n, this, args, env):
        saved = st.env
        if isinstance(this, V) and this.ct.ptr:
            this = this.meta.get("lv") or self.deref(st, this)
        self.bind_params(st, n, env, args)
        env["loopno"] = [0]
        st.env = env
        states = [st]
        inits = [c for c in n.get("inner", ()) if c.get("kind") == "CXXCtorInitializer"]
        seen = set()
        ct = this.ct
        if any("delegatingInit" in i for i in inits):
            for i in inits:
                ns = []
                for s in states:
                    x = i["inner"][0]
                    while x["kind"] in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
                        x = x["inner"][0]
                    r = self.find_ctor(s, ct, x)
                    for s2, vs in self.evs([a for a in x.get("inner", ())], s):
                        t2, d2 = self.fn_by_mangled.get(r[1].get("mangledName"), r)
                        for s3, _ in self.inline(s2, t2, d2, this, vs):
                            ns.append(s3)
                states = ns
        else:
            done = {}
            for i in inits:
                if "anyInit" in i:
                    done[i["anyInit"]["name"]] = i["inner"][0]
                elif "baseInit" in i:
                    b = canon(parse_type(i["baseInit"].get("desugaredQualType") or i["baseInit"]["qualType"]))
                    x = i["inner"][0]
                    while x["kind"] in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
                        x = x["inner"][0]
                    ns = []
                    for s in states:
                        blv = LV(this.store, b, this.prefix, this.keys) if isinstance(this, LV) else this
                        r = self.find_ctor(s, b, x) if self.is_class(b) else None
                        if r is None:
                            ns.append(s)
                            continue
                        for s2, vs in self.evs([a for a in x.get("inner", ()) if a["kind"] != "CXXDefaultArgExpr"], s):
                            t2, d2 = self.fn_by_mangled.get(r[1].get("mangledName"), r)
                            if self.implicit(d2) and len(vs) == 1:
                                self.store(s2, blv, self.load(s2, vs[0]))
                                ns.append(s2)
                                continue
                            for s3, _ in self.inline(s2, t2, d2, blv, vs):
                                ns.append(s3)
                    states = ns
            own = self.own_fields(ct)
            for name, fct, d, ftu in own:
                x = done.get(name)
                if x is not None and x["kind"] == "CXXDefaultInitExpr":
                    x = None
                if x is None:
                    x = next((c for c in d.get("inner", ()) if "Comment" not in c["kind"] and "Attr" not in c["kind"]), None) if d.get("hasInClassInitializer") else None
                flv = this.field(name, fct)
                ns = []
                for s in states:
                    if x is None:
                        m = self.model(fct)
                        if m:
                            self.store(s, flv, m.default(s))
                        ns.append(s)
                        continue
                    old = s.env
                    for s2, v in self.ev(x, s):
                        self.store(s2, flv, self.retarget(self.load(s2, v), fct))
                        ns.append(s2)
                states = ns
        body = func_body(n)
        if body is not None:
            states = self.run([body], states)
        out = []
        for s in states:
            s.ctl = s.ret = None
            s.env = saved
            out.append((s, V(CT("void"), {"": z3.IntVal(0)})))
        return out

    def own_fields(self, ct):
        c = self.classes.get(str(ct)) or self.classes[ct.name]
        tu, d = c
        ids = {f.get("id") for f in d.get("inner", ()) if f.get("kind") == "FieldDecl"}
        return [f for f in self.fields(ct) if f[2].get("id") in ids]

    def e_CXXNewExpr(self, e, st):
        h = self.u.hooks.get("new")
        if h is None:
            raise Unsupported("new")
        return h(self, st, e)

    def e_CXXDeleteExpr(self, e, st):
        h = self.u.hooks.get("delete")
        if h is None:
            raise Unsupported("delete")
        out = []
        for s, v in self.rv(e["inner"][0], st):
            out += h(self, s, v, e)
        return out

    # ------------------------------------------------------------ statements
    def run(self, stmts, states):
        for x in stmts:
            nxt = []
            for s in states:
                if s.ctl is not None:
                    nxt.append(s)
                else:
                    nxt += self.stmt(x, s)
            states = nxt
            if len(states) > 3000:
                raise Unsupported("too many paths")
        return states

    def stmt(self, x, st):
        k = x["kind"]
        f = getattr(self, "s_" + k, None)
        if f:
            return f(x, st)
        if hasattr(self, "e_" + k):
            return [s for s, _ in self.ev(x, st)]
        raise Unsupported("statement " + k)

    def s_CompoundStmt(self, x, st):
        inner = x.get("inner", ())
        out = self.run(inner, [st])
        # destructors with effects
        h = self.u.hooks.get("scope_end")
        if h:
            out = h(self, x, out)
        return out

    def s_NullStmt(self, x, st):
        return [st]

    def s_DeclStmt(self, x, st):
        sts = [st]
        for d in x["inner"]:
            if d["kind"] != "VarDecl":
                if d["kind"] in ("TypedefDecl", "StaticAssertDecl", "UsingDecl", "TypeAliasDecl"):
                    continue
                raise Unsupported("declaration " + d["kind"])
            ns = []
            for s in sts:
                ns += self.declare(d, s)
            sts = ns
        return sts

    def declare(self, d, st):
        q = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        ct = ctype(d)
        init = next((c for c in d.get("inner", ()) if "Comment" not in c["kind"] and "Attr" not in c["kind"]), None)
        if init is None:
            m = self.model(ct)
            v = m.default(st) if m else self.havoc(ct, d.get("name", "v"))
            st.env = dict(st.env)
            st.env[d["id"]] = self.newcell(st, v, d.get("name", "v"))
            return [st]
        out = []
        for s, v in self.ev(init, st):
            s.env = dict(s.env)
            if isinstance(v, Fn):
                s.env[d["id"]] = v
            elif ct.ref or q.rstrip().endswith("&"):
                s.env[d["id"]] = v if isinstance(v, LV) else self.newcell(s, v, d["name"])
            else:
                v = self.load(s, v)
                v = self.retarget(v, ct)
                if v.meta.get("str") is not None and ct.name == "[]":
                    lit = v.meta["str"] + [0]
                    a = z3.K(Int, z3.IntVal(0))
                    for i, ch in enumerate(lit):
                        a = z3.Store(a, z3.IntVal(i), z3.IntVal(ch))
                    v = V(ct, {"at:": a})
                if set(v.c) == set(self.comps(ct)):
                    v = V(ct, v.c, v.meta)
                s.env[d["id"]] = self.newcell(s, v, d.get("name", "v"))
            out.append(s)
        return out

    def s_IfStmt(self, x, st):
        inner = list(x["inner"])
        if x.get("hasInit") or x.get("hasVar"):
            raise Unsupported("if with declaration")
        c, th = inner[0], inner[1]
        el = inner[2] if len(inner) > 2 else None
        out = []
        for s, v in self.rv(c, st):
            for s2, side in self.split(s, v.t):
                if side:
                    out += self.stmt(th, s2)
                elif el is not None:
                    out += self.stmt(el, s2)
                else:
                    out.append(s2)
        return self.join(out)

    def join(self, states):
        return states

    def s_ReturnStmt(self, x, st):
        if not x.get("inner"):
            st.ctl = "return"
            st.ret = None
            return [st]
        out = []
        for s, v in self.ev(x["inner"][0], st):
            s.ctl = "return"
            s.ret = v if isinstance(v, Fn) or (isinstance(v, LV) and self.ret_by_ref(s)) else self.load(s, v)
            out.append(s)
        return out

    def ret_by_ref(self, st):
        return True

    def s_BreakStmt(self, x, st):
        st.ctl = "break"
        return [st]

    def s_ContinueStmt(self, x, st):
        st.ctl = "continue"
        return [st]

    def s_SwitchStmt(self, x, st):
        c, body = x["inner"][0], x["inner"][-1]
        out = []
        for s, v in self.rv(c, st):
            items = body.get("inner", ())
            # flatten: (labels, statements)
            flat = []
            for it in items:
                labels = []
                while it["kind"] in ("CaseStmt", "DefaultStmt"):
                    if it["kind"] == "CaseStmt":
                        labels.append(it["inner"][0])
                        it = it["inner"][-1]
                    else:
                        labels.append(None)
                        it = it["inner"][0]
                flat.append((labels, it))
            rest = s
            taken = []
            default = None
            remaining = [rest]
            for i, (labels, it) in enumerate(flat):
                for l in labels:
                    if l is None:
                        default = i
                        continue
                    nr = []
                    for r in remaining:
                        for r2, lv in self.rv(l, r):
                            for r3, side in self.split(r2, v.t == lv.t):
                                if side:
                                    taken.append((i, r3))
                                else:
                                    nr.append(r3)
                    remaining = nr
            for r in remaining:
                taken.append((default if default is not None else len(flat), r))
            for i, r in taken:
                for z in self.run([it for _, it in flat[i:]], [r]):
                    if z.ctl == "break":
                        z.ctl = None
                    out.append(z)
        return out

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, x, st):
        init, var, cond, inc, body = x["inner"]
        out = []
        for s in (self.stmt(init, st) if init else [st]):
            out += self.loop(x, s, cond if cond else None, inc if inc else None, body)
        return out

    def s_WhileStmt(self, x, st):
        return self.loop(x, st, x["inner"][0], None, x["inner"][-1])

    def s_DoStmt(self, x, st):
        raise Unsupported("do loop")

    def test(self, cond, s):
        """[(state, bool)]"""
        if cond is None:
            return [(s, True)]
        out = []
        for s2, v in self.rv(cond, s):
            out += self.split(s2, v.t)
        return out

    def loopspec(self, st, x, kind, loc):
        sel_ = self.u.loops.get(st.env.get("fkey")) or self.u.loops.get("*")
        return sel_(self, st, x, kind, loc) if sel_ else None

    def loop(self, x, st, cond, inc, body):
        spec = self.loopspec(st, x, "for", {})
        if spec is None:
            return self.unroll(x, st, cond, inc, body)
        return self.cut_general(st, spec, lambda h: self.test(cond, h), lambda s: self.stmt(body, s),
                                (lambda s: [q for q, _ in self.ev(inc, s)]) if inc else None)

    def unroll(self, x, st, cond, inc, body):
        out, cur = [], [st]
        for it in range(MAXUNROLL):
            nxt = []
            for s in cur:
                for s2, side in self.test(cond, s):
                    if not side:
                        out.append(s2)
                        continue
                    for s3 in self.stmt(body, s2):
                        if s3.ctl == "break":
                            s3.ctl = None
                            out.append(s3)
                        elif s3.ctl == "return":
                            out.append(s3)
                        else:
                            s3.ctl = None
                            nxt += ([q for q, _ in self.ev(inc, s3)] if inc else [s3])
            cur = nxt
            if not cur:
                return out
            if len(cur) > 64:
                break
        raise Unattached("loop in %s has no invariant" % st.env.get("fkey"))

    def changed(self, st, outs, acc):
        n = len(acc)
        for o in outs:
            for k, v in st.cells.items():
                w = o.cells.get(k)
                if w is not v and w is not None:
                    for s in v:
                        if not v[s].eq(w[s]):
                            acc.add(("cell", k, s))
            for k, v in st.heap.items():
                w = o.heap.get(k)
                if w is not v:
                    for s in v:
                        if not v[s].eq(w[s]):
                            acc.add(("heap", k, s))
        return len(acc) > n

    def havoc_set(self, st, mod):
        s = st.copy()
        for kind, k, c in mod:
            store = s.cells if kind == "cell" else s.heap
            store[k] = dict(store[k])
            store[k][c] = fresh("h_" + k.split("#")[0] + ("." + c if c else ""), store[k][c].sort())
        for kind, k, c in mod:
            if kind == "cell":
                s.notes.pop(("meta", k), None)
        return s

    def cut_general(self, st, spec, test, body, inc):
        """loop with an invariant: spec.inv(eng, entry state, state) yields (name, formula)"""
        def iteration(h):
            ends, exits = [], []
            for s2, side in test(h):
                if not side:
                    exits.append(s2)
                    continue
                for s3 in body(s2):
                    if s3.ctl in ("break", "return"):
                        if s3.ctl == "break":
                            s3.ctl = None
                        exits.append(s3)
                    else:
                        s3.ctl = None
                        ends += inc(s3) if inc else [s3]
            return ends, exits
        mod = set()
        self.muted += 1
        try:
            for _ in range(6):
                h = self.havoc_set(st, mod)
                self.assume_wf(h, mod)
                for nm, f in list(spec.inv(self, st, h)) + list(spec.facts(self, st, h)):
                    h.assume(f)
                ends, exits = iteration(h.copy())
                if not self.changed(h, ends, mod):         # what leaves the loop does not come back to its head
                    break
            else:
                raise Unsupported("loop frame does not settle")
        finally:
            self.muted -= 1
        for nm, f in spec.inv(self, st, st):
            self.oblige(st, "loop %s holds on entry: %s" % (spec.name, nm), f)
        h = self.havoc_set(st, mod)
        self.assume_wf(h, mod)
        for nm, f in list(spec.inv(self, st, h)) + list(spec.facts(self, st, h)):
            h.assume(f)
        self.cover(h, "loop %s invariant" % spec.name, st)
        dec0 = spec.decreases(self, st, h)
        ends, exits = iteration(h.copy())
        for s in ends:
            for nm, f in spec.inv(self, st, s):
                self.oblige(s, "loop %s is preserved: %s" % (spec.name, nm), f)
            if dec0 is not None:
                d1 = spec.decreases(self, st, s)
                self.oblige(s, "loop %s comes to its end" % spec.name, z3.And(dec0 >= 0, d1 < dec0))
        return exits

    def assume_wf(self, st, mod):
        """integer cells keep the range of their type"""
        for kind, k, c in mod:
            t = (st.cells if kind == "cell" else st.heap)[k][c]
            if kind == "cell" and t.sort() == Int:
                ct = st.notes.get(("ct", k))
        for did, lv in st.env.items():
            if isinstance(lv, LV) and lv.store[0] == "cell":
                if any(kind == "cell" and k == lv.store[1] for kind, k, c in mod):
                    st.assume(*self.wf(self.load(st, lv)))

    def cover(self, st, what, before=None):
        if not self.muted:
            self.covers.append(("%s: %s" % (self.current, what), list(st.pc)) + ((list(before.pc),) if before else ()))

    def s_CXXForRangeStmt(self, x, st):
        inner = x["inner"]
        # [init, range decl, begin, end, cond, inc, loop var, body]
        rdecl = inner[1]["inner"][0]
        var = inner[6]["inner"][0]
        body = inner[7]
        out = []
        for s, c in self.ev(rdecl["inner"][0], st):
            m = self.model_of(c)
            if not m or not hasattr(m, "iterate"):
                if not isinstance(c, LV) and not isinstance(c, V):
                    raise Unsupported("range-for")
                raise Unsupported("range-for over %s" % c.ct)
            out += m.iterate(s, c, var, body, x)
        return out


def c_string(lit):
    """bytes of a C string literal as signed chars"""
    s = lit[lit.index('"') + 1:-1]
    out, i = [], 0
    esc = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "f": 12, "v": 11}
    b = s.encode("utf-8")
    while i < len(b):
        ch = b[i]
        if ch == 92:
            n = chr(b[i + 1])
            if n == "x":
                j = i + 2
                while j < len(b) and chr(b[j]) in "0123456789abcdefABCDEF":
                    j += 1
                v = int(b[i + 2:j], 16)
                i = j
            elif n in "01234567":
                j = i + 1
                while j < len(b) and j < i + 4 and chr(b[j]) in "01234567":
                    j += 1
                v = int(b[i + 1:j], 8)
                i = j
            else:
                v = esc[n]
                i += 2
        else:
            v = ch
            i += 1
        out.append(v - 256 if v > 127 else v)
    return out


_hq = {}


def has_quant(f):
    i = f.get_id()
    r = _hq.get(i)
    if r is None or not r[0].eq(f):
        todo, seen, q = [f], set(), False
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                q = True
                break
            todo += t.children()
        _hq[i] = r = (f, q)
    return r[1]
