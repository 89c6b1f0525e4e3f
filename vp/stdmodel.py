"""Models of the C++ library classes the code uses: these are the assumed contracts on dependencies.

Byte strings are sequences of (signed) chars, vectors of T are sequences."""
import z3
from .core import *
from .cast import CT, INTS
from .sym import Model, Fn, V, LV

VOID = CT("void")
BOOL = CT("bool")
SIZE = CT("unsigned long")
CHAR = CT("char")


def bv(t):
    return V(BOOL, {"": t})


def iv(ct, t):
    return V(ct, {"": t if z3.is_expr(t) else z3.IntVal(t)})


def void():
    return V(VOID, {"": z3.IntVal(0)})


# predicates on strings
contains = z3.Function("contains", ISeq, Int, Bool)     # the byte occurs in the string
dec = z3.Function("dec", Int, ISeq)                     # decimal text of an integer
MAXLEN = (1 << 62)


class StringModel(Model):
    """std::string as a sequence of chars; lengths are below 2^62, memory allocation succeeds."""
    def comps(self):
        return {"": ISeq}

    def default(self, st):
        return V(self.ct, {"": z3.Empty(ISeq)})

    def wf(self, v):
        return [seq_len(v.t) <= MAXLEN]

    def moved(self, st, lv):
        self.eng.store(st, lv, self.eng.havoc(self.ct, "moved"))

    def val(self, st, x):
        """sequence of a string, literal or char"""
        x = self.eng.load(st, x)
        if x.meta.get("str") is not None:
            return seq_lit(x.meta["str"])
        if x.ct.name == "char" and x.ct.ptr == 0:
            return z3.Unit(x.t)
        if x.ct.name == "std::string":
            return x.t
        if x.ct.name == "char" and x.ct.ptr == 1:
            return fresh("text", ISeq)                  # a C string of unknown content
        raise Unsupported("string from %s" % x.ct)

    def construct(self, st, args, e):
        vs = [self.eng.load(st, a) for a in args]
        if not vs:
            return [(st, self.default(st))]
        if len(vs) == 1 or (len(vs) == 2 and "allocator" in str(vs[1].ct)):
            return [(st, V(self.ct, {"": self.val(st, vs[0])}))]
        if len(vs) == 2:
            n = z3.simplify(vs[0].t)
            if z3.is_int_value(n) and n.as_long() <= 64:
                return [(st, V(self.ct, {"": seq_join([z3.Unit(vs[1].t)] * n.as_long(), ISeq)}))]
        raise Unsupported("string constructor")

    def at(self, st, obj, i):
        n = seq_len(self.eng.load(st, obj).t)
        self.eng.oblige(st, "string index within bounds", z3.And(i >= 0, i <= n))
        st.assume(i >= 0, i <= n)
        v = seq_nth(self.eng.load(st, obj).t, i)
        st.assume(v >= -128, v <= 127)
        if isinstance(obj, LV):
            return LV(obj.store, CHAR, obj.prefix + "@", obj.keys + (i,))
        return V(CHAR, {"": v})

    def method(self, st, obj, name, args, node):
        eng = self.eng
        t = eng.load(st, obj).t
        if name in ("size", "length"):
            return [(st, iv(SIZE, seq_len(t)))]
        if name == "empty":
            return [(st, bv(t == z3.Empty(ISeq)))]
        if name == "clear":
            eng.store(st, obj, self.default(st))
            return [(st, void())]
        if name in ("operator[]", "at"):
            return [(st, self.at(st, obj, eng.load(st, args[0]).t))]
        if name in ("append", "push_back"):
            if len(args) != 1:
                raise Unsupported("append")
            eng.store(st, obj, V(self.ct, {"": seq_cat(t, self.val(st, args[0]))}))
            return [(st, obj if name == "append" else void())]
        if name == "substr":
            a = eng.load(st, args[0]).t if args else z3.IntVal(0)
            n = seq_len(t)
            eng.oblige(st, "substr position within bounds", z3.And(a >= 0, a <= n))
            st.assume(a >= 0, a <= n)
            if len(args) > 1:
                c = eng.load(st, args[1]).t
                c = z3.simplify(z3.If(a + c <= n, c, n - a))
            else:
                c = z3.simplify(n - a)
            return [(st, V(self.ct, {"": seq_sub(t, a, c)}))]
        if name == "find":
            x = eng.load(st, args[0])
            if x.ct.name == "char" and x.ct.ptr == 0 and len(args) == 1:
                r = fresh("pos", Int)
                npos = z3.IntVal((1 << 64) - 1)
                st.assume(z3.If(contains(t, x.t), z3.And(r >= 0, r < seq_len(t)), r == npos))
                return [(st, iv(SIZE, r))]
        if name == "operator=":
            return self.op(st, "operator=", [obj] + list(args), node)
        if name == "operator+=":
            return self.op(st, "operator+=", [obj] + list(args), node)
        raise Unsupported("string::" + name)

    def op(self, st, name, vs, e):
        eng = self.eng
        if name == "operator[]":
            return [(st, self.at(st, vs[0], eng.load(st, vs[1]).t))]
        if name == "operator=":
            eng.store(st, vs[0], V(self.ct, {"": self.val(st, vs[1])}))
            return [(st, vs[0])]
        if name == "operator+=":
            eng.store(st, vs[0], V(self.ct, {"": seq_cat(eng.load(st, vs[0]).t, self.val(st, vs[1]))}))
            return [(st, vs[0])]
        if name == "operator+":
            return [(st, V(self.ct, {"": seq_cat(self.val(st, vs[0]), self.val(st, vs[1]))}))]
        if name in ("operator==", "operator!="):
            r = self.val(st, vs[0]) == self.val(st, vs[1])
            return [(st, bv(r if name == "operator==" else z3.Not(r)))]
        if name in ("move", "forward"):
            return [(st, vs[0])]
        return None

    def iterate(self, st, c, var, body, x):
        """range-for over the bytes: an index loop"""
        return seq_range_for(self.eng, st, c, var, body, x, CHAR)


def seq_range_for(eng, st, c, var, body, x, ect):
    if isinstance(c, V):
        c = eng.newcell(st, c, "range")
    idx = eng.newcell(st, iv(SIZE, 0), "index")
    spec = eng.loopspec(st, x, "range", dict(index=idx, range=c))
    if spec is None:
        raise Unattached("loop in %s has no invariant" % st.env.get("fkey"))

    def test(s):
        n = seq_len(eng.load(s, c).t)
        return eng.split(s, eng.load(s, idx).t < n)

    def step(s):
        i = eng.load(s, idx).t
        el = LV(c.store, ect, c.prefix + "@", c.keys + (i,))
        s.assume(*eng.wf(eng.load(s, el)))
        s.assume(i >= 0)
        s.env = dict(s.env)
        q = var["type"].get("desugaredQualType") or var["type"]["qualType"]
        s.env[var["id"]] = el if "&" in q else eng.newcell(s, eng.load(s, el), var.get("name", "x"))
        return eng.stmt(body, s)

    def inc(s):
        i = eng.load(s, idx).t
        eng.store(s, idx, iv(SIZE, z3.simplify(i + 1)))
        return [s]
    return eng.cut_general(st, spec, test, step, inc)


class VectorModel(Model):
    """std::vector<T> for T with one component: a sequence"""
    def __init__(self, ct, eng, ect, esort):
        Model.__init__(self, ct, eng)
        self.ect, self.sort = ect, z3.SeqSort(esort)

    def comps(self):
        return {"": self.sort}

    def default(self, st):
        return V(self.ct, {"": z3.Empty(self.sort)})

    def wf(self, v):
        return [z3.Length(v.t) <= MAXLEN]

    def moved(self, st, lv):
        self.eng.store(st, lv, self.eng.havoc(self.ct, "moved"))

    def construct(self, st, args, e):
        if not args:
            return [(st, self.default(st))]
        raise Unsupported("vector constructor")

    def method(self, st, obj, name, args, node):
        eng = self.eng
        t = eng.load(st, obj).t
        if name == "size":
            return [(st, iv(SIZE, seq_len(t)))]
        if name == "empty":
            return [(st, bv(t == z3.Empty(self.sort)))]
        if name == "clear":
            eng.store(st, obj, self.default(st))
            return [(st, void())]
        if name in ("push_back", "emplace_back"):
            x = eng.load(st, args[0]) if args else None
            if x is None or set(x.c) != {""} or x.meta.get("str") is not None:
                raise Unsupported("vector::" + name)
            eng.store(st, obj, V(self.ct, {"": seq_cat(t, z3.Unit(x.t))}))
            if isinstance(args[0], LV) and self.moves(node, 0):
                m = eng.model_of(args[0])
                if m:
                    m.moved(st, args[0])
            return [(st, void())]
        if name in ("operator[]", "at"):
            i = eng.load(st, args[0]).t
            eng.oblige(st, "vector index within bounds", z3.And(i >= 0, i < seq_len(t)))
            st.assume(i >= 0, i < seq_len(t))
            if isinstance(obj, LV):
                return [(st, LV(obj.store, self.ect, obj.prefix + "@", obj.keys + (i,)))]
            return [(st, V(self.ect, {"": seq_nth(t, i)}))]
        raise Unsupported("vector::" + name)

    def moves(self, node, i):
        """argument i is a std::move"""
        a = node["inner"][1 + i]
        while a["kind"] in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr") and a.get("inner"):
            a = a["inner"][0]
        return a["kind"] == "CallExpr" and a.get("valueCategory") == "xvalue"

    def op(self, st, name, vs, e):
        if name == "operator[]":
            return self.method(st, vs[0], name, vs[1:], e)
        if name in ("move", "forward"):
            return [(st, vs[0])]
        return None

    def iterate(self, st, c, var, body, x):
        return seq_range_for(self.eng, st, c, var, body, x, self.ect)


def string_model(ct, eng):
    if ct.name == "std::string" and ct.ptr == 0:
        return StringModel(ct, eng)


def vector_model(ct, eng):
    if ct.name == "std::vector" and ct.ptr == 0:
        e = ct.args[0]
        c = eng.comps(e)
        if set(c) == {""}:
            return VectorModel(ct, eng, e, c[""])


class LimitsHooks:
    pass


def install_limits(unit):
    """std::numeric_limits<T>::min/max"""
    def h(which):
        def f(eng, st, args, e):
            from .cast import ctype
            ct = ctype(e)
            if ct.name in INTS:
                w, s = INTS[ct.name]
                v = ((1 << (w - 1)) - 1 if s else (1 << w) - 1) if which == "max" else (-(1 << (w - 1)) if s else 0)
                if ct.name == "bool":
                    v = 1 if which == "max" else 0
                return [(st, eng.const(ct, v))]
            return None
        return f
    for w in ("max", "min"):
        unit.hooks[w] = (lambda g: lambda eng, st, args, e: g(eng, st, args, e) if not args else None)(h(w))
