"""P21: JSON encoding of values."""
from .common import *
from . import numbers as N

esc = z3.Function("esc", ISeq, Int, ISeq)        # encoding of the first i bytes
ec = z3.Function("ec", Int, ISeq)                # encoding of one byte
HEX = "0123456789abcdef"
PLAIN = ["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "float", "double", "bool"]


def hexdig(d):
    t = z3.IntVal(ord(HEX[15]))
    for i in range(14, -1, -1):
        t = z3.If(d == i, z3.IntVal(ord(HEX[i])), t)
    return t


def ec_def(c):
    """JSON's string grammar: quotation mark and reverse solidus are escaped, control characters become \\u00xx, other bytes stand for themselves"""
    u = z3.Unit
    return z3.And(imp(z3.Or(c == 34, c == 92), ec(c) == z3.Concat(u(z3.IntVal(92)), u(c))),
                  imp(z3.And(c >= 0, c < 32), ec(c) == z3.Concat(*[u(z3.IntVal(x)) for x in b"\\u00"], u(hexdig(c / 16)), u(hexdig(c % 16)))),
                  imp(z3.And(z3.Or(c < 0, c >= 32), c != 34, c != 92), ec(c) == u(c)))


def axioms():
    return [forall([ISeq], lambda s: esc(s, 0) == z3.Empty(ISeq), lambda s: [esc(s, 0)]),
            forall([ISeq, Int], lambda s, i: imp(i >= 0, z3.And(esc(s, i + 1) == z3.Concat(esc(s, i), ec(at(s, i))), ec_def(at(s, i)))), lambda s, i: [(esc(s, i), at(s, i))])]


class Escape(FnContract):
    def result(self, c):
        return CT("std::string")

    def post(self, c):
        t = c.old(c.args[0]).t
        yield "every byte is encoded", c.ret.t == esc(t, seq_len(t))


def loops(eng, st, x, kind, loc):
    i = loop_index(eng, st, x, loc)
    s = only([l for k, l in st.env.items() if isinstance(l, LV) and l.ct.name == "std::string" and N.eng_is_param(st, k)], "the text")
    res = local(eng, st, "std::string", "the result")

    def inv(eng, entry, q):
        t, n = eng.load(q, s).t, eng.load(q, i).t
        yield "the index is inside", z3.And(n >= 0, n <= seq_len(t))
        yield "encoded so far", eng.load(q, res).t == esc(t, n)
    return Spec("over the characters", inv, lambda eng, entry, q: seq_len(eng.load(q, s).t) - eng.load(q, i).t)


class TypeIndex(Model):
    """std::type_index, std::type_info: a type"""
    def comps(self):
        return {"": Ty}

    def tid(self, x):
        x = x if isinstance(x, V) else x
        if x.meta.get("typeid") is not None:
            return typeid(self.eng.u, x.meta["typeid"])
        return x.t

    def construct(self, st, args, e):
        return [(st, V(self.ct, {"": self.tid(self.eng.load(st, args[0]))}))]

    def op(self, st, name, vs, e):
        if name in ("operator==", "operator!="):
            a, b = [self.tid(self.eng.load(st, v)) for v in vs]
            r = a == b
            return [(st, bv(r if name == "operator==" else z3.Not(r)))]
        if name == "operator=":
            self.eng.store(st, vs[0], V(vs[0].ct, {"": self.tid(self.eng.load(st, vs[1]))}))
            return [(st, vs[0])]

    def method(self, st, obj, name, args, node):
        if name in ("operator==", "operator!=", "operator="):
            return self.op(st, name, [obj] + list(args), node)
        if name == "name":
            return [(st, V(CT("char", (), 1), {"": fresh("name", Int)}))]
        raise Unsupported("type_index::" + name)


def typeid(u, ct):
    ids = u.ghost.setdefault("typeids", {})
    k = str(ct)
    if k not in ids:
        ids[k] = z3.Const("type " + k, Ty)
        u.axioms[:] = [a for a in u.axioms if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DISTINCT and a.arg(0).sort() == Ty)]
        if len(ids) > 1:
            u.axioms.append(z3.Distinct(*ids.values()))
    return ids[k]


def type_model(ct, eng):
    if ct.name in ("std::type_index", "std::type_info") and ct.ptr == 0:
        return TypeIndex(ct, eng)


class IsQuoted(FnContract):
    def result(self, c):
        return BOOL

    def post(self, c):
        u = c.eng.u
        ty = c.eng.model(CT("std::type_index")).tid(c.old(c.args[0]))
        yield "only numbers and truth values stand without quotes", c.ret.t == z3.And(*[ty != typeid(u, CT(n)) for n in PLAIN])


class ToJson(FnContract):
    """ToJson of a value of type tn"""
    def __init__(self, key, tn, **k):
        FnContract.__init__(self, key, **k)
        self.tn = tn

    def result(self, c):
        return CT("std::string")

    def post(self, c):
        t = c.s1.notes.get("text")
        if t is None:
            yield "the text of the value is written", z3.BoolVal(False)
            return
        q = seq_lit(b'"')
        if self.tn in PLAIN:
            yield "the text of the value without quotes", c.ret.t == t
        else:
            yield "the text of the value as a string literal", c.ret.t == z3.Concat(q, esc(t, seq_len(t)), q)


class Noted(FnContract):
    """ToString / DataSaver::Str: some text, remembered for the contract of the caller"""
    def result(self, c):
        return CT("std::string")

    def apply(self, eng, st, this, args, e):
        out = FnContract.apply(self, eng, st, this, args, e)
        for s, r in out:
            s.notes["text"] = r.t
        return out


class SaverType(FnContract):
    def result(self, c):
        return CT("std::type_index")

    def post(self, c):
        return [c.ret.t == c.f0("DataType").t]


class ToJsonSaver(FnContract):
    def result(self, c):
        return CT("std::string")

    def post(self, c):
        u, eng = c.eng.u, c.eng
        t = c.s1.notes.get("text")
        if t is None:
            yield "the text of the value is written", z3.BoolVal(False)
            return
        q = seq_lit(b'"')
        ty = eng.load(c.s0, eng.member(c.args[0], "DataType")).t
        num = z3.Or(*[ty == typeid(u, CT(n)) for n in PLAIN])
        yield "numbers and truth values without quotes", imp(num, c.ret.t == t)
        yield "other values as string literals", imp(z3.Not(num), c.ret.t == z3.Concat(q, esc(t, seq_len(t)), q))


def proof():
    u = unit("json")
    u.models.append(type_model)
    u.opaque_types["fnptr"] = Int
    u.axioms += axioms()
    eng = Engine(u, [tu("Strings/ToJson.cpp", extra="namespace mvlt {" + "".join("template std::string ToJson<%s>(const %s&);\n" % (t, t) for t in PLAIN + ["std::string"]) + "}")])
    esc_c, quo = Escape("EscapeJsonString/1"), IsQuoted("IsQuotedJsonType/1")
    u.contracts[esc_c.key], u.contracts[quo.key] = esc_c, quo
    for k in list(eng.fns):
        if k.startswith("ToString/1<") or k in ("DataSaver::Str/0",):
            u.contracts[k] = Noted(k)
    u.contracts.setdefault("DataSaver::Str/0", Noted("DataSaver::Str/0"))
    u.contracts["DataSaver::GetDataType/0"] = SaverType("DataSaver::GetDataType/0")
    u.loops[esc_c.key] = loops
    p = Proof()
    p.run(eng, esc_c.key, lambda: verify(eng, esc_c))
    p.run(eng, quo.key, lambda: verify(eng, quo))
    for t in PLAIN + ["std::string"]:
        c = ToJson("ToJson/1<%s>" % t, t)
        p.run(eng, c.key, lambda: verify(eng, c))
    c = ToJsonSaver("ToJson/1", label="ToJson/1(DataSaver)")
    p.run(eng, c.label, lambda: verify(eng, c))
    # the encoding of a byte is a JSON character that stands for the byte
    b = z3.Int("b")
    r = [b >= -128, b <= 127, ec_def(b)]
    e = ec(b)
    n = z3.Length(e)
    p.lemma("an encoded byte has no bare quotation mark, reverse solidus or control character",
            r, z3.Or(z3.And(n == 1, e[0] != 34, e[0] != 92, z3.Or(e[0] < 0, e[0] >= 32)), z3.And(e[0] == 92, n == 2, z3.Or(e[1] == 34, e[1] == 92)),
                     z3.And(n == 6, e[0] == 92, e[1] == 117, e[2] == 48, e[3] == 48)))
    hv = lambda c: z3.If(c <= 57, c - 48, c - 87)
    p.lemma("an encoded byte is read back as the byte",
            r, b == z3.If(n == 1, e[0], z3.If(n == 2, e[1], 16 * hv(e[4]) + hv(e[5]))))
    p.assumptions |= {"DataSaver::Str and DataSaver::GetDataType by contract (P14)"}
    p.trusted |= {"model of std::string and std::type_index"}
    return p.close(eng)
