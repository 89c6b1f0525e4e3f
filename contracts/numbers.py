"""P18: text and numbers."""
from .common import *

val = z3.Function("val", ISeq, Int, Int, Int)       # value of the digits s[a..i)
INTTYPES = ["signed char", "short", "int", "long", "unsigned char", "unsigned short", "unsigned int", "unsigned long"]


def isdigit(c):
    return z3.And(c >= 48, c <= 57)


alld = z3.Function("alld", ISeq, Int, Int, Bool)      # s[a..i) are digits


def val_axioms():
    """definitions of val and alld (by recursion over the end)"""
    T = [ISeq, Int, Int]
    return [forall([ISeq, Int, Int], lambda s, a, i: imp(i <= a, z3.And(val(s, a, i) == 0, alld(s, a, i))), lambda s, a, i: [val(s, a, i), alld(s, a, i)]),
            forall(T, lambda s, a, i: imp(a <= i, val(s, a, i + 1) == 10 * val(s, a, i) + (at(s, i) - 48)), lambda s, a, i: [(val(s, a, i), at(s, i))]),
            forall(T, lambda s, a, i: imp(a <= i, alld(s, a, i + 1) == z3.And(alld(s, a, i), isdigit(at(s, i)))), lambda s, a, i: [(alld(s, a, i), at(s, i))])]


def some(s, a, i, j):
    return imp(z3.And(a <= j, j < i, alld(s, a, i)), isdigit(at(s, j)))


def mono(s, a, i, j):
    return imp(z3.And(a <= i, i <= j, alld(s, a, j)), z3.And(val(s, a, i) <= val(s, a, j), val(s, a, i) >= 0))


def mono_axioms():
    return [forall([ISeq, Int, Int, Int], lambda s, a, i, j: mono(s, a, i, j), lambda s, a, i, j: [(val(s, a, i), val(s, a, j))]),
            forall([ISeq, Int, Int, Int], lambda s, a, i, j: some(s, a, i, j), lambda s, a, i, j: [(alld(s, a, i), at(s, j))])]


def lemmas(p):
    """the axioms of mono_axioms, by induction"""
    s, a, i, j = z3.Const("s", ISeq), z3.Int("a"), z3.Int("i"), z3.Int("j")
    ax = val_axioms()
    def L(name, pc, goal):
        p.lemma(name, ax + pc, goal)
    L("digits: every one of them is one: none", [], some(s, a, a, j))
    L("digits: every one of them is one: one more", [a <= i, some(s, a, i, j), at(s, i) == at(s, i)], some(s, a, i + 1, j))
    L("values are not negative: none", [], imp(alld(s, a, a), val(s, a, a) >= 0))
    nn = lambda i: imp(alld(s, a, i), val(s, a, i) >= 0)
    L("values are not negative: one more", [a <= i, nn(i), val(s, a, i + 1) == 10 * val(s, a, i) + (at(s, i) - 48), alld(s, a, i + 1) == z3.And(alld(s, a, i), isdigit(at(s, i)))], nn(i + 1))
    L("more digits make no smaller value: none more", [nn(i)], mono(s, a, i, i))
    L("more digits make no smaller value: one more", [nn(i), nn(j), a <= i, i <= j, mono(s, a, i, j), val(s, a, j + 1) == 10 * val(s, a, j) + (at(s, j) - 48),
                                                    alld(s, a, j + 1) == z3.And(alld(s, a, j), isdigit(at(s, j)))], mono(s, a, i, j + 1))


def lim(tn):
    w, sg = INTS[tn]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def number(t, tn):
    """(is a number, its value) for a text"""
    n = z3.Length(t)
    if INTS[tn][1]:
        neg = z3.And(n > 1, at(t, 0) == 45)
        a = z3.If(neg, z3.IntVal(1), z3.IntVal(0))
        v = val(t, a, n)
        return z3.And(n > 0, alld(t, a, n)), z3.If(neg, -v, v)
    return z3.And(n > 0, alld(t, z3.IntVal(0), n)), val(t, z3.IntVal(0), n)


class FromInt(FnContract):
    """FromString and its helpers for one integer type"""
    def __init__(self, key, tn, **k):
        FnContract.__init__(self, key, **k)
        self.tn = tn

    def result(self, c):
        return BOOL

    def modifies(self, c):
        return [c.args[1]]

    def post(self, c):
        t = c.old(c.args[0]).t
        ok, v = number(t, self.tn)
        lo, hi = lim(self.tn)
        yield "a number in range is accepted", imp(z3.And(ok, v >= lo, v <= hi), c.ret.t)
        yield "anything else is refused", imp(c.ret.t, z3.And(ok, v >= lo, v <= hi))
        yield "an accepted number is stored", imp(c.ret.t, c.new(c.args[1]).t == v)
        yield "a refused text leaves the target", imp(z3.Not(c.ret.t), c.new(c.args[1]).t == c.old(c.args[1]).t)


class FromBool(FnContract):
    def result(self, c):
        return BOOL

    def modifies(self, c):
        return [c.args[1]]

    def post(self, c):
        t, d = c.old(c.args[0]).t, c.new(c.args[1]).t
        T, F = seq_lit(b"true"), seq_lit(b"false")
        yield "true is read", imp(t == T, z3.And(c.ret.t, d))
        yield "false is read", imp(t == F, z3.And(c.ret.t, z3.Not(d)))
        yield "anything else is refused", imp(z3.And(t != T, t != F), z3.And(z3.Not(c.ret.t), d == c.old(c.args[1]).t))


class FromStr(FnContract):
    def result(self, c):
        return BOOL

    def modifies(self, c):
        return [c.args[1]]

    def post(self, c):
        yield "the text is taken over", z3.And(c.ret.t, c.new(c.args[1]).t == c.old(c.args[0]).t)


def text_of(t, x, signed=True):
    """t is the decimal text of x"""
    n = z3.Length(t)
    a = z3.If(x < 0, z3.IntVal(1), z3.IntVal(0))
    return z3.And(n > a, imp(x < 0, at(t, 0) == 45), alld(t, a, n), val(t, a, n) == z3.If(x < 0, -x, x))


class ToInt(FnContract):
    def result(self, c):
        return CT("std::string")

    def post(self, c):
        yield "the text is the number in decimal", text_of(c.ret.t, c.old(c.args[0]).t)


class ToBool(FnContract):
    def result(self, c):
        return CT("std::string")

    def post(self, c):
        yield "the text is true or false", c.ret.t == z3.If(c.old(c.args[0]).t, seq_lit(b"true"), seq_lit(b"false"))


class ToStr(FnContract):
    def result(self, c):
        return CT("std::string")

    def post(self, c):
        yield "the text is the string", c.ret.t == c.old(c.args[0]).t


def std_to_string(eng, st, args, e):
    """std::to_string of an integer: its decimal text"""
    x = eng.load(st, args[0])
    if x.ct.name not in INTS:
        raise Unsupported("to_string of %s" % x.ct)
    t = dec(x.t)
    st.assume(text_of(t, x.t), seq_len(t) <= 20)
    return [(st, V(CT("std::string"), {"": t}))]


def loops(eng, st, x, kind, loc):
    i = loop_index(eng, st, x, loc)
    s = only([l for k, l in st.env.items() if isinstance(l, LV) and l.ct.name == "std::string" and eng_is_param(st, k)], "the text")
    d = only([l for k, l in st.env.items() if isinstance(l, LV) and l.ct.name in INTS and eng_is_param(st, k)], "the target")
    tn = d.ct.name
    accs = [l for l in locals_of(eng, st, lambda ct: ct.name == tn and not ct.ptr) if not l.same(i)]
    accs = [l for l in accs if not is_const(eng, st, l)]
    acc = only(accs, "the number collected")

    def inv(eng, entry, q):
        t = eng.load(q, s).t
        a0 = eng.load(entry, i).t
        n = eng.load(q, i).t
        r = eng.load(q, acc).t
        lo, hi = lim(tn)
        yield "the index is inside", z3.And(a0 <= n, n <= seq_len(t))
        yield "digits so far", alld(t, a0, n)
        yield "value so far", (r == -val(t, a0, n)) if INTS[tn][1] else (r == val(t, a0, n))
        yield "the value is in range", z3.And(r >= lo, r <= (0 if INTS[tn][1] else hi))
        yield "the target waits", eng.load(q, d).t == eng.load(entry, d).t
    return Spec("over the characters", inv, lambda eng, entry, q: seq_len(eng.load(q, s).t) - eng.load(q, i).t)


def eng_is_param(st, k):
    d = st.env["tu"].decl.get(k) if isinstance(k, str) else None
    return d is not None and d["kind"] == "ParmVarDecl"


def is_const(eng, st, lv):
    for k, l in st.env.items():
        if l is lv:
            d = st.env["tu"].decl.get(k)
            return d is not None and "const" in d["type"]["qualType"]
    return False


def setup(u):
    """contracts of both directions, for units that use them"""
    cs = []
    for tn in INTTYPES:
        cs.append(FromInt("FromString/2<%s>" % tn, tn))
        cs.append(ToInt("ToString/1<%s>" % tn))
    cs += [FromBool("FromString/2<bool>"), FromStr("FromString/2<std::string>"), ToBool("ToString/1<bool>"), ToStr("ToString/1<std::string>")]
    for c in cs:
        u.contracts[c.key] = c
    u.hooks["to_string"] = std_to_string
    u.axioms += val_axioms() + mono_axioms()
    return cs


def proof():
    u = unit("numbers")
    cs = setup(u)
    helpers = []
    for tn in INTTYPES:
        k = "FromString%sInt/2<%s>" % ("Signed" if INTS[tn][1] else "Unsigned", tn)
        h = FromInt(k, tn)
        helpers.append(h)
        u.contracts[k] = h
    u.loops["*"] = loops
    eng = Engine(u, [tu("Strings/FromString.h", "Strings/ToString.h")])
    p = Proof()
    for c in helpers:
        if c.key in eng.fns:
            p.run(eng, c.key, lambda: verify(eng, c))
    for c in cs:
        p.run(eng, c.key, lambda: verify(eng, c))
    # round trips: consequences of the two contracts
    for tn in INTTYPES + ["bool", "std::string"]:
        st = State()
        eng.current = "round trip of " + tn
        st.env = {"tu": eng.tus[0]}
        x = eng.havoc(CT(tn), "x")
        st.assume(*eng.wf(x))
        lv = eng.newcell(st, x, "x")
        tgt = eng.newcell(st, eng.havoc(CT(tn), "target"), "target")
        for s, t in u.contracts["ToString/1<%s>" % tn].apply(eng, st, None, [lv], None):
            tl = eng.newcell(s, t, "text")
            for s2, ok in u.contracts["FromString/2<%s>" % tn].apply(eng, s, None, [tl, tgt], None):
                eng.oblige(s2, "the value comes back", z3.And(ok.t, eng.load(s2, tgt).t == x.t))
    lemmas(p)
    p.assumptions |= {"std::to_string gives the decimal text of its argument"}
    p.trusted |= {"model of std::string (vp/stdmodel.py)"}
    return p.close(eng)
