"""P20: generated identifiers."""
from .common import *

U64 = CT("unsigned long")


class Rng(Model):
    """std::random_device, std::uniform_int_distribution: any number of the range is drawn"""
    def comps(self):
        return {}

    def default(self, st):
        return V(self.ct, {})

    def construct(self, st, args, e):
        if self.ct.name == "std::uniform_int_distribution" and args:
            lo, hi = [z3.simplify(self.eng.load(st, a).t) for a in args]
            if not (z3.is_int_value(lo) and lo.as_long() == 0 and z3.is_int_value(hi) and hi.as_long() == (1 << 64) - 1):
                raise Unsupported("bounds of the random numbers")
        return [(st, V(self.ct, {}))]

    def op(self, st, name, vs, e):
        if name == "operator()" and self.ct.name == "std::uniform_int_distribution":
            r = fresh("draw", Int)
            st.assume(r >= 0, r < (1 << 64))
            st.notes["draws"] = st.notes.get("draws", ()) + (r,)
            return [(st, V(U64, {"": r}))]


def rng_model(ct, eng):
    if ct.name in ("std::random_device", "std::uniform_int_distribution") and ct.ptr == 0:
        return Rng(ct, eng)


def hexchar(d):
    return z3.If(d < 10, 48 + d, 87 + d)


def digit(x, k):
    """k-th of the 16 hexadecimal digits, the most significant first"""
    return hexchar((x / (16 ** (15 - k))) % 16)


class ToHex(FnContract):
    def result(self, c):
        return CT("std::string")

    def post(self, c):
        x = c.old(c.args[0]).t
        r = c.ret.t
        yield "the text has 16 characters", seq_len(r) == 16
        for k in range(16):
            yield "character %d is digit %d" % (k, k), seq_nth(r, z3.IntVal(k)) == digit(x, k)


def uuid_chars(at, a, b):
    """(name, formula) for the 36 characters, from the two numbers"""
    lo, hi = a, b / 4 + (1 << 63)
    src = [(lo, k) for k in range(8)] + ["-"] + [(lo, k) for k in range(8, 12)] + ["-", "4"] + [(lo, k) for k in range(13, 16)] + ["-"] \
        + [(hi, k) for k in range(4)] + ["-"] + [(hi, k) for k in range(4, 16)]
    for i, s in enumerate(src):
        if isinstance(s, str):
            yield "character %d is '%s'" % (i, s), at(i) == ord(s)
        else:
            yield "character %d is a digit of the number drawn" % i, at(i) == digit(*s)
    v = at(19)
    yield "variant digit is 8, 9, a or b", z3.Or(v == 56, v == 57, v == 97, v == 98)
    for i, s in enumerate(src):
        if not isinstance(s, str):
            c = at(i)
            yield "character %d is a lower-case hexadecimal digit" % i, z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 102))


class Uuid(FnContract):
    def result(self, c):
        return CT("std::string")

    def apply(self, eng, st, this, args, e):
        a, b = fresh("draw", Int), fresh("draw", Int)
        st.assume(a >= 0, a < (1 << 64), b >= 0, b < (1 << 64))
        st.notes["draws"] = st.notes.get("draws", ()) + (a, b)
        out = FnContract.apply(self, eng, st, this, args, e)
        for s, r in out:
            s.notes["uuid"] = r.t
        return out

    def post(self, c):
        d = c.s1.notes.get("draws", ())
        r = c.ret.t
        yield "the identifier has 36 characters", seq_len(r) == 36
        if len(d) < 2:
            yield "two random numbers are drawn", z3.BoolVal(False)
            return
        yield from uuid_chars(lambda i: seq_nth(r, z3.IntVal(i)), d[-2], d[-1])


class GenTmpFileName(FnContract):
    def result(self, c):
        return CT("std::string")

    def post(self, c):
        u = c.s1.notes.get("uuid")
        if u is None:
            yield "the name ends in an identifier", z3.BoolVal(False)
            return
        yield "the name is the directory, the prefix and an identifier", c.ret.t == seq_cat(seq_lit(b"/tmp/"), c.old(c.args[0]).t, u)


def proof():
    u = unit("uuid")
    u.models.append(rng_model)
    u.axioms.append(forall([ISeq, Int], lambda s, i: at(s, i) == s[i], lambda s, i: [at(s, i)]))      # elements by the theory of sequences
    cs = [ToHex("ToHex/1"), Uuid("Uuid/0"), GenTmpFileName("GenTmpFileName/1")]
    for c in cs:
        u.contracts[c.key] = c
    eng = Engine(u, [tu("Uuid/Uuid.cpp")])
    p = Proof()
    for c in cs:
        p.run(eng, c.key, lambda: verify(eng, c))
    p.assumptions |= {"std::random_device and std::uniform_int_distribution deliver numbers of the requested range", "std::string operations have their standard meaning; allocation succeeds"}
    p.trusted |= {"model of std::string (vp/stdmodel.py)", "model of the random number library (contracts/uuid.py)"}
    return p.close(eng)
