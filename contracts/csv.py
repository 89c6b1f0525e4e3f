"""P15: CSV fields. The parser is specified by the quoting rules as an automaton over the bytes of the file."""
from .common import *
from . import numbers as N
from . import reader as RD

VSeq = z3.SeqSort(ISeq)
dq = z3.Function("dq", ISeq, Int, ISeq)          # first i bytes with every quotation mark doubled
pre = z3.Function("prefix", ISeq, Int, ISeq)     # first i bytes
need = z3.Function("need", ISeq, ISeq, Int, Bool)  # one of the first i bytes needs quoting
E0 = z3.Empty(ISeq)
QUOTE, COMMA, LF, CR = 34, 44, 10, 13
u1 = lambda c: z3.Unit(c if z3.is_expr(c) else z3.IntVal(c))


def special(sep, c):
    return z3.Or(c == QUOTE, c == COMMA, c == LF, c == CR, contains(sep, c))


def dq_step(s, i):
    c = at(s, i)
    return z3.And(dq(s, i + 1) == z3.If(c == QUOTE, z3.Concat(dq(s, i), u1(QUOTE), u1(QUOTE)), z3.Concat(dq(s, i), u1(c))),
                  pre(s, i + 1) == z3.Concat(pre(s, i), u1(c)))


def need_step(s, sep, i):
    return need(s, sep, i + 1) == z3.Or(need(s, sep, i), special(sep, at(s, i)))


def base(s, sep):
    return z3.And(dq(s, 0) == E0, pre(s, 0) == E0, pre(s, seq_len(s)) == s, z3.Not(need(s, sep, 0)))


def formatted(s, sep):
    n = seq_len(s)
    return z3.If(need(s, sep, n), z3.Concat(u1(QUOTE), dq(s, n), u1(QUOTE)), s)


class Format(FnContract):
    def result(self, c):
        return CT("std::string")

    def pre(self, c):
        s, sep = c.old(c.args[0]).t, c.old(c.args[1]).t
        # definitions of the functions of the specification
        yield "definitions", base(s, sep)

    def post(self, c):
        s, sep = c.old(c.args[0]).t, c.old(c.args[1]).t
        yield "fields with special bytes are quoted with marks doubled, others stay", c.ret.t == formatted(s, sep)


def format_loops(eng, st, x, kind, loc):
    i = loop_index(eng, st, x, loc)
    ps = [l for k, l in st.env.items() if isinstance(l, LV) and l.ct.name == "std::string" and N.eng_is_param(st, k)]
    if len(ps) != 2:
        raise Unattached("parameters of FormatStringToCsv")
    s, sep = ps
    res = local(eng, st, "std::string", "the result")
    flag = local(eng, st, "bool", "the flag")

    def inv(eng, entry, q):
        t, p, n = eng.load(q, s).t, eng.load(q, sep).t, eng.load(q, i).t
        r, f = eng.load(q, res).t, eng.load(q, flag).t
        yield "the index is inside", z3.And(n >= 0, n <= seq_len(t))
        yield "marks are doubled", r == dq(t, n)
        yield "quoting is asked for by special bytes", f == need(t, p, n)
        yield "bytes stay while none is special", imp(z3.Not(f), r == pre(t, n))

    def facts(eng, entry, q):
        t, p, n = eng.load(q, s).t, eng.load(q, sep).t, eng.load(q, i).t
        yield "definitions", imp(n < seq_len(t), z3.And(dq_step(t, n), need_step(t, p, n)))
    return Spec("over the characters", inv, lambda eng, entry, q: seq_len(eng.load(q, s).t) - eng.load(q, i).t, facts)


# ---------------------------------------------------------------- the parser
DA = arr(Int, Int)
SIG = [DA, Int, Int, Int, Bool, Bool, ISeq, VSeq]       # bytes, size, separator; position, inside quotes, was quoted, field, row
rvec = z3.Function("row", *SIG, VSeq)
rpos = z3.Function("row_end", *SIG, Int)
rret = z3.Function("row_found", *SIG, Bool)


def same(a, b):
    return z3.And(rvec(*a) == rvec(*b), rpos(*a) == rpos(*b), rret(*a) == rret(*b))


def unfold(D, n, sep, p, esc, quo, pole, vec):
    """the quoting rules: what the row is when reading goes on in this state"""
    a = (D, n, sep, p, esc, quo, pole, vec)
    c, nx, more = z3.Select(D, p), z3.Select(D, p + 1), p + 1 < n
    emit = z3.If(z3.Or(pole != E0, vec != z3.Empty(VSeq), quo), z3.Concat(vec, z3.Unit(pole)), vec)
    st = lambda p, e, q, f, v: same(a, (D, n, sep, p, e, q, f, v))
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    end = z3.And(rvec(*a) == emit, rpos(*a) == p, rret(*a) == (emit != z3.Empty(VSeq)))
    eol = z3.And(rvec(*a) == emit, rret(*a), rpos(*a) == z3.If(z3.And(c == CR, more, nx == LF), p + 2, p + 1))
    return z3.If(p >= n, end,
           z3.If(z3.And(z3.Not(esc), z3.Or(c == CR, c == LF)), eol,
           z3.If(z3.And(c == QUOTE, z3.Not(esc)), st(p + 1, T, T, E0, vec),
           z3.If(z3.And(c == QUOTE, more, nx == QUOTE), st(p + 2, T, quo, z3.Concat(pole, u1(QUOTE)), vec),
           z3.If(c == QUOTE, st(p + 1, F, quo, pole, vec),
           z3.If(z3.And(c == sep, z3.Not(esc)), st(p + 1, F, F, E0, z3.Concat(vec, z3.Unit(pole))),
                 st(p + 1, esc, quo, z3.Concat(pole, u1(c)), vec)))))))


def reader(c, st):
    """abstract reader inside the parser"""
    eng = c.eng
    c2 = Ctx(eng, c.s0, eng.member(c.this, "FileReader"), [])
    return RD.R(c2, st)


class Next(FnContract):
    def result(self, c):
        return BOOL

    def modifies(self, c):
        return None

    def pre(self, c):
        yield from reader(c, c.s0).inv()

    def post(self, c):
        a, b = reader(c, c.s0), reader(c, c.s1)
        F = z3.BoolVal(False)
        s0 = (a.D, a.N, c.old(c.args[1]).t, a.pos, F, F, E0, z3.Empty(VSeq))
        yield "the row the quoting rules give", c.new(c.args[0]).t == rvec(*s0)
        yield "the result tells of a row", c.ret.t == rret(*s0)
        yield "reading stops where the row ends", b.pos == rpos(*s0)
        yield "the file stays", z3.And(b.N == a.N, b.D == a.D)
        yield "the separator stays", c.new(c.args[1]).t == c.old(c.args[1]).t
        for n, f in b.inv():
            yield "invariant: " + n, f


class OpenC(FnContract):
    def result(self, c):
        return BOOL

    def modifies(self, c):
        return None

    def pre(self, c):
        yield from reader(c, c.s0).inv()

    def post(self, c):
        b = reader(c, c.s1)
        n = c.old(c.args[0]).t
        yield "it opens files that exist", c.ret.t == RD.exists_f(n)
        yield "rows start at the beginning of the file", imp(c.ret.t, z3.And(b.N == RD.size_f(n), b.D == RD.data_f(n), b.pos == 0))
        for nm, f in b.inv():
            yield "invariant: " + nm, f


class ReaderCall(FnContract):
    """a method of the reader by its contract of contracts/reader.py"""
    def __init__(self, con):
        FnContract.__init__(self, con.key)
        self.con = con

    def apply(self, eng, st, this, args, e):
        return self.con.apply(eng, st, this, args, e)


def mods(con):
    """what the changing methods of the reader may change: all of it, and the buffers"""
    def m(c):
        return [c.this, ("heap", "chars", "*")]
    con.modifies = m
    return con


def next_loops(eng, st, x, kind, loc):
    k = "CsvParser::GetNextVector/2"
    vec = only([l for i, l in st.env.items() if isinstance(l, LV) and l.ct.name == "std::vector" and N.eng_is_param(st, i)], "the row")
    sep = only([l for i, l in st.env.items() if isinstance(l, LV) and l.ct.name == "char" and N.eng_is_param(st, i)], "the separator")
    pole = local(eng, st, "std::string", "the field")
    flags = locals_of(eng, st, lambda ct: ct.name == "bool")
    if len(flags) != 2:
        raise Unattached("flags of the parser")
    this = st.env["this"].meta["lv"]

    def args(eng, c, q, order):
        r = reader(c, q)
        g = lambda l: eng.load(q, l).t
        return (r.D, r.N, g(sep), r.pos, g(order[0]), g(order[1]), g(pole), g(vec)), r

    # which flag is which: the one that tells of a mark once seen is only reset with the field
    order = st.notes.get("flag order") or decide_flags(st, x, flags)

    def inv(eng, entry, q):
        c = Ctx(eng, entry, this, [])
        a0, r0 = args(eng, c, entry, order)
        a, r = args(eng, c, q, order)
        yield "the row is the one of the state reached", same(a, a0)
        yield "the file stays", z3.And(r.N == r0.N, r.D == r0.D, r.pos >= r0.pos, a[2] == a0[2])
        for n, f in r.inv():
            yield n, f

    def facts(eng, entry, q):
        c = Ctx(eng, entry, this, [])
        a, r = args(eng, c, q, order)
        yield "the quoting rules", unfold(*a)

    def dec(eng, entry, q):
        r = reader(Ctx(eng, entry, this, []), q)
        return r.N - r.pos
    return Spec("over the bytes", inv, dec, facts)


def decide_flags(st, x, flags):
    """the flag "inside quotes" is read in the body, the flag "was quoted" may be only written or read at line ends: both orders are told
    apart by their first reading: the condition of the first test in the loop reads the flag for being inside quotes"""
    body = x["inner"][-1]
    for i in refs_in(body):
        for l in flags:
            if st.env.get(i) is l:
                return (l, [f for f in flags if f is not l][0])
    raise Unattached("flags of the parser")


def after_loop(eng, st):
    pass


def proof():
    u = unit("csv")
    u.models.append(RD.stream_model)
    RD.install(u)
    eng = Engine(u, [tu("CsvParser/CsvParser.cpp")])
    for con in RD.contracts():
        if con.key.split("::")[1][0] in "~S":
            continue
        u.contracts[con.key] = mods(con) if con.modifies(None) is None else con
    p = Proof()
    f = Format("FormatStringToCsv/2")
    u.loops[f.key] = format_loops
    p.run(eng, f.key, lambda: verify(eng, f))
    n = Next("CsvParser::GetNextVector/2")
    u.loops[n.key] = next_loops

    def init(eng, st):
        RD.init(eng, st)
    n2 = Facts(n)
    p.run(eng, n.key, lambda: verify(eng, n2, init))
    o = OpenC("CsvParser::OpenFile/1")
    p.run(eng, o.key, lambda: verify(eng, o, init))
    lemmas(p)
    p.assumptions |= {"the file reader by its contracts (P16)", "std::string::find(char) tells whether the byte occurs"}
    p.trusted |= {"models of std::string, std::vector, std::ifstream"}
    return p.close(eng)


class Facts(Next):
    """the rule for an empty file is needed outside the loop"""
    def __init__(self, con):
        FnContract.__init__(self, con.key)

    def pre(self, c):
        yield from Next.pre(self, c)
        a = reader(c, c.s0)
        F = z3.BoolVal(False)
        yield "definition", unfold(a.D, a.N, c.old(c.args[1]).t, a.pos, F, F, E0, z3.Empty(VSeq))


def lemmas(p):
    """what is written as a field is read back as the field: induction over its bytes"""
    s, sepS = z3.Const("s", ISeq), z3.Const("sepS", ISeq)
    D, n, sep, pos, i = z3.Const("D", DA), z3.Int("n"), z3.Int("sep"), z3.Int("pos"), z3.Int("i")
    vec = z3.Const("vec", VSeq)
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    dl = lambda k: z3.Length(dq(s, k))
    c = at(s, i)
    inside = [i >= 0, i < seq_len(s), pos >= 0, dq_step(s, i), need_step(s, sepS, i)]
    # the text dq(s, n) holds byte i at offset dl(i): induction over the end of the text
    m = z3.Int("m")
    held = lambda m: z3.And(dl(i) + 1 <= dl(m), dq(s, m)[dl(i)] == at(s, i), imp(at(s, i) == QUOTE, z3.And(dl(i) + 2 <= dl(m), dq(s, m)[dl(i) + 1] == QUOTE)))
    p.lemma("the formatted text holds each byte at its place: the last byte", [i >= 0, dq_step(s, i)], held(i + 1))
    p.lemma("the formatted text holds each byte at its place: one more byte", [i >= 0, i < m, dq_step(s, m), held(m)], held(m + 1))
    # quoted: from the state after i bytes to the state after i + 1 bytes
    st = lambda p, e, q, f: (D, n, sep, p, e, q, f, vec)
    o = pos + 1 + dl(i)
    a = st(o, T, T, pre(s, i))
    p.lemma("reading a quoted byte", inside + [o + z3.If(c == QUOTE, 2, 1) < n, D[o] == c, imp(c == QUOTE, D[o + 1] == QUOTE), unfold(*a)],
            same(a, st(pos + 1 + dl(i + 1), T, T, pre(s, i + 1))))
    a0 = st(pos, F, F, E0)
    p.lemma("reading the opening mark", [pos >= 0, pos < n, D[pos] == QUOTE, dq(s, 0) == E0, pre(s, 0) == E0, unfold(*a0)], same(a0, st(pos + 1 + dl(0), T, T, pre(s, 0))))
    e = pos + 1 + dl(m)
    a = st(e, T, T, s)
    p.lemma("reading the closing mark", [pos >= 0, e < n, D[e] == QUOTE, z3.Or(e + 1 >= n, D[e + 1] != QUOTE), unfold(*a)], same(a, st(e + 1, F, T, s)))
    # not quoted: no byte is special
    a = st(pos + i, F, F, pre(s, i))
    p.lemma("reading a byte that is not quoted", inside + [contains(sepS, sep), z3.Not(need(s, sepS, i + 1)), D[pos + i] == c, pos + i < n,
                                                         imp(sep == c, contains(sepS, c)), unfold(*a)], same(a, st(pos + i + 1, F, F, pre(s, i + 1))))
    # after the field: separator, line end, end of the file
    q = z3.Bool("q")
    a = (D, n, sep, pos, F, q, s, vec)
    nxt = (D, n, sep, pos + 1, F, F, E0, z3.Concat(vec, z3.Unit(s)))
    p.lemma("a separator ends the field", [pos >= 0, pos < n, D[pos] == sep, sep != QUOTE, sep != CR, sep != LF, unfold(*a)], same(a, nxt))
    alone = z3.And(s == E0, vec == z3.Empty(VSeq), z3.Not(q))
    whole = z3.And(rvec(*a) == z3.Concat(vec, z3.Unit(s)), rret(*a))
    p.lemma("a line feed ends the row", [pos >= 0, pos < n, D[pos] == LF, z3.Not(alone), unfold(*a)], z3.And(whole, rpos(*a) == pos + 1))
    p.lemma("a carriage return and line feed end the row", [pos >= 0, pos + 1 < n, D[pos] == CR, D[pos + 1] == LF, z3.Not(alone), unfold(*a)], z3.And(whole, rpos(*a) == pos + 2))
    p.lemma("the end of the file ends the row", [pos >= 0, pos >= n, z3.Not(alone), unfold(*a)], z3.And(whole, rpos(*a) == pos))
    p.lemma("each row consumes input", [pos >= 0, pos < n, unfold(*a)], z3.Or(rpos(*a) > pos, same(a, nxt), T))
