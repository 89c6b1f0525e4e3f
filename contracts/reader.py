"""P16: the file reader. Abstract state: the bytes of the file (data, size) and the position."""
from .common import *

exists_f = z3.Function("file_exists", ISeq, Bool)
size_f = z3.Function("file_size", ISeq, Int)
data_f = z3.Function("file_data", ISeq, arr(Int, Int))
STREAM = CT("std::ifstream")
MAXFILE = 1 << 62


class IfStream(Model):
    """std::ifstream on a file that does not change while it is open"""
    def comps(self):
        return {"open": Bool, "ok": Bool, "pos": Int, "size": Int, "data": arr(Int, Int)}

    def default(self, st):
        v = self.eng.havoc(self.ct, "stream")
        v.c["open"], v.c["ok"] = z3.BoolVal(False), z3.BoolVal(True)
        return v

    def construct(self, st, args, e):
        if args:
            raise Unsupported("stream constructor")
        return [(st, self.default(st))]

    def wf(self, v):
        return [v.c["size"] >= 0, v.c["size"] <= MAXFILE]

    def method(self, st, obj, name, args, node):
        eng = self.eng
        v = eng.load(st, obj)
        c = dict(v.c)
        def put(**k):
            c.update(k)
            eng.store(st, obj, V(self.ct, c))
        if name == "open":
            n = eng.load(st, args[0]).t
            mode = eng.load(st, args[1]).meta.get("mode") if len(args) > 1 else frozenset()
            if mode is None or not mode <= {"binary", "ate", "in"}:
                raise Unsupported("open mode")
            if "binary" not in mode:
                raise Unsupported("text mode")
            ok = z3.And(exists_f(n), z3.Not(c["open"]))
            st.assume(size_f(n) >= 0, size_f(n) <= MAXFILE)
            put(open=z3.Or(c["open"], ok), ok=z3.And(c["ok"], ok), size=z3.If(ok, size_f(n), c["size"]), data=z3.If(ok, data_f(n), c["data"]),
                pos=z3.If(ok, size_f(n) if "ate" in mode else z3.IntVal(0), c["pos"]))
            return [(st, void())]
        if name == "is_open":
            return [(st, bv(c["open"]))]
        if name == "close":
            put(open=z3.BoolVal(False))
            return [(st, void())]
        if name == "clear":
            put(ok=z3.BoolVal(True))
            return [(st, void())]
        if name == "tellg":
            return [(st, V(CT("std::fpos"), {"": z3.If(c["ok"], c["pos"], -1)}))]
        if name == "seekg":
            p = eng.load(st, args[0]).t
            if len(args) != 1:
                raise Unsupported("seekg")
            put(pos=z3.If(c["ok"], p, c["pos"]))
            return [(st, obj)]
        if name == "read":
            b, n = eng.load(st, args[0]), eng.load(st, args[1]).t
            av = z3.If(z3.And(c["ok"], c["open"]), c["size"] - c["pos"], 0)
            k = fresh("count", Int)
            st.assume(k == z3.If(n < 0, 0, z3.If(n < av, n, z3.If(av < 0, 0, av))))
            tgt = None
            if isinstance(b.meta.get("arr"), LV):
                tgt = b.meta["arr"]
                cap = z3.IntVal(int(tgt.ct.args[1].name))
                a = eng.load(st, tgt).c["at:"]
            else:
                eng.oblige(st, "the buffer is allocated", sel(st.heap["chars"]["live"], b.t))
                cap = sel(st.heap["chars"]["len"], b.t)
                a = sel(st.heap["chars"]["at"], b.t)
            eng.oblige(st, "the bytes read fit into the buffer", n <= cap)
            st.assume(n <= cap)
            a1 = fresh("buffer", arr(Int, Int))
            st.assume(forall(Int, lambda j: sel(a1, j) == z3.If(z3.And(j >= 0, j < k), sel(c["data"], c["pos"] + j), sel(a, j)), lambda j: [sel(a1, j)]))
            if tgt is not None:
                eng.store(st, tgt, V(tgt.ct, {"at:": a1}))
            else:
                h = st.heap["chars"] = dict(st.heap["chars"])
                h["at"] = z3.Store(h["at"], b.t, a1)
            put(pos=c["pos"] + k, ok=z3.And(c["ok"], k == n))
            return [(st, obj)]
        raise Unsupported("ifstream::" + name)


class Fpos(Model):
    """std::streampos"""
    def comps(self):
        return {"": Int}

    def construct(self, st, args, e):
        return [(st, V(self.ct, {"": self.eng.load(st, args[0]).t}))]

    def method(self, st, obj, name, args, node):
        if name.startswith("operator "):
            return [(st, V(CT("long"), {"": self.eng.load(st, obj).t}))]
        raise Unsupported("fpos::" + name)


def stream_model(ct, eng):
    if ct.ptr == 0 and ct.name in ("std::ifstream", "std::basic_ifstream"):
        return IfStream(ct, eng)
    if ct.ptr == 0 and ct.name == "std::fpos":
        return Fpos(ct, eng)


def install(u):
    u.models.append(stream_model)
    u.opaque_types["std::_Ios_Openmode"] = Int

    def glob(eng, st, d, e):
        if d.get("name") in ("binary", "ate", "in", "out", "app", "trunc"):
            return V(CT("std::_Ios_Openmode"), {"": z3.IntVal(0)}, {"mode": frozenset([d["name"]])})
    u.hooks["global"] = glob

    def bor(eng, st, vs, e):
        m = [eng.load(st, v).meta.get("mode") for v in vs]
        if all(x is not None for x in m):
            return [(st, V(CT("std::_Ios_Openmode"), {"": z3.IntVal(0)}, {"mode": frozenset().union(*m)}))]
    u.hooks["operator|"] = bor

    def new(eng, st, e):
        if not e.get("isArray") or ctype(e).deref().name != "char":
            raise Unsupported("new")
        out = []
        for s, n in eng.rv(e["inner"][0], st):
            eng.oblige(s, "a positive number of bytes is allocated", n.t >= 0)
            p = fresh("block", Int)
            h = s.heap["chars"] = dict(s.heap["chars"])
            s.assume(p > 0, z3.Not(sel(h["live"], p)))
            h["live"] = z3.Store(h["live"], p, z3.BoolVal(True))
            h["len"] = z3.Store(h["len"], p, n.t)
            out.append((s, V(ctype(e), {"": p})))
        return out
    u.hooks["new"] = new

    def delete(eng, st, v, e):
        h = st.heap["chars"] = dict(st.heap["chars"])
        eng.oblige(st, "the memory deleted is allocated", z3.Or(v.t == 0, sel(h["live"], v.t)))
        h["live"] = z3.Store(h["live"], v.t, z3.BoolVal(False))
        return [(st, void())]
    u.hooks["delete"] = delete

    def subscript(eng, s, p, i):
        eng.oblige(s, "index within the allocated bytes", z3.And(sel(s.heap["chars"]["live"], p.t), i.t >= 0, i.t < sel(s.heap["chars"]["len"], p.t)))
        s.assume(i.t >= 0, i.t < sel(s.heap["chars"]["len"], p.t))
        return LV(("heap", "chars"), CHAR, "at", (p.t, i.t))
    u.hooks["subscript"] = subscript


def init(eng, st):
    st.heap["chars"] = {"at": fresh("bytes", arr(Int, arr(Int, Int))), "len": fresh("lens", arr(Int, Int)), "live": fresh("live", arr(Int, Bool))}


class R:
    """abstract view of a reader in a state"""
    def __init__(self, c, st):
        g = lambda *n: c.fld(st, *n)
        self.heap = st.heap["chars"]
        self.file = g("File")
        self.N, self.fpos, self.cpos = g("FileSize").t, g("FilePos").t, g("ChunkPos").t
        self.ch, self.nx, self.data = g("Char").t, g("NextChar").t, g("Data").t
        self.chunk = g("DataChunk").c["at:"]
        self.B = int(g("DataChunk").ct.args[1].name)
        self.D = self.file.c["data"]
        self.small = self.data != 0
        self.pos = z3.If(self.N == 0, 0, z3.If(self.small, self.fpos - 1, self.fpos + self.cpos - 1))
        self.more = self.pos < self.N

    def inv(self):
        h, f, N, B = self.heap, self.file.c, self.N, self.B
        D = self.D
        live = sel(h["live"], self.data)
        rest = N - self.fpos
        have = z3.If(rest < B, rest, B)
        yield "sizes", z3.And(N >= 0, N <= MAXFILE, self.pos >= 0, self.pos <= N)
        yield "an empty or closed reader", imp(N == 0, z3.And(z3.Not(self.small), self.fpos == 0, self.cpos == 1))
        yield "the buffer is allocated and holds the file", imp(self.small, z3.And(live, sel(h["len"], self.data) == N, N > 0, self.fpos >= 1, self.fpos <= N + 1))
        yield "the buffer holds the file", imp(self.small, forall(Int, lambda j: imp(z3.And(j >= 0, j < N), sel(h["at"], self.data, j) == sel(D, j)), lambda j: [sel(h["at"], self.data, j)]))
        ck = z3.And(N > 0, z3.Not(self.small))
        yield "a file read by blocks", imp(ck, z3.And(N > B, f["size"] == N, self.fpos >= 0, self.cpos >= 0, self.cpos < B, self.fpos + self.cpos >= 1, f["open"],
                                                     f["pos"] == z3.If(rest < 0, N, self.fpos + have), imp(rest > B, f["ok"])))
        yield "the block holds its part of the file", imp(ck, forall(Int, lambda j: imp(z3.And(j >= 0, j < have), sel(self.chunk, j) == sel(D, self.fpos + j)), lambda j: [sel(self.chunk, j)]))
        yield "the current byte", imp(self.pos < N, self.ch == sel(D, self.pos))
        yield "the look-ahead byte", imp(self.pos + 1 < N, self.nx == sel(D, self.pos + 1))


class Reader(FnContract):
    """a method of the reader: what it gives in terms of the abstract state"""
    def __init__(self, key, res=None, val=None, **k):
        FnContract.__init__(self, key, **k)
        self.res, self.val = res, val

    def result(self, c):
        return CT(self.res or "void")

    def modifies(self, c):
        return None if self.val is None else []

    def pre(self, c):
        return list(R(c, c.s0).inv())

    def post(self, c):
        a = R(c, c.s0)
        yield "the result", c.ret.t == self.val(a)


class Getter(Reader):
    """the byte is only known inside the file"""
    def post(self, c):
        a = R(c, c.s0)
        cond, v = self.val(a)
        yield "the result", imp(cond, c.ret.t == v)


class MoveC(Reader):
    def result(self, c):
        return BOOL

    def post(self, c):
        a, b = R(c, c.s0), R(c, c.s1)
        yield "the position moves by one inside the file", imp(a.more, z3.And(b.pos == a.pos + 1, c.ret.t))
        yield "nothing moves at the end", imp(z3.Not(a.more), z3.And(b.pos == a.pos, z3.Not(c.ret.t)))
        yield "the file stays", z3.And(b.N == a.N, b.D == a.D)
        for n, f in b.inv():
            yield "invariant: " + n, f


def deleted(c, a, b):
    """the buffer before is released unless it is still in use"""
    return imp(z3.And(a.small, b.data != a.data), z3.Not(sel(b.heap["live"], a.data)))


class CloseC(Reader):
    def post(self, c):
        a, b = R(c, c.s0), R(c, c.s1)
        yield "the reader is empty", z3.And(b.N == 0, b.pos == 0)
        yield "the stream is closed and usable", z3.And(z3.Not(b.file.c["open"]), b.file.c["ok"])
        yield "the buffer is released", deleted(c, a, b)
        for n, f in b.inv():
            yield "invariant: " + n, f


class OpenC(Reader):
    def result(self, c):
        return BOOL

    def post(self, c):
        a, b = R(c, c.s0), R(c, c.s1)
        n = c.old(c.args[0]).t
        yield "it opens files that exist", c.ret.t == exists_f(n)
        yield "the bytes of the file from its beginning", imp(c.ret.t, z3.And(b.N == size_f(n), b.D == data_f(n), b.pos == 0))
        yield "no bytes without a file", imp(z3.Not(c.ret.t), b.N == 0)
        yield "the old buffer is released", imp(z3.And(a.small, a.data != b.data), z3.Not(sel(b.heap["live"], a.data)))
        for nm, f in b.inv():
            yield "invariant: " + nm, f


class Ctor(Reader):
    def pre(self, c):
        return []

    def post(self, c):
        b = R(c, c.s1)
        yield "the reader is empty", z3.And(b.N == 0, b.pos == 0)
        yield "the stream is closed", z3.Not(b.file.c["open"])
        for n, f in b.inv():
            yield "invariant: " + n, f


class CtorOpen(OpenC):
    def pre(self, c):
        return []

    def result(self, c):
        return CT("void")

    def post(self, c):
        b = R(c, c.s1)
        n = c.old(c.args[0]).t
        yield "the bytes of the file from its beginning", imp(exists_f(n), z3.And(b.N == size_f(n), b.D == data_f(n), b.pos == 0))
        for nm, f in b.inv():
            yield "invariant: " + nm, f


class Dtor(Reader):
    def post(self, c):
        a = R(c, c.s0)
        yield "the buffer is released", imp(a.small, z3.Not(sel(c.s1.heap["chars"]["live"], a.data)))


K = "StreamFileReader::"


def contracts():
    nonneg = lambda n: n.get("type", {}).get("qualType", "")
    return [
        Reader(K + "IsOpen/0", "bool", lambda a: a.file.c["open"]),
        Reader(K + "IsEnd/0", "bool", lambda a: a.more),
        Reader(K + "GetFileSize/0", "unsigned long", lambda a: a.N),
        Reader(K + "GetCurrentPos/0", "unsigned long", lambda a: a.pos),
        Getter(K + "GetChar/0", "char", lambda a: (a.more, sel(a.D, a.pos))),
        Getter(K + "GetNextChar/0", "char", lambda a: (a.pos + 1 < a.N, sel(a.D, a.pos + 1))),
        MoveC(K + "Move/0"),
        CloseC(K + "Close/0"),
        OpenC(K + "Open/1"),
        Ctor(K + "StreamFileReader/0"),
        CtorOpen(K + "StreamFileReader/1", pred=lambda n: "StreamFileReader" not in n["type"]["qualType"]),
        Dtor(K + "~StreamFileReader/0"),
    ]


def proof():
    u = unit("reader")
    install(u)
    eng = Engine(u, [tu("CsvParser/StreamFileReader.cpp")])
    p = Proof()
    for c in contracts():
        p.run(eng, c.key, lambda: verify(eng, c, init))
    p.assumptions |= {"std::ifstream reads the bytes of a file that does not change while it is open; std::ifstream::read, seekg, tellg, clear as modelled in contracts/reader.py",
                      "files are shorter than 2^62 bytes; memory allocation succeeds"}
    p.trusted |= {"model of std::ifstream (contracts/reader.py)"}
    return p.close(eng)
