"""P19: the recursive lock of one thread. Ghost state: what the thread holds of the underlying lock (0 nothing, 1 read,
2 write) and how many read locks were taken below (R) and above (A) the first outstanding write lock, and the write locks (W)."""
from .common import *

GHOST = [CT("int")] * 0


class Under(FnContract):
    """ReadWriteMutex seen by one thread: assumed, its waiting belongs to several threads"""
    def __init__(self, key, need, to):
        FnContract.__init__(self, key)
        self.need, self.to = need, to

    def apply(self, eng, st, this, args, e):
        m = eng.load(st, MODE).t
        eng.oblige(st, "%s is only asked for when the thread holds %s of it" % (self.key, ["nothing", "it for reading", "it for writing"][self.need]), m == self.need)
        st.assume(m == self.need)
        eng.store(st, MODE, V(CT("int"), {"": z3.IntVal(self.to)}))
        return [(st, void())]


MUTEX = LV(("cell", "the mutex"), CT("RecursiveReadWriteMutex"))


class Called(FnContract):
    """notes the call"""
    def __init__(self, key, what):
        FnContract.__init__(self, key)
        self.what = what

    def apply(self, eng, st, this, args, e):
        st.notes["calls"] = st.notes.get("calls", ()) + (self.what,)
        return [(st, void())]


MODE = LV(("cell", "ghost mode"), CT("int"))
ABOVE = LV(("cell", "ghost above"), CT("int"))
R = LV(("cell", "global:LocalThreadReadLockCounter"), CT("unsigned long"))
W = LV(("cell", "global:LocalThreadWriteLockCounter"), CT("unsigned long"))


def invariant(eng, st):
    r, w, m, a = [eng.load(st, l).t for l in (R, W, MODE, ABOVE)]
    return z3.And(r >= 0, w >= 0, a >= 0, m == z3.If(w > 0, 2, z3.If(r > 0, 1, 0)), imp(w == 0, a == 0), r < 1 << 62, w < 1 << 62, a < 1 << 62)


class Op(FnContract):
    """one of the four operations; kind, and what it does to the outstanding locks"""
    def __init__(self, key, what):
        FnContract.__init__(self, key)
        self.what = what

    def modifies(self, c):
        return None

    def vals(self, c, st):
        return [c.eng.load(st, l).t for l in (R, W, MODE, ABOVE)]

    def pre(self, c):
        r, w, m, a = self.vals(c, c.s0)
        on = c.f0("IsActive").t
        yield "an enabled lock is in step with the locks outstanding", imp(on, invariant(c.eng, c.s0))
        if self.what == "ReadUnlock":
            yield "the last lock taken is a read lock", imp(on, z3.If(w > 0, a > 0, r > 0))
        if self.what == "WriteUnlock":
            yield "the last lock taken is a write lock", imp(on, z3.And(w > 0, imp(w == 1, a == 0)))
        if self.what in ("ReadLock", "WriteLock"):
            yield "fewer than 2^62 - 1 locks are outstanding", z3.And(r < (1 << 62) - 1, w < (1 << 62) - 1, a < (1 << 62) - 1)

    def post(self, c):
        # the ghost count of read locks above a write lock follows the operation
        r, w, m, a = self.vals(c, c.s0)
        r1, w1, m1, _ = self.vals(c, c.s1)
        on = c.f0("IsActive").t
        # number of locks outstanding after the operation
        if self.what == "ReadLock":
            er, ew, ea = z3.If(w == 0, r + 1, r), w, z3.If(w == 0, a, a + 1)
        elif self.what == "ReadUnlock":
            er, ew, ea = z3.If(w == 0, r - 1, r), w, z3.If(w == 0, a, a - 1)
        elif self.what == "WriteLock":
            er, ew, ea = r, w + 1, a
        else:
            er, ew, ea = r, w - 1, a
        yield "the locks outstanding are counted", imp(on, z3.And(r1 == er, w1 == ew))
        yield "the underlying lock is held for writing from the first write lock on, else for reading while a read lock is outstanding", imp(on, m1 == z3.If(ew > 0, 2, z3.If(er > 0, 1, 0)))
        yield "no read lock is above a write lock when there is none", imp(on, imp(ew == 0, ea == 0))
        yield "a disabled lock does nothing", imp(z3.Not(on), z3.And(r1 == r, w1 == w, m1 == m))
        yield "the lock stays enabled or disabled", c.f1("IsActive").t == on


class Disable(FnContract):
    def modifies(self, c):
        return None

    def post(self, c):
        yield "the lock is disabled", z3.Not(c.f1("IsActive").t)


class Guard(FnContract):
    """constructor / destructor of a lock guard: exactly one lock / unlock"""
    def __init__(self, key, cls, ops, **k):
        FnContract.__init__(self, key, cls=cls, **k)
        self.ops = ops

    def modifies(self, c):
        return None

    def post(self, c):
        yield "exactly %s is called" % " and ".join(self.ops), z3.BoolVal([x for x in c.s1.notes.get("calls", ())] == self.ops)


def init(eng, st):
    for l, n in ((R, "R"), (W, "W"), (MODE, "mode"), (ABOVE, "above")):
        v = eng.havoc(l.ct, n)
        st.cells[l.store[1]] = dict(v.c)
        st.assume(*eng.wf(v))


def proof():
    u = unit("locks")
    for t in ("std::mutex", "std::atomic_int", "std::atomic_bool", "std::condition_variable", "std::atomic"):
        u.ignore_fields.add(t)
    eng = Engine(u, [tu("ReadWriteMutex.cpp", extra="namespace mvlt { template class ReadLock<RecursiveReadWriteMutex>; template class WriteLock<RecursiveReadWriteMutex>; }")])
    cls = "RecursiveReadWriteMutex"
    for m, a, b in (("ReadLock", 0, 1), ("ReadUnlock", 1, 0), ("WriteLock", 0, 2), ("WriteUnlock", 2, 0)):
        u.contracts["ReadWriteMutex::%s/0" % m] = Under("ReadWriteMutex::%s/0" % m, a, b)
    p = Proof()
    for m in ("ReadLock", "ReadUnlock", "WriteLock", "WriteUnlock"):
        c = Op("%s::%s/0" % (cls, m), m)
        p.run(eng, c.key, lambda: verify(eng, c, init))
    c = Disable(cls + "::Disable/0")
    p.run(eng, c.key, lambda: verify(eng, c, init))
    # guards: the constructor takes the lock once, the destructor releases it once
    g = unit("guards")
    for t in ("std::mutex", "std::atomic_int", "std::atomic_bool", "std::condition_variable", "std::atomic"):
        g.ignore_fields.add(t)
    ge = Engine(g, eng.tus)
    for m in ("ReadLock", "ReadUnlock", "WriteLock", "WriteUnlock"):
        g.contracts["%s::%s/0" % (cls, m)] = Called("%s::%s/0" % (cls, m), m)
    g.hooks["deref"] = lambda e, s, q: MUTEX if q.ct.deref().name == cls else None
    for k in ("Read", "Write"):
        for f, what in (("%sLock::%sLock/1" % (k, k), k + "Lock"), ("%sLock::~%sLock/0" % (k, k), k + "Unlock")):
            c = Guard(f, "%sLock<%s>" % (k, cls), [what], pred=lambda n: n["kind"] == "CXXDestructorDecl" or "RecursiveReadWriteMutex &" in n["type"]["qualType"] and "&&" not in n["type"]["qualType"])
            p.run(ge, f, lambda: verify(ge, c, lambda e, s: s.cells.__setitem__("the mutex", dict(e.havoc(CT(cls), "mutex").c))))
    p.obs += ge.obs
    p.covers += ge.covers
    p.assumptions |= {"ReadWriteMutex::ReadLock/ReadUnlock/WriteLock/WriteUnlock take and release the underlying lock for one thread (assumed contract: their waiting involves other threads)",
                      "the thread-wide counters belong to one lock at a time (a thread uses one vault's lock; the code keeps the counters per thread, not per lock)"}
    p.trusted |= {"ReadWriteMutex"}
    return p.close(eng)
