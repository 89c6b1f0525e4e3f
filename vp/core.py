"""Values, layouts, symbolic state."""
import z3
from .cast import CT, INTS, parse_type, canon

class Unsupported(Exception):
    """The front end met a construct it has no semantics for."""

class Unattached(Exception):
    """A loop has no invariant, or the invariant's locals were not found."""

_sorts = {}
def Sort(n):
    s = _sorts.get(n)
    if s is None:
        s = _sorts[n] = z3.DeclareSort(n)
    return s
Str = Sort("Str"); Val = Sort("Val"); Ty = Sort("Ty"); Clo = Sort("Clo")
VRef = Sort("VRef"); RRef = Sort("RRef"); HRef = Sort("HRef"); TRef = Sort("TRef")
HNode = Sort("HNode"); TNode = Sort("TNode")
Int, Bool = z3.IntSort(), z3.BoolSort()

_ctr = [0]
def fresh(name, sort):
    _ctr[0] += 1
    return z3.Const("%s!%d" % (name, _ctr[0]), sort)

def nul(sort):
    return z3.Const("null_" + sort.name(), sort)

def sel(a, *ks):
    for k in ks:
        a = sel1(a, k)
    return a

def sel1(a, k):
    # peel syntactically decided stores
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        i = a.arg(1)
        if i.eq(k):
            return a.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(k):
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, k)

def upd(a, ks, v):
    if not ks:
        return v
    k = ks[0]
    nv = upd(sel1(a, k), ks[1:], v) if len(ks) > 1 else v
    # overwrite of the same index
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(k):
        a = a.arg(0)
    return z3.Store(a, k, nv)

def arr(dom, rng):
    return z3.ArraySort(dom, rng)

class V:
    """A C++ value: type, named SMT components, python-level facts about it."""
    __slots__ = ("ct", "c", "meta")
    def __init__(self, ct, c, meta=None):
        self.ct, self.c, self.meta = ct, c, meta or {}
    @property
    def t(self):
        return self.c[""]
    def sub(self, prefix, ct=None):
        return V(ct, {k[len(prefix):]: x for k, x in self.c.items() if k.startswith(prefix)}, self.meta.get("sub", {}).get(prefix, {}))
    def __repr__(self):
        return "V(%s,%s%s)" % (self.ct, self.c, self.meta and ",meta" or "")

class LV:
    """A location: store ('cell',id) / ('heap',cls), component prefix, array keys."""
    __slots__ = ("store", "prefix", "keys", "ct")
    def __init__(self, store, ct, prefix="", keys=()):
        self.store, self.ct, self.prefix, self.keys = store, ct, prefix, tuple(keys)
    def field(self, name, ct):
        return LV(self.store, ct, self.prefix + name + ".", self.keys)
    def elem(self, tag, key, ct):
        return LV(self.store, ct, self.prefix + tag, self.keys + (key,))
    def same(self, o):
        return (self.store == o.store and self.prefix == o.prefix and len(self.keys) == len(o.keys)
                and all(a.eq(b) for a, b in zip(self.keys, o.keys)))
    def __repr__(self):
        return "LV(%s,%s,%s,%s)" % (self.store, self.prefix, self.keys, self.ct)

class State:
    __slots__ = ("cells", "heap", "pc", "ctl", "ret", "env", "trace", "notes")
    def __init__(self):
        self.cells, self.heap, self.pc = {}, {}, []
        self.ctl, self.ret, self.env = None, None, {}
        self.trace, self.notes = (), {}
    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.ctl, s.ret, s.env = self.ctl, self.ret, self.env
        s.trace = self.trace
        s.notes = dict(self.notes)
        return s
    def assume(self, *fs):
        for f in fs:
            if f is None or f is True or (z3.is_expr(f) and z3.is_true(f)):
                continue
            self.pc.append(f if z3.is_expr(f) else z3.BoolVal(f))

_depth = [0]


def _bind(sorts):
    """variables named by how deep they are bound, so that equal formulas are the same formula"""
    _depth[0] += 1
    return [z3.Const("q%d_%d_%s" % (_depth[0], i, s.name()[:4] if hasattr(s, "name") else "x"), s) for i, s in enumerate(sorts)]


def _patterns(pats, xs):
    return [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in (pats(*xs) if pats else ())]


def forall(sorts, f, pats=None):
    """forall([S1,S2], lambda x,y: body, lambda x,y: [pattern terms])"""
    xs = _bind(sorts if isinstance(sorts, (list, tuple)) else [sorts])
    try:
        body = f(*xs)
        if z3.is_true(body):
            return body
        return z3.ForAll(xs, body, patterns=_patterns(pats, xs))
    finally:
        _depth[0] -= 1


def exists(sorts, f, pats=None):
    xs = _bind(sorts if isinstance(sorts, (list, tuple)) else [sorts])
    try:
        return z3.Exists(xs, f(*xs), patterns=_patterns(pats, xs))
    finally:
        _depth[0] -= 1


def imp(a, b):
    return z3.Implies(a, b)

def And(*a):
    a = [x for x in a if not (x is True)]
    return z3.And(*a) if len(a) != 1 else a[0]
def Or(*a):
    return z3.Or(*a)
def Not(a):
    return z3.Not(a)
def ite(c, a, b):
    return z3.If(c, a, b)


# ---------------------------------------------------------------- sequences (byte strings and vectors)
ISeq = z3.SeqSort(Int)

def seq_parts(t):
    """pieces of a concatenation"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            todo += list(reversed(x.children()))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            continue
        else:
            out.append(x)
    return out

def is_unit(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT

def seq_join(parts, sort):
    if not parts:
        return z3.Empty(sort)
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)

def seq_cat(*ts):
    ps = []
    for t in ts:
        ps += seq_parts(t)
    return seq_join(ps, ts[0].sort())

def seq_lit(bs):
    return seq_join([z3.Unit(z3.IntVal(b)) for b in bs], ISeq)

def _units(t):
    ps = seq_parts(t)
    return ps if all(is_unit(p) for p in ps) else None

def seq_len(t):
    n, rest = 0, []
    for p in seq_parts(t):
        if is_unit(p):
            n += 1
        else:
            rest.append(z3.Length(p))
    r = z3.IntVal(n)
    for x in rest:
        r = x + r if not (z3.is_int_value(r) and r.as_long() == 0) else x
    return r

_at = {}
def seq_at(t):
    """element access, uninterpreted: the sequence theory's own one makes no triggers"""
    s = t.sort()
    if s not in _at:
        _at[s] = z3.Function("at_" + s.basis().name(), s, Int, s.basis())
    return _at[s]

at = lambda t, i: seq_at(t)(t, i if z3.is_expr(i) else z3.IntVal(i))

def seq_nth(t, i):
    u = _units(t)
    i = z3.simplify(i)
    if u is not None and z3.is_int_value(i) and 0 <= i.as_long() < len(u):
        return u[i.as_long()].arg(0)
    return seq_at(t)(t, i)

def seq_sub(t, a, n):
    u = _units(t)
    a, n = z3.simplify(a), z3.simplify(n)
    if u is not None and z3.is_int_value(a) and z3.is_int_value(n):
        return seq_join(u[a.as_long():a.as_long() + n.as_long()], t.sort())
    return z3.SubSeq(t, a, n)

def seq_upd(t, i, v):
    u = _units(t)
    i = z3.simplify(i)
    if u is not None and z3.is_int_value(i) and 0 <= i.as_long() < len(u):
        u = list(u)
        u[i.as_long()] = z3.Unit(v)
        return seq_join(u, t.sort())
    return seq_cat(z3.SubSeq(t, 0, i), z3.Unit(v), z3.SubSeq(t, i + 1, z3.Length(t) - i - 1))

def has_quant_safe(fs):
    seen, todo = set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        todo += t.children()
    return False
