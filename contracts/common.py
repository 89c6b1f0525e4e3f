"""Shared by the contract modules: translation units, engines, finding locals by their role."""
import z3
from vp import cast
from vp.core import *
from vp.cast import CT, INTS, ctype
from vp.sym import Engine, Unit, Fn, V, LV, Model, func_params
from vp.contract import FnContract, Ctx, verify, verify_node, named, havoc_locs
from vp.prove import Proof
from vp.stdmodel import *

_tus = {}


def tu(*includes, extra="", name=None):
    k = (includes, extra)
    if k not in _tus:
        _tus[k] = cast.load("".join('#include "%s"\n' % i for i in includes) + extra, name or includes[0])
    return _tus[k]


def unit(name):
    u = Unit(name)
    u.models += [string_model, vector_model]
    install_limits(u)
    for t in ("float", "double"):
        u.opaque_types[t] = Sort(t)
    return u


class Spec:
    """Loop invariant: f(eng, entry, state) yields (name, formula); dec(eng, entry, state) or None"""
    def __init__(self, name, inv, dec=None, facts=None):
        self.name, self._inv, self._dec, self._facts = name, inv, dec, facts

    def facts(self, eng, entry, st):
        """instances of definitions that the proof of one iteration needs: assumed, never obligations"""
        return named(self._facts(eng, entry, st), "fact") if self._facts else []

    def inv(self, eng, entry, st):
        return named(self._inv(eng, entry, st), "inv")

    def decreases(self, eng, entry, st):
        return self._dec(eng, entry, st) if self._dec else None


def locals_of(eng, st, pred):
    """locations of the local variables (not parameters) whose type satisfies pred"""
    out = []
    for k, x in st.env.items():
        if isinstance(x, LV) and x.store[0] == "cell" and isinstance(k, str) and k not in ("this", "tu", "fkey", "loopno"):
            d = st.env["tu"].decl.get(k)
            kind = d["kind"] if d is not None else "VarDecl"
            if kind == "VarDecl" and pred(x.ct):
                out.append(x)
    return out


def only(xs, what):
    if len(xs) != 1:
        raise Unattached("%s: %d candidates" % (what, len(xs)))
    return xs[0]


def local(eng, st, tname, what=None):
    return only(locals_of(eng, st, lambda ct: str(ct) == tname), what or "local of type " + tname)


def params_of(eng, st):
    """locations of the parameters of the current function in order"""
    out = []
    return out


def refs_in(x, acc=None):
    """ids of variables mentioned in a node"""
    acc = [] if acc is None else acc
    if isinstance(x, dict):
        if x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl"):
            acc.append(x["referencedDecl"]["id"])
        for c in x.get("inner", ()):
            refs_in(c, acc)
    return acc


def incremented(x):
    """id of the variable a for loop steps"""
    inc = x["inner"][3] if x["kind"] == "ForStmt" else None
    if inc:
        for i in refs_in(inc):
            return i
    return None


def loop_index(eng, st, x, loc):
    """location of the loop's index: the hidden one of a range-for, the stepped one of a for"""
    if "index" in loc:
        return loc["index"]
    i = incremented(x)
    if i is not None and isinstance(st.env.get(i), LV):
        return st.env[i]
    if x["kind"] == "WhileStmt":
        # the integer local that the condition tests
        for i in refs_in(x["inner"][0]):
            l = st.env.get(i)
            if isinstance(l, LV) and l.ct.name in INTS and l.ct.name not in ("bool", "char"):
                return l
    raise Unattached("index of a loop in %s" % st.env.get("fkey"))
