"""Runs the contracts of a property: symbolic execution, obligations, portfolio of solvers, vacuity checks."""
import concurrent.futures as cf
import importlib
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import traceback

import z3

from .core import Unsupported, Unattached
from .cast import FrontEndError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, ROOT)
FIRST_MS = 2000
QUICK_MS = 4000
AGAIN = 10                              # so many unproved obligations get a second, longer chance
CORES = 8
T0 = time.time()
STOP_S = 620                            # no solver starts after so many seconds: what is left is undecided
_FAILS = mp.get_context("fork").Value("i", 0)


def groups_for(prop):
    from contracts import GROUPS
    return [g for g in GROUPS if prop in g[1]]


def build(spec):
    """(module, function name) -> plain data; runs in a worker process"""
    mod, props, fname, args = spec
    t0 = time.time()
    res = dict(group="%s.%s%s" % (mod, fname, "(%s)" % ",".join(map(str, args)) if args else ""), obs=[], covers=[], functions=[], inlined=[],
               assumptions=[], undecided=[], trusted=[], error=None)
    try:
        m = importlib.import_module("contracts." + mod)
        p = getattr(m, fname)(*args)           # Proof
        res["undecided"] = p.undecided
        res["functions"] = sorted(p.functions)
        res["inlined"] = sorted(p.inlined)
        res["assumptions"] = sorted(p.assumptions)
        res["trusted"] = sorted(p.trusted)
        res["build_s"] = time.time() - t0
        solve_all(p, res)
    except (Unsupported, Unattached) as e:
        res["undecided"].append({"function": res["group"], "why": "%s: %s" % (type(e).__name__, e)})
    except FrontEndError as e:
        res["undecided"].append({"function": res["group"], "why": "front end: %s" % str(e)[:500]})
    except Exception:
        res["undecided"].append({"function": res["group"], "why": "internal error of the verifier: " + traceback.format_exc()[-1500:]})
    res["s"] = time.time() - t0
    return res


class Proof:
    """What one group hands to the solvers."""
    def __init__(self):
        self.obs, self.covers, self.functions, self.inlined = [], [], set(), set()
        self.assumptions, self.trusted, self.undecided, self.axioms = set(), set(), [], []

    def run(self, eng, label, f):
        """verifies one function; outside the verifier's reach it is undecided, not failed"""
        n, k = len(eng.obs), len(eng.covers)
        try:
            f()
            self.functions.add(label)
        except (Unsupported, Unattached) as e:
            del eng.obs[n:]
            del eng.covers[k:]
            eng.muted = eng.depth = 0
            self.undecided.append({"function": label, "why": "%s: %s" % (type(e).__name__, e)})
        except Exception:
            del eng.obs[n:]
            del eng.covers[k:]
            eng.muted = 0
            self.undecided.append({"function": label, "why": "internal error of the verifier: " + traceback.format_exc()[-4000:]})

    def close(self, eng):
        self.obs += eng.obs
        self.covers += eng.covers
        self.inlined |= eng.inlined
        self.assumptions |= eng.assumptions
        self.axioms += eng.u.axioms
        return self

    def lemma(self, name, pc, goal):
        from .sym import Ob
        o = Ob("lemma: " + name, list(pc), goal)
        o.hints = "alone"                   # without the axioms of the unit
        self.obs.append(o)


def solver(seed=0, ms=QUICK_MS):
    s = z3.Solver()
    s.set("timeout", ms)
    if seed:
        s.set("random_seed", seed)
    return s


def script(axioms, ob):
    s = z3.Solver()
    s.add(axioms)
    s.add(ob.pc)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()


def external(text, cmd, secs):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        r = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 2, errors="replace")
        l = [x.strip() for x in r.stdout.splitlines() if x.strip() in ("sat", "unsat", "unknown")]
        return l[0] if l else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)


_SYMS = {}


def symbols(f):
    """the uninterpreted symbols of a formula"""
    k = f.get_id()
    if k not in _SYMS:
        out, todo, seen = set(), [f], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo.extend(x.children())
        _SYMS[k] = (out, f)                 # f stays alive, so that its id is its own
    return _SYMS[k][0]


def nearby(ob):
    """the facts that the goal may need: those reached from its symbols through symbols which are (nearly) the rarest of a fact,
    and the ones without quantifiers"""
    from .sym import has_quant
    count = {}
    syms = [symbols(f) for f in ob.pc]
    for f in syms:
        for x in f:
            count[x] = count.get(x, 0) + 1
    least = [min([count[x] for x in f] or [0]) for f in syms]
    ground = {i for i, f in enumerate(ob.pc) if not has_quant(f)}
    for tolerance, depth, ms in ((1, 4, 1000), (2, 3, 700)):
        near, keep = set(symbols(ob.goal)), set(ground)
        for _ in range(depth):
            new = [i for i, f in enumerate(syms) if i not in keep and any(x in near and count[x] <= tolerance * least[i] for x in f)]
            keep.update(new)
            for i in new:
                near |= syms[i]
        yield [ob.pc[i] for i in sorted(keep)], ms


def solve_one(axioms, ob, deep=1):
    """(status, backend, seconds)"""
    t0 = time.time()
    if ob.hints == "alone":
        axioms = []
    g = ob.goal
    if z3.is_true(g):
        return "unsat", "syntactic", 0.0
    if any(f.get_id() == g.get_id() for f in ob.pc):
        return "unsat", "syntactic", 0.0
    if time.time() - T0 > STOP_S:
        return "skipped", "", 0.0
    late = _FAILS.value > 12 or time.time() - T0 > 420      # much fails already: no deep search for the rest

    def inner(seed, ms):
        s = solver(seed, ms)
        if seed == 7:
            s.set("smt.arith.solver", 2)
        s.add(axioms)
        s.add(ob.pc)
        s.add(z3.Not(g))
        r = s.check()
        return r, (str(s.model())[:3000] if r == z3.sat else "")

    def refuted(m):
        with _FAILS.get_lock():
            _FAILS.value += 1
        return "sat", m, time.time() - t0
    Z = "z3 %s" % z3.get_version_string()
    ob.pc[:] = {f.get_id(): f for f in ob.pc}.values()
    if deep == 1 and len(ob.pc) > 60:                   # fewer facts first: what they prove holds with all of them
        for pc, ms in nearby(ob):
            if len(pc) < len(ob.pc) * 0.7:
                s = solver(0, ms)
                s.set("smt.mbqi", False)
                s.set("auto_config", False)
                s.add(axioms)
                s.add(pc)
                s.add(z3.Not(g))
                if s.check() == z3.unsat:
                    return "unsat", Z, time.time() - t0
    short = _FAILS.value >= 80 or time.time() - T0 > 600
    r, m = inner(0, 700 if short else FIRST_MS * deep)
    if r == z3.unsat:
        return "unsat", Z, time.time() - t0
    if r == z3.sat:
        return refuted(m)
    txt = script(axioms, ob)
    ctxt = "(set-logic ALL)\n" + txt
    quant = ["--full-saturate-quant"]
    if late:
        steps = () if short else (("cvc5", 3, quant),)
    else:
        steps = (("cvc5", 4, quant), (7, QUICK_MS * 2), ("z3", 10), ("cvc5", 10, quant), ("cvc5", 10, []))
    if deep > 1:
        steps += ((3, 15000), (11, 15000))
    for st in steps:
        secs = st[1] * deep
        if time.time() - T0 > STOP_S:
            return "skipped", "", time.time() - t0
        if isinstance(st[0], int):
            r, m = inner(st[0], secs)
            if r == z3.unsat:
                return "unsat", Z, time.time() - t0
            if r == z3.sat:
                return refuted(m)
        elif st[0] == "z3":
            if external(txt, ["z3", "-T:%d" % secs], secs) == "unsat":
                return "unsat", "z3 4.8.12", time.time() - t0
        elif external(ctxt, ["cvc5", "--tlimit=%d" % (secs * 1000)] + st[2], secs) == "unsat":
            return "unsat", "cvc5 1.1.2", time.time() - t0
    with _FAILS.get_lock():
        _FAILS.value += 1
    return "unknown", "", time.time() - t0


_P = None


def _job(i):
    st, be, secs = solve_one(_P.axioms, _P.obs[i])
    return i, st, be, secs


def _cover(i):
    c = _P.covers[i]

    def check(pc, ms):
        s = solver(0, ms)
        s.add(_P.axioms)
        s.add(pc)
        return str(s.check())
    if c[1] and isinstance(c[1][0], list):              # one of these
        st = "unsat"
        for pc in c[1]:
            st = check(pc, 600)
            if st != "unsat":
                break
        return i, st
    st = check(c[1], 600)
    if st == "unsat" and len(c) > 2 and check(c[2], 5000) == "unsat":
        st = "unknown"                                  # a path that no execution takes
    return i, st


def _work(f, take, end):
    z3.set_param("memory_max_size", 3500)
    while True:
        with take.get_lock():
            i = take.value
            take.value += 1
        if i >= end[1]:
            return
        end[0].send(("start", i))
        try:
            r = f(i)
        except z3.Z3Exception:
            r = None
        end[0].send((i, r))


def shared(ctx, n, f, count, lost):
    """f(0) .. f(count - 1) by n processes; lost(i) where the process of f(i) dies"""
    from multiprocessing.connection import wait
    out, take = [None] * count, ctx.Value("i", 0)
    conns = {}

    def spawn():
        a, b = ctx.Pipe(False)
        w = ctx.Process(target=_work, args=(f, take, (b, count)))
        w.start()
        b.close()
        conns[a] = [w, None]
    for _ in range(min(n, count)):
        spawn()
    log = os.environ.get("PROGRESS")
    while conns:
        for a in wait(list(conns)):
            try:
                m = a.recv()
            except EOFError:
                w, i = conns.pop(a)
                w.join()
                if i is not None:
                    out[i] = lost(i)
                    spawn()
                continue
            if m[0] == "start":
                conns[a][1] = m[1]
            else:
                out[m[0]] = m[1] if m[1] is not None else lost(m[0])
                conns[a][1] = None
                if log and f is _job and (m[1] is None or m[1][1] != "unsat" or m[1][3] > 2):
                    with open(log, "a") as g:
                        g.write("%s %s\n" % (_P.obs[m[0]].name, (m[1] or ("lost",))[1:]))
    return out


def solve_all(p, res):
    global _P
    _P = p
    if os.environ.get("ONLY"):                      # for work on a proof: some obligations only
        p.obs[:] = [o for o in p.obs if os.environ["ONLY"] in o.name]
        p.covers[:] = []
    ctx = mp.get_context("fork")
    n = max(1, CORES)
    if len(p.obs) < 6:
        outs = []
        for i in range(len(p.obs)):
            outs.append(solve_one(p.axioms, p.obs[i]))
        covs = [_cover(i) for i in range(len(p.covers))]
        outs = [(i,) + o for i, o in enumerate(outs)]
    else:
        outs = shared(ctx, n, _job, len(p.obs), lambda i: (i, "unknown", "", 0.0))
        covs = shared(ctx, n, _cover, len(p.covers), lambda i: (i, "unknown"))
    left = [i for i, st, be, secs in outs if st == "unknown"]
    if left and len(left) <= AGAIN and time.time() - T0 < 500 and not any(o[1] == "sat" for o in outs):
        for k, o in enumerate(shared(ctx, min(4, n), lambda k: (left[k],) + solve_one(p.axioms, p.obs[left[k]], 2), len(left), lambda k: (left[k], "unknown", "", 0.0))):
            outs[o[0]] = o
    skipped = [p.obs[i].name for i, st, be, secs in outs if st == "skipped"]
    if skipped:
        res["undecided"].append({"function": res["group"], "why": "the time for solving ran out before %d obligations, the first is: %s" % (len(skipped), skipped[0])})
    for i, st, be, secs in outs:
        if st == "skipped":
            continue
        o = p.obs[i]
        res["obs"].append(dict(name=o.name, status=st, backend=be if st == "unsat" else "", s=secs, detail=be if st == "sat" else ""))
    for i, st in covs:
        res["covers"].append((p.covers[i][0], st))


def run(prop, tier="quick"):
    gs = groups_for(prop)
    if not gs:
        return None
    ctx = mp.get_context("fork")
    out = dict(failed=[], obligations=0, discharged=0, functions=[], backends={}, solver_s=0.0, trusted=[], assumptions=[], undecided=[],
               vacuity=0, inlined=[], groups=[])
    with cf.ProcessPoolExecutor(min(4, len(gs)), mp_context=ctx) as ex:
        results = list(ex.map(build, gs))
    for r in results:
        out["groups"].append(dict(name=r["group"], obligations=len(r["obs"]), seconds=round(r["s"], 1)))
        out["undecided"] += r["undecided"]
        out["functions"] += [f for f in r["functions"] if f not in out["functions"]]
        out["inlined"] += [f for f in r["inlined"] if f not in out["inlined"]]
        out["trusted"] += [f for f in r["trusted"] if f not in out["trusted"]]
        out["assumptions"] += [f for f in r["assumptions"] if f not in out["assumptions"]]
        out.setdefault("all", []).extend(r["obs"])
        for o in r["obs"]:
            out["obligations"] += 1
            out["solver_s"] += o["s"]
            if o["status"] == "unsat":
                out["discharged"] += 1
                out["backends"][o["backend"]] = out["backends"].get(o["backend"], 0) + 1
            else:
                out["failed"].append(dict(name=o["name"], status={"sat": "refuted", "unknown": "not proved"}[o["status"]], detail=o["detail"]))
        for nm, st in r["covers"]:
            out["vacuity"] += 1
            if st == "unsat":
                out["failed"].append(dict(name=nm, status="the assumptions contradict each other", detail=""))
    return out


def main():
    import sys
    prop = sys.argv[1]
    t0 = time.time()
    r = run(prop)
    if r is None:
        print("no contracts")
        return
    if os.environ.get("SLOW"):
        for o in sorted(r["all"], key=lambda o: -o["s"])[:15]:
            print("%.1f s %s %s" % (o["s"], o["name"], o["backend"]))
    for f in r["failed"]:
        print("FAILED %s [%s] %s" % (f["name"], f["status"], f["detail"][:int(os.environ.get("DETAIL", "300"))]))
    for u in r["undecided"]:
        print("UNDECIDED %s: %s" % (u["function"], u["why"]))
    print(r["groups"])
    print("%d/%d obligations, %d functions, back ends %s, solver %.1f s, wall %.1f s, vacuity %d" % (r["discharged"], r["obligations"], len(r["functions"]), r["backends"], r["solver_s"], time.time() - t0, r["vacuity"]))
    if os.environ.get("VERBOSE"):
        print("functions", r["functions"]); print("inlined", r["inlined"]); print("assumptions", r["assumptions"], r["trusted"])


if __name__ == "__main__":
    main()
