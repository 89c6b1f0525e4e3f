#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]
Decides one property on /repo's working tree. Exit 0: held on everything explored; 1: VIOLATION line printed."""
import argparse
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vp import harness as H  # noqa: E402


def known(prop):
    out = []
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append((os.path.join(ROOT, m.group(2)), m.group(3).strip()))
    return out


def run_proof(prop, tier):
    """The deductive part: None when the property has no contracts."""
    try:
        from vp import prove
    except ImportError:
        return None
    try:
        return prove.run(prop, tier)
    except Exception:                   # the bounded stand-in decides alone
        return dict(failed=[], obligations=0, discharged=0, functions=[], backends={}, solver_s=0.0, trusted=[], assumptions=[], vacuity=0,
                    undecided=[{"function": "all", "why": "internal error of the verifier: " + traceback.format_exc()[-1500:]}])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--ms", type=int)
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="vpchk_")
    try:
        return body(a, prop, t0, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def body(a, prop, t0, seed, work):
    exe, note = None, ""
    if a.replay:
        exe = H.build(H.HARNESS[prop], work)
        bad, what, err = H.replay_file(exe, prop, a.replay, work)
        print(what if bad else "the case passes")
        return 1 if bad else 0
    proof = run_proof(prop, a.tier)
    hr = None
    try:
        if a.no_harness:
            raise H.BuildFailed("not asked for")
        exe = H.build(H.HARNESS[prop], work)
    except H.BuildFailed as e:
        note = "harness not built: " + str(e)[-400:]
    violation = None
    if exe:
        for case, what in known(prop):
            bad, got, err = H.replay_file(exe, prop, case, work)
            if bad:
                print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        failed_obl = bool(proof and proof["failed"])
        ms = a.ms or (300000 if a.tier == "thorough" else 90000 if failed_obl else 25000)
        hr = H.search(exe, prop, seed, ms, work)
        if hr.failed:
            extra = ""
            if failed_obl:
                extra = "failed obligations:\n" + "\n".join(o["name"] for o in proof["failed"][:40])
            violation = (H.write_replay(prop, hr.case, hr.what, extra), "")
    if violation is None and proof and proof["failed"]:
        txt = "\n".join("%s: %s\n%s" % (o["name"], o["status"], o.get("detail", "")) for o in proof["failed"][:40])
        violation = (H.write_replay(prop, "", "obligations of the contracts which the verifier does not accept; no failing input was found", txt), " no-failing-input-found")
    write_evidence(a, prop, seed, proof, hr, note, t0, violation)
    if violation:
        print("VIOLATION property=%s replay=%s%s" % (prop, violation[0], violation[1]), flush=True)
        return 1
    print("property %s held: %s" % (prop, summary(proof, hr)))
    return 0


def summary(proof, hr):
    s = []
    if proof:
        s.append("%d of %d obligations of %d functions discharged" % (proof["discharged"], proof["obligations"], len(proof["functions"])))
        if proof.get("undecided"):
            s.append("%d functions outside the verifier's reach (bounded stand-in)" % len(proof["undecided"]))
    if hr:
        s.append("bounded: %d cases, %d nontrivial" % (hr.cases, hr.nontrivial))
    return "; ".join(s)


def write_evidence(a, prop, seed, proof, hr, note, t0, violation):
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    cov, assumptions = {}, []
    if proof:
        cov.update(obligations=proof["obligations"], discharged=proof["discharged"], checker_cmd="python3 /verif/check.py %s" % prop,
                   trusted_base=proof["trusted"], functions_under_contract=proof["functions"], back_ends=proof["backends"],
                   solver_seconds=round(proof["solver_s"], 1), undecided=proof.get("undecided", []), vacuity_checks=proof.get("vacuity", 0),
                   failed=[o["name"] for o in proof["failed"]][:60])
        assumptions += proof["assumptions"]
    if hr:
        key = "bounded_" if proof else ""
        cov.update({key + "evaluations": hr.cases, key + "distinct_nontrivial": hr.nontrivial,
                    key + "rule": "seeded random cases of harness %s run on the real code against its reference model (bounded, never counted as proved); a case is non-trivial when it has more than a few operations or bytes" % H.HARNESS[prop],
                    key + "samples": [s[:400] for s in hr.samples]})
        if hr.other:
            cov["crashes_of_other_properties"] = [str(x)[:300] for x in hr.other]
    if note:
        cov["note"] = note
    if not cov:
        cov["note"] = "nothing ran"
    ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        # nothing was decided: no alarm, and the reason on the record
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
