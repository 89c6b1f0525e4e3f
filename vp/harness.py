"""Bounded stand-in and replay: builds a harness of /verif/replay against the sources of /repo and runs it.

A harness is the executable form of the contracts of one layer. It is labelled bounded everywhere: what it reports is
a failing history or input (with which a violation is confirmed on the real code), never a proof."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")

VAULT = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P23".split()
HARNESS = {p: "h_vault" for p in VAULT}
HARNESS.update(P14="h_saver", P15="h_csv", P16="h_reader", P17="h_file", P18="h_num", P19="h_lock", P20="h_uuid",
               P21="h_json", P22="h_map")
# library sources a harness links (the rest are header only)
NEEDS = {"h_saver": ["DataSaver.cpp"], "h_csv": ["CsvParser/*.cpp"], "h_reader": ["CsvParser/*.cpp"], "h_num": [],
         "h_lock": ["ReadWriteMutex.cpp"], "h_uuid": ["Uuid/*.cpp"], "h_map": []}
RUN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")


class BuildFailed(Exception):
    pass


def _sh(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")


def build(name, outdir, jobs=8):
    src = os.path.join(REPO, "Source")
    pats = NEEDS.get(name)
    files = sorted(glob.glob(src + "/**/*.cpp", recursive=True)) if pats is None else sorted(f for p in pats for f in glob.glob(os.path.join(src, p)))
    # the vault harness is large: undefined-behaviour checks would double its build time
    san = "-fsanitize=address" if name == "h_vault" else "-fsanitize=address,undefined"
    flags = ["-g1", "-O1", san, "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-w", "-DNDEBUG", "-DNO_BACKTRACE_SUPPORT", "-I" + src]
    if "undefined" in san:
        flags.append("-fno-sanitize-recover=undefined")
    objs, jobsl = [], []
    hcpp = os.path.join(ROOT, "replay", name + ".cpp")
    objs.append(os.path.join(outdir, "h.o"))
    jobsl.append(["g++", "-std=c++17"] + flags + ["-I" + os.path.join(ROOT, "replay"), "-c", hcpp, "-o", objs[-1]])
    for i, f in enumerate(files):
        objs.append(os.path.join(outdir, "s%d.o" % i))
        jobsl.append(["g++", "-std=c++11"] + flags + ["-c", f, "-o", objs[-1]])
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda c: _sh(c, 600), jobsl):
            if r.returncode:
                raise BuildFailed(r.stdout[-3000:])
    exe = os.path.join(outdir, "h")
    r = _sh(["g++", san] + objs + ["-o", exe, "-lpthread", "-ldl"], 300)
    if r.returncode:
        raise BuildFailed(r.stdout[-3000:])
    for o in objs:
        os.unlink(o)
    return exe


def _crash_props(name, prop, err):
    """The properties a crash belongs to: those of the last operation, and the owner of the memory that was misused."""
    if name != "h_vault":
        return [prop]
    props = []
    ops = re.findall(r"^@op ([P0-9 ]+)", err, re.M)
    if ops:
        props += ops[-1].split()
    if "heap-use-after-free" in err or "double-free" in err:
        props += ["P11", "P12"]
    return props or [prop]


def run_one(exe, prop, seed, ms, maxcases, workdir, tag):
    cur = os.path.join(workdir, "cur.%s" % tag)
    errf = os.path.join(workdir, "err.%s" % tag)
    try:
        with open(errf, "w") as e:
            r = subprocess.run([exe, "gen", prop, str(seed), str(ms), str(maxcases), cur], stdout=subprocess.PIPE, stderr=e,
                               timeout=ms / 1000 + 150, env=RUN_ENV, errors="replace", cwd=workdir)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = -99, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    err = open(errf, errors="replace").read()
    return rc, out, err, (open(cur, errors="replace").read().strip() if os.path.exists(cur) else "")


def replay_file(exe, prop, path, workdir, timeout=120):
    """(failed, text)"""
    try:
        r = subprocess.run([exe, "replay", prop, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=RUN_ENV, errors="replace", cwd=workdir)
    except subprocess.TimeoutExpired:
        return True, "the case does not come to an end within %d s" % timeout, ""
    m = re.search(r"^FAIL (.*)", r.stdout, re.M | re.S)
    if r.returncode == 1 and m:
        return True, m.group(1).strip(), r.stderr
    if r.returncode == 0 and "PASS" in r.stdout:
        return False, "", r.stderr
    why = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*)", r.stderr)
    return True, "the program stops abnormally: " + (why.group(1) if why else "exit status %d" % r.returncode), r.stderr


def shrink_crash(exe, prop, case, workdir, budget=60):
    sep = " " if ";" not in case else ";"
    parts = [x for x in case.split(sep) if x]
    head = parts[:1] if sep == ";" else []
    parts = parts[len(head):]
    t0 = time.time()
    f = os.path.join(workdir, "shrink.case")

    def fails(ps):
        open(f, "w").write(sep.join(head + ps) + sep + "\n")
        bad, text, err = replay_file(exe, prop, f, workdir, 20)
        return bad and "abnormally" in text
    if not fails(parts):
        return case
    n = max(1, len(parts) // 2)
    while n >= 1 and time.time() - t0 < budget:
        i, changed = 0, False
        while i < len(parts) and time.time() - t0 < budget:
            q = parts[:i] + parts[i + n:]
            if q and fails(q):
                parts, changed = q, True
            else:
                i += n
        n = n // 2 if not changed or n > 1 else 0 if not changed else n
        if n == 1 and not changed:
            break
    return sep.join(head + parts) + sep


class Result:
    def __init__(self):
        self.failed = False
        self.what = ""
        self.case = ""
        self.cases = 0
        self.nontrivial = 0
        self.samples = []
        self.note = ""
        self.wall = 0.0
        self.other = []


def search(exe, prop, seed, ms, workdir, jobs=8, maxcases=10 ** 9):
    name = HARNESS[prop]
    res = Result()
    t0 = time.time()
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda i: run_one(exe, prop, seed * 1000 + i, ms, maxcases, workdir, str(i)), range(jobs)))
    best = None
    for rc, out, err, cur in outs:
        m = re.search(r"^CASES (\d+) (\d+)", out, re.M)
        if m:
            res.cases += int(m.group(1))
            res.nontrivial += int(m.group(2))
        if len(res.samples) < 3:
            res.samples += re.findall(r"^SAMPLE (.*)", out, re.M)[:1]
        m = re.search(r"^CASE (.*?)\nFAIL (.*)", out, re.M | re.S)
        if m:
            c = (m.group(1).strip(), m.group(2).strip()[:4000])
            if best is None or len(c[0]) < len(best[0]):
                best = c
        elif rc != 0 or "PASS" not in out:
            props = _crash_props(name, prop, err)
            why = "the run does not come to an end" if rc == -99 else (re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*)", err) or [None, "exit status %d" % rc])[1]
            if prop in props and cur:
                small = shrink_crash(exe, prop, cur, workdir) if rc != -99 and best is None else cur
                if best is None:
                    best = (small, "the program stops abnormally: " + why)
            else:
                res.other.append((props, why))
    if best:
        res.failed, (res.case, res.what) = True, best
    res.wall = time.time() - t0
    return res


def write_replay(prop, case, what, extra=""):
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((case + what).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.case" % (prop, h))
    with open(p, "w") as f:
        f.write("# property %s, harness /verif/replay/%s.cpp\n# replay: python3 /verif/check.py %s --replay %s\n" % (prop, HARNESS.get(prop, "?"), prop, p))
        for l in (what + "\n" + extra).splitlines():
            f.write("# " + l[:2000] + "\n")
        if case:
            f.write(case + "\n")
    return p
