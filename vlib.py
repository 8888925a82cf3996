"""Runner: regenerates the encoding from /repo's current source, runs the symbolic executor, validates sampled paths and
counterexamples against a native build of the same source, writes evidence."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYMX = V + "/build/symx"
SRC = REPO + "/src"
NCPU = min(8, os.cpu_count() or 8)

IRFLAGS = ("-std=c++20 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops "
           "-D_GLIBCXX_EXTERN_TEMPLATE=0 -Wno-everything").split()
NATFLAGS = "-std=c++20 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -Wno-everything -DSX_NATIVE".split()
# flags for encodings/replays in which undefined arithmetic is made to trap
UBSAN = "shift,signed-integer-overflow,integer-divide-by-zero,bool,enum,null,unreachable,return,float-cast-overflow,vla-bound"


class CheckError(Exception):
    pass


class HarnessError(CheckError):
    pass


class Job:
    """One harness entry. mode: 'a' = whole real code; 'b' = contract event queue; 'u' = real code, UB traps."""

    def __init__(self, file, entry, mode="a", time=60, workers=8, bound="", reach=("end",), steps=None, thorough=False,
                 defs=(), quick=True, bv=False, ubonly=False):
        self.file, self.entry, self.mode, self.time, self.workers = file, entry, mode, time, workers
        self.bound, self.reach, self.steps = bound, reach, steps
        self.thorough_only = thorough
        self.quick_only = not quick
        self.defs = tuple(defs)
        self.bv = bv
        self.ubonly = ubonly  # report only memory errors and undefined behaviour (assertions are compiled out)
        if ubonly:
            self.defs += ("-DSX_NOASSERT",)

    def key(self):
        return (self.file, self.mode, self.defs)


class PyJob:
    """One entry of harness/py_layer.py, run by pysym.py."""

    def __init__(self, entry, time=60, bound="", reach=("end",), thorough=False):
        self.entry, self.time, self.bound, self.reach, self.thorough_only = entry, time, bound, reach, thorough


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    out = []
    for d, _, fs in os.walk(SRC + "/pymatching"):
        for f in sorted(fs):
            if not f.endswith(".cc"):
                continue
            if re.search(r"(\.test|\.perf|\.pybind)\.cc$", f) or f in ("main.cc", "namespaced_main.cc", "animation_main.cc"):
                continue
            p = os.path.join(d, f)
            if "/diagram/" in p or "/perf/" in p:
                continue
            out.append(p)
    return sorted(out)


class Build:
    def __init__(self, wd):
        self.wd = wd
        self.ex = cf.ThreadPoolExecutor(max_workers=NCPU)
        self.lock = threading.Lock()
        self.repo_f = {}
        self.har_f = {}

    def inc(self, mode):
        i = []
        if mode == "b":
            i.append("-I" + V + "/abs")
        i += ["-I" + V + "/h", "-I" + V + "/harness", "-I" + V + "/stubs", "-I" + SRC]
        return i

    def flags(self, mode):
        if mode == "n":
            return NATFLAGS
        if mode == "nu":
            return NATFLAGS + ["-fsanitize=" + UBSAN, "-fno-sanitize-recover=all"]
        if mode == "u":
            return IRFLAGS + ["-fsanitize=" + UBSAN, "-fsanitize-trap=all"]
        return IRFLAGS

    def _cc(self, mode, src, out, defs=()):
        ir = [] if mode in ("n", "nu") else ["-emit-llvm"]
        cmd = ["clang++-18"] + self.flags(mode) + self.inc(mode) + list(defs) + ["-c"] + ir + [src, "-o", out]
        r = sh(cmd)
        return (r.returncode, src, r.stdout)

    def start_repo(self, mode):
        if mode in self.repo_f:
            return
        d = f"{self.wd}/repo_{mode}"
        os.makedirs(d, exist_ok=True)
        fs = []
        for s in repo_sources():
            o = d + "/" + os.path.relpath(s, SRC).replace("/", "_") + ".o"
            fs.append((o, self.ex.submit(self._cc, mode, s, o)))
        if mode not in ("n", "nu"):
            o = d + "/symrt.o"
            fs.append((o, self.ex.submit(self._cc, mode, V + "/h/symrt.cc", o)))
        else:
            o = d + "/native.o"
            fs.append((o, self.ex.submit(self._cc, mode, V + "/h/native.cc", o)))
        self.repo_f[mode] = fs

    def start_harness(self, file, mode, defs):
        k = (file, mode, defs)
        if k in self.har_f:
            return
        tag = hashlib.md5(repr(k).encode()).hexdigest()[:8]
        o = f"{self.wd}/h_{os.path.basename(file)}_{tag}.o"
        self.har_f[k] = (o, self.ex.submit(self._cc, mode, V + "/harness/" + file, o, defs))

    def _objs(self, mode):
        objs = []
        for o, f in self.repo_f[mode]:
            rc, src, out = f.result()
            if rc:
                raise CheckError(f"compile failed ({mode}): {src}\n{out[:3000]}")
            objs.append(o)
        return objs

    def link(self, file, mode, defs):
        k = (file, mode, defs)
        o, f = self.har_f[k]
        rc, src, out = f.result()
        objs = self._objs(mode)
        if rc:
            # the sources compile, the scenario written against their interface does not
            raise HarnessError(f"compile failed ({mode}): {src}\n{out[:3000]}")
        tgt = o[:-2] + (".bin" if mode in ("n", "nu") else ".bc")
        with self.lock:
            if os.path.exists(tgt):
                return tgt
            if mode in ("n", "nu"):
                fl = [x for x in self.flags(mode) if x.startswith("-fsan")]
                # a harness named ov_* replaces functions of the repository (stated in its header)
                ov = ["-Wl,--allow-multiple-definition"] if file.startswith("ov_") else []
                r = sh(["clang++-18"] + fl + ["-rdynamic"] + ov + [o] + objs + ["-o", tgt + ".tmp", "-ldl"])
            elif file.startswith("ov_"):
                r = sh(["llvm-link-18"] + objs + ["--override=" + o, "-o", tgt + ".tmp"])
            else:
                r = sh(["llvm-link-18"] + objs + [o, "-o", tgt + ".tmp"])
            if r.returncode:
                raise HarnessError("link failed: " + r.stdout[:3000])
            os.rename(tgt + ".tmp", tgt)
        return tgt


SUMK = ("paths forks steps asserts assertQueries unexplored unknown assumeKilled stepLimit queries sat unsat solverUnknown "
        "bvQueries solverTime workersBad").split()


def parse(prefix):
    R = {k: 0 for k in SUMK}
    R.update(maxDepth=0, solverMax=0.0, unsup={}, reach={}, funcs={}, bbs={}, sfuncs=set(), slines=set(), viol=[], samples=[], frontierLeft=0)
    for fn in sorted(glob.glob(prefix + ".w*")):
        cur = None
        for line in open(fn, errors="replace"):
            line = line.rstrip("\n")
            t = line.split(" ")
            k = t[0]
            if cur is not None:
                if k in ("vin", "in"):
                    cur["in"].append((t[1], t[2]))
                elif k == "out":
                    cur["out"].append((t[1], t[2]))
                elif k == "vtrail":
                    cur.setdefault("trail", []).append(line[7:])
                elif k == "vend":
                    R["viol"].append(cur)
                    cur = None
                elif k == "send":
                    R["samples"].append(cur)
                    cur = None
                continue
            if k in SUMK:
                R[k] += float(t[1]) if k == "solverTime" else int(t[1])
            elif k == "solverMax":
                R[k] = max(R[k], float(t[1]))
            elif k in ("maxDepth",):
                R[k] = max(R[k], int(t[1]))
            elif k == "wall":
                R["wall"] = float(t[1])
            elif k == "frontierLeft":
                R[k] += int(t[1])
            elif k == "unsup":
                w = " ".join(t[2:])
                R["unsup"][w] = R["unsup"].get(w, 0) + int(t[1])
            elif k == "reach":
                w = " ".join(t[2:])
                R["reach"][w] = R["reach"].get(w, 0) + int(t[1])
            elif k == "func":
                R["funcs"][t[3]] = int(t[2])
            elif k == "sfunc":
                R["sfuncs"].add(line[6:])
            elif k == "sline":
                R["slines"].add(line[6:])
            elif k == "bb":
                R["bbs"].setdefault(t[1], set()).add(t[2])
            elif k == "viol":
                p = line[5:].split(" | ")
                cur = {"kind": p[0], "msg": p[1] if len(p) > 1 else "", "where": p[2] if len(p) > 2 else "", "in": [], "out": []}
            elif k == "sample":
                cur = {"in": [], "out": []}
    return R


def write_case(path, meta, case, with_out):
    with open(path, "w") as f:
        for k, v in meta.items():
            f.write(f"# {k}: {v}\n")
        for n, v in case["in"]:
            f.write(f"in {n} {v}\n")
        if with_out:
            for n, v in case["out"]:
                f.write(f"out {n} {v}\n")


def native_run(binp, entry, path, mode_print, timeout=30):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=1000000000"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    try:
        r = subprocess.run([binp, entry, path] + (["print"] if mode_print else []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def summarize_native(rc, out):
    m = re.search(r"SXFAIL (.*)", out)
    if m:
        return "assertion: " + m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", out)
    if m:
        return "memory error: " + m.group(1)
    m = re.search(r"runtime error: (.*)", out)
    if m:
        return "undefined behaviour: " + m.group(1)
    m = re.search(r"terminate called.*\n(.*what.*)?", out)
    if m:
        return "uncaught exception " + m.group(0).replace("\n", " ")
    return f"native exit {rc}"


def known_findings(pid):
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def run_check(pid, tier, jobs, title, assumptions, outside, deadline=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = deadline or (780 if tier == "quick" else 6 * 3600)
    if not os.path.exists(SYMX):
        r = sh(["bash", V + "/symx/build.sh"])
        if r.returncode:
            raise CheckError("engine build failed\n" + r.stdout)
    wd = f"{V}/build/run_{pid}_{os.getpid()}"
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        return _run(pid, tier, jobs, title, assumptions, outside, t0, seed, limit, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def _run(pid, tier, jobs, title, assumptions, outside, t0, seed, limit, wd):
    jobs = [j for j in jobs if (tier == "thorough" and not j.quick_only) or (tier == "quick" and not j.thorough_only)]
    bld = Build(wd)
    for m in dict.fromkeys(j.mode for j in jobs):
        bld.start_repo(m)
    for j in jobs:
        bld.start_harness(j.file, j.mode, j.defs + (f"-DTIER={1 if tier == 'thorough' else 0}",))
    natmodes = {}
    for j in jobs:
        nm = "nu" if j.mode == "u" else "n"
        natmodes.setdefault(nm, set()).add((j.file, j.defs))
    for nm, fs in natmodes.items():
        bld.start_repo(nm)
        for f, defs in fs:
            bld.start_harness(f, nm, defs + (f"-DTIER={1 if tier == 'thorough' else 0}",))
    td = (f"-DTIER={1 if tier == 'thorough' else 0}",)
    notes = []
    mods = {}
    for j in jobs:
        k = j.key()
        if k in mods:
            continue
        try:
            mods[k] = bld.link(j.file, j.mode, j.defs + td)
        except CheckError as e:
            if isinstance(e, HarnessError):
                mods[k] = None
                notes.append("scenario not applicable to this tree's interfaces: " + str(e)[:300])
            elif j.mode == "b":
                # The contract queue only stands in for the real header when the sources still fit it; the encodings
                # with the real queue are unaffected.
                mods[k] = None
                notes.append("contract-queue encoding not applicable to this tree: " + str(e)[:300])
            else:
                raise
    compile_s = time.time() - t0

    results = {}
    viol_found = []
    stop = threading.Event()

    def run_job(j):
        if mods[j.key()] is None or stop.is_set():
            return
        left = limit - (time.time() - t0)
        if left < 5:
            results[id(j)] = None
            return
        pre = f"{wd}/o_{j.entry}_{j.mode}_{id(j)}"
        cmd = [SYMX, mods[j.key()], "--entry", j.entry, "--out", pre, "--time", str(int(max(3, min(j.time, left - 3)))),
               "--workers", str(j.workers), "--repo", REPO + "/", "--samples", "3" if j.workers > 1 else "12",
               "--max-viol", "4", "--seed", str(seed)]
        if j.bv:
            cmd += ["--bv"]
        if j.steps:
            cmd += ["--max-steps", str(j.steps)]
        r = sh(cmd)
        R = parse(pre)
        R["rc"] = r.returncode
        R["log"] = r.stdout[-2000:]
        R.setdefault("wall", 0.0)
        results[id(j)] = R
        if r.returncode not in (0, 1) or (R["paths"] == 0 and not R["viol"]):
            notes.append(f"engine: {j.entry}/{j.mode} rc={r.returncode} {r.stdout[-400:]}")

    def native(j):
        return bld.link(j.file, "nu" if j.mode == "u" else "n", j.defs + td)

    replay_dir = f"{V}/build/replay"
    os.makedirs(replay_dir, exist_ok=True)
    known = known_findings(pid)
    known_hit = {}
    spurious = []
    validated = 0
    mismatches = []

    def handle(j):
        try:
            handle1(j)
        except HarnessError as e:
            notes.append(f"{j.entry}/{j.mode}: no native build of the scenario, nothing reported from it: " + str(e)[:300])

    def handle1(j):
        nonlocal validated
        R = results.get(id(j))
        if R is None:
            return
        for i, v in enumerate(R["viol"]):
            path = f"{wd}/viol_{j.entry}_{j.mode}_{i}.txt"
            write_case(path, dict(property=pid, harness=j.file, entry=j.entry, mode=j.mode, defs=" ".join(j.defs), tier=tier,
                                  kind=v["kind"], message=v["msg"], where=v["where"]), v, False)
            rc, out = native_run(native(j), j.entry, path, True)
            if rc in (0, 3, 4, 5):
                spurious.append(dict(entry=j.entry, mode=j.mode, kind=v["kind"], msg=v["msg"], where=v["where"], rc=rc,
                                     inputs=v["in"][:40]))
                continue
            what = summarize_native(rc, out)
            report(j, path, v["kind"] + ": " + v["msg"] + " @ " + v["where"] + " [" + what + "]")
        # sampled paths of the encoding, replayed natively
        samples = R["samples"][:40 if tier == "quick" else 200]
        todo = []
        for i, s in enumerate(samples):
            path = f"{wd}/s_{j.entry}_{j.mode}_{i}.txt"
            write_case(path, dict(property=pid, harness=j.file, entry=j.entry, mode=j.mode, defs=" ".join(j.defs), tier=tier,
                                  kind="native", message="input taken from a discharged path"), s, True)
            todo.append((path, s))
        if todo:
            b = native(j)
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for (path, s), (rc, out) in zip(todo, ex.map(lambda t: native_run(b, j.entry, t[0], False), todo)):
                    if rc == 0:
                        validated += 1
                    elif rc == 5:
                        mismatches.append(dict(entry=j.entry, mode=j.mode, inputs=s["in"][:40], out=out[:600]))
                    else:
                        report(j, path, "native run of a solver-chosen input: " + summarize_native(rc, out))

    def report(j, path, desc):
        txt = open(path).read()
        if j.ubonly and not re.search(r"\[(memory error|undefined behaviour)|: (memory error|undefined behaviour):", desc):
            notes.append(f"{j.entry}/{j.mode}: not a memory error, left to the other properties: {desc[:200]}")
            return
        for ent, pat, what in known:
            if ent == j.entry and re.search(pat, desc):
                known_hit[(ent, pat)] = what
                return
        tag = hashlib.md5(txt.encode()).hexdigest()[:8]
        dst = f"{replay_dir}/{pid}_{j.entry}_{tag}.txt"
        with open(dst, "w") as f:
            f.write(f"# observed: {desc}\n" + txt)
        viol_found.append((dst, desc))
        stop.set()

    # heavy jobs use all workers one after another; light ones (workers==1) share the cores
    light = [j for j in jobs if j.workers == 1]
    heavy = [j for j in jobs if j.workers > 1]
    if light:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(run_job, light))
        for j in light:
            handle(j)
    for j in heavy:
        if viol_found:
            break
        run_job(j)
        handle(j)

    # ---------------------------------------------------------------- report
    tot = {k: 0 for k in SUMK}
    solver_max = 0.0
    funcs, bbs, reach, unsup = {}, {}, {}, {}
    sfuncs, slines = set(), set()
    per = []
    vac = []
    incomplete = []
    for j in jobs:
        R = results.get(id(j))
        if R is None:
            if not viol_found:
                incomplete.append(f"{j.entry}/{j.mode}: not run (time limit or encoding not applicable)")
            continue
        for k in SUMK:
            tot[k] += R[k]
        solver_max = max(solver_max, R["solverMax"])
        funcs.update(R["funcs"])
        sfuncs |= R["sfuncs"]
        slines |= R["slines"]
        for f, b in R["bbs"].items():
            bbs.setdefault(f, set()).update(b)
        for k, n in R["reach"].items():
            reach[j.entry + ":" + k] = reach.get(j.entry + ":" + k, 0) + n
        for k, n in R["unsup"].items():
            unsup[k] = unsup.get(k, 0) + n
        un = R["unexplored"] + R["frontierLeft"] + R["unknown"] + R["stepLimit"] + sum(R["unsup"].values())
        full = un == 0 and R["workersBad"] == 0 and R["rc"] in (0, 1)
        if not full:
            incomplete.append(f"{j.entry}/{j.mode}: unexplored={R['unexplored'] + R['frontierLeft']} unknown={R['unknown']} "
                              f"stepLimit={R['stepLimit']} unsupported={R['unsup']} workersBad={R['workersBad']}")
        for lab in j.reach:
            if not R["reach"].get(lab) and not R["viol"] and not viol_found and full:
                vac.append(f"{j.entry}/{j.mode}: label '{lab}' never reached")
        per.append(dict(harness=j.file, entry=j.entry, encoding={"a": "real code", "b": "real code with contract event queue",
                                                                 "u": "real code with undefined-arithmetic traps"}[j.mode],
                        bound=j.bound, all_paths_within_bound=full, paths=R["paths"], queries=R["queries"],
                        asserts=R["asserts"], wall_s=round(R["wall"], 2), solver_s=round(R["solverTime"], 2),
                        witnesses=R["reach"]))
    flist = sorted(sfuncs)
    lines = {}
    for x in slines:
        lines.setdefault(x.rsplit(":", 1)[0], []).append(int(x.rsplit(":", 1)[1]))
    samples = []
    for j in jobs:
        R = results.get(id(j))
        if R and R["samples"]:
            samples.append(dict(entry=j.entry, inputs=dict(R["samples"][0]["in"]), outputs=R["samples"][0]["out"][:20]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
              violations=len(viol_found), assumptions=assumptions,
              coverage=dict(
                  states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=validated,
                  samples=samples[:12], exhaustive=not incomplete and not viol_found,
                  explanation="states = completed symbolic paths (each stands for every input satisfying its path condition); "
                              "transitions = LLVM IR instructions of the code and harness executed symbolically; traces_validated_against_impl "
                              "= sampled paths whose solver-chosen inputs gave the same outputs in an address-sanitised native build.",
                  title=title, harnesses=per, outside_bounds=outside,
                  solver=dict(name="z3 4.8.12 (QF_LIA; 80-bit bit-vector fallback)", queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"],
                              unknown=tot["solverUnknown"], bitvector_queries=tot["bvQueries"], assertions_checked=tot["asserts"],
                              assertion_queries=tot["assertQueries"], solver_s=round(tot["solverTime"], 2), slowest_query_s=round(solver_max, 3)),
                  forks=tot["forks"], functions_encoded=len(flist), functions=flist, source_lines_executed={k: len(v) for k, v in sorted(lines.items())}, reachability_witnesses=reach,
                  incomplete=incomplete, vacuous=vac, unsupported=unsup, native_mismatches=mismatches, notes=notes,
                  counterexamples_not_reproduced=spurious, compile_s=round(compile_s, 2),
                  violations_reported=[dict(replay=p, what=d) for p, d in viol_found]))
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {title}: {tot['paths']} paths, {tot['queries']} solver queries ({tot['solverTime']:.1f} s), {tot['asserts']} assertions, "
          f"{validated} paths replayed natively, {len(flist)} functions encoded, wall {time.time() - t0:.1f} s")
    for w in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {w}")
    for x in incomplete:
        print("  bound not exhausted:", x)
    for x in notes:
        print("  note:", x)
    if viol_found:
        for p, d in viol_found[:5]:
            print("  " + d)
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    bad = 0
    for s in spurious:
        print("  counterexample not reproduced natively:", json.dumps(s)[:500])
    for m in mismatches:
        print("  encoding/native mismatch:", json.dumps(m)[:700])
        # recorded, not fatal: the choice among equally good answers may depend on addresses or on the contract queue
    for v in vac:
        print("  vacuous:", v)
        bad = 1
    if bad:
        print(f"ERROR property={pid}: the encoding could not be trusted on this tree")
        return 2
    return 0


def replay(path):
    meta = {}
    for line in open(path):
        m = re.match(r"# (\w+): ?(.*)$", line)
        if m:
            meta[m.group(1)] = m.group(2)
    wd = f"{V}/build/replay_{os.getpid()}"
    os.makedirs(wd)
    try:
        bld = Build(wd)
        nm = "nu" if meta["mode"] == "u" else "n"
        defs = tuple(meta["defs"].split()) + (f"-DTIER={1 if meta['tier'] == 'thorough' else 0}",)
        bld.start_repo(nm)
        bld.start_harness(meta["harness"], nm, defs)
        rc, out = native_run(bld.link(meta["harness"], nm, defs), meta["entry"], path, True)
        print(out)
        print("native result:", rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run_python_check(pid, tier, jobs, title, assumptions, outside):
    t0 = time.time()
    jobs = [j for j in jobs if tier == "thorough" or not j.thorough_only]

    def one(j):
        secs = j.time * (20 if tier == "thorough" else 1)
        r = subprocess.run(["python3-vt", V + "/pysym.py", tier, f"{j.entry}:{secs}"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return dict(entry=j.entry, error=r.stderr[-1500:])
        return json.loads(r.stdout)[0]

    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    known = known_findings(pid)
    viol, notes, incomplete, vac, per, samples, spurious, funcs, hits = [], [], [], [], [], [], [], {}, []
    tot = dict(paths=0, queries=0, asserts=0, solver_s=0.0, validated=0)
    os.makedirs(f"{V}/build/replay", exist_ok=True)
    for j, R in zip(jobs, res):
        if "error" in R:
            notes.append(f"{j.entry}: the module could not be executed: {R['error']}")
            incomplete.append(f"{j.entry}: not run")
            continue
        for k in tot:
            tot[k] += R[k]
        for f, n in R["functions"].items():
            funcs[f] = max(funcs.get(f, 0), n)
        full = not R["left"] and not R["unsupported"]
        if not full and not R["violations"]:
            incomplete.append(f"{j.entry}: unexplored={R['left']} unsupported={R['unsupported']}")
        for lab in j.reach:
            if full and not R["witnesses"].get(lab) and not R["violations"]:
                vac.append(f"{j.entry}: label '{lab}' never reached")
        spurious += [dict(entry=j.entry, **x) for x in R["spurious"]]
        samples += [dict(entry=j.entry, inputs=x) for x in R["samples"][:2]]
        for v in R["violations"]:
            desc = f"{v['message']} [{v['native']}]"
            k = [w for e, pat, w in known if e == j.entry and re.search(pat, desc)]
            if k:
                hits += k[:1]
                continue
            txt = json.dumps(dict(property=pid, entry=j.entry, observed=desc, inputs=v["inputs"]), indent=1)
            dst = f"{V}/build/replay/{pid}_{j.entry}_{hashlib.md5(txt.encode()).hexdigest()[:8]}.json"
            with open(dst, "w") as f:
                f.write(txt)
            viol.append((dst, desc))
        per.append(dict(harness="py_layer.py", entry=j.entry, encoding="Python source executed on solver terms", bound=j.bound, all_paths_within_bound=full, paths=R["paths"],
                        queries=R["queries"], asserts=R["asserts"], wall_s=R["wall_s"], solver_s=round(R["solver_s"], 2), witnesses=R["witnesses"]))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=assumptions,
              coverage=dict(states=tot["paths"], transitions=tot["asserts"], traces_validated_against_impl=tot["validated"], samples=samples[:12], exhaustive=not incomplete and not viol,
                            explanation="states = completed symbolic paths; transitions = assertions decided on them; traces_validated_against_impl = sampled paths whose solver-chosen inputs "
                                        "passed again with plain Python numbers and NumPy arrays.",
                            title=title, harnesses=per, outside_bounds=outside,
                            solver=dict(name="z3 (python3-vt z3-solver)", queries=tot["queries"], assertions_checked=tot["asserts"], solver_s=round(tot["solver_s"], 2)),
                            functions_encoded=len(funcs), functions=sorted(funcs), source_lines_executed=funcs, incomplete=incomplete, vacuous=vac, notes=notes,
                            counterexamples_not_reproduced=spurious, violations_reported=[dict(replay=p, what=d) for p, d in viol]))
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {title}: {tot['paths']} paths, {tot['queries']} solver queries ({tot['solver_s']:.1f} s), {tot['asserts']} assertions, {tot['validated']} paths replayed natively, "
          f"{len(funcs)} functions encoded, wall {time.time() - t0:.1f} s")
    for w in dict.fromkeys(hits):
        print(f"KNOWN-FINDING: property={pid} {w}")
    for x in incomplete:
        print("  bound not exhausted:", x)
    for x in notes:
        print("  note:", x)
    for x in spurious:
        print("  counterexample not reproduced natively:", json.dumps(x)[:500])
    if viol:
        for p, d in viol[:5]:
            print("  " + d)
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if vac:
        print("  vacuous:", vac)
        print(f"ERROR property={pid}: the encoding could not be trusted on this tree")
        return 2
    return 0
