#!/usr/bin/env python3
"""Runs one registered check: builds the harness with /repo's current sources, runs it under its monitors and
sanitizers, and turns what the monitors observed into a verdict.

  run_check.py <property> [--tier quick|thorough] [--seed N] [--keep]

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken;
exit 2: the check could not decide (build failure of the harness, nothing observed, ...).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VK_REPO", "/repo")

from specs import SPECS  # noqa: E402

MPI_CFLAGS = None


def mpi_flags():
    """Compile and link flags of the installed MPI."""
    global MPI_CFLAGS
    if MPI_CFLAGS is None:
        c = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True).stdout.split()
        l = subprocess.run(["mpicxx", "--showme:link"], capture_output=True, text=True).stdout.split()
        MPI_CFLAGS = (c, [x for x in l if x != "-lmpi_cxx"])
    return MPI_CFLAGS


BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-w", "-pipe",
        "-DDLAF_ASSERT_ENABLE", "-DDLAF_ASSERT_MODERATE_ENABLE", "-DDLAF_ASSERT_HEAVY_ENABLE",
        "-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__", "-DDLAF_WITH_OPENMP", "-DOMPI_SKIP_MPICXX"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "tsan": ["-O1", "-fsanitize=thread", "-DVK_TSAN"],
    "plain": ["-O1"],
    # address errors only: for the large algorithm instantiations, where the undefined-behaviour checks triple the build
    "addr": ["-O1", "-fsanitize=address"],
    "addr0": ["-O0", "-fsanitize=address"],
}
# flags of units that are never instrumented
NOSAN = {"tsan": ["-O1", "-DVK_TSAN"], "asan": ["-O1", "-DVK_ASAN"], "addr": ["-O1", "-DVK_ASAN"],
         "addr0": ["-O1", "-DVK_ASAN"]}
LINK = ["-fopenmp", "-lblaspp", "-llapackpp", "-lopenblas", "-lpthread", "-ldl"]

RUN_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "PMIX_MCA_gds": "hash", "OMPI_MCA_orte_tmpdir_base": "", "OMPI_MCA_mpi_warn_on_fork": "0",
    "OMPI_MCA_btl_base_warn_component_unused": "0", "OMPI_MCA_opal_signal": "",
    "OMPI_MCA_opal_abort_print_stack": "0", "OMPI_MCA_orte_base_help_aggregate": "0",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "2", "LC_ALL": "C",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=0:print_summary=1:disable_coredump=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=5:"
                    "second_deadlock_stack=1:detect_deadlocks=0:suppressions=" + os.path.join(HERE, "lib", "tsan.supp"),
}


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def compile_one(cmd, obj):
    cache = os.environ.get("VK_CACHE")
    if cache:
        pp = subprocess.run(cmd[:cmd.index("-c")] + ["-E"] + [cmd[cmd.index("-c") + 1]], capture_output=True)
        if pp.returncode == 0:
            h = hashlib.sha256(re.sub(rb"/tmp/vk-[^/]*/", b"", pp.stdout) + " ".join(cmd[:cmd.index("-c")]).encode()).hexdigest()
            f = os.path.join(cache, h + ".o")
            if os.path.exists(f):
                shutil.copy(f, obj)
                return 0, ""
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if os.environ.get("VK_TIMES"):
        log("[time] %5.1f %s" % (time.time() - t, cmd[cmd.index("-c") + 1]))
    if cache and r.returncode == 0:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(obj, f + ".tmp%d" % os.getpid())
        os.replace(f + ".tmp%d" % os.getpid(), f)
    return r.returncode, r.stderr


TYPE = {"s": "float", "d": "double", "c": "std::complex<float>", "z": "std::complex<double>"}


def eti_source(f, types, work, name):
    """A copy of a repository source without the explicit instantiations of unwanted element types. A source that is
    written in another way is compiled as it is. None: nothing is left to instantiate for these types."""
    path = os.path.join(REPO, f)
    drop = [TYPE[t] for t in TYPE if t not in types]
    out, kept, dropped = [], 0, 0
    for line in open(path).read().split("\n"):
        m = re.match(r"\s*DLAF_\w+_ETI\((.*)\);?\s*$", line)
        if m:
            args = [a.strip() for a in m.group(1).split(",")]
            if any(a in drop for a in args):
                dropped += 1
                line = ""
            elif any(a in TYPE.values() for a in args):
                kept += 1
        out.append(line)
    if dropped and not kept:
        return None
    dst = os.path.join(work, "%s.eti.%s.%s" % (name, types, f.replace("/", "_")))
    with open(dst, "w") as o:
        o.write('#line 1 "%s"\n' % path + "\n".join(out))
    return dst


def build(spec, builds, work):
    """Compiles every translation unit of the wanted builds in parallel, then links."""
    jobs = []
    links = []
    for name in builds:
        b = spec["builds"][name]
        cfl, lfl = mpi_flags()
        san = SAN[b.get("san", "asan")]
        inc = ["-I" + os.path.join(HERE, "lib")] + ["-I" + os.path.join(HERE, d) for d in b.get("inc", [])] + \
              ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
        objs = []
        units = []
        flags = list(b.get("flags", []))
        link = list(b.get("link", []))
        if b.get("standin"):
            inc.append("-I" + os.path.join(HERE, "standin"))
            flags += ["-include", os.path.join(HERE, "standin", "vk_compat.hpp")]
            link += ["-lboost_program_options"]
            units.append((os.path.join(HERE, "standin", "vk_sched.cpp"), ["NOSAN"]))
            if b.get("mon"):
                units.append((os.path.join(HERE, "standin", "vk_mon.cpp"), ["NOSAN"]))
        for s in b["src"]:
            f, defs = (s, []) if isinstance(s, str) else (s[0], list(s[1:]))
            units.append((os.path.join(HERE, f), defs))
        for s in b.get("repo", []):
            p = os.path.join(REPO, s)
            for f in (sorted(glob.glob(p)) if "*" in s else [p]):
                units.append((f, []))
        # repository sources instantiated for some element types only: ("path", "dz") all types in one unit,
        # ("path", "d|z") one unit per type
        for f, types in b.get("eti", []):
            for g in types.split("|"):
                e = eti_source(f, g, work, name)
                if e:
                    units.append((e, ["-include", os.path.join(HERE, "lib", "vk_types.hpp")] +
                                  ["-DVK_TYPE_" + t.upper() for t in g]))
        for i, (f, defs) in enumerate(units):
            obj = os.path.join(work, "%s.%d.%s.o" % (name, i, os.path.basename(f)))
            usan = NOSAN.get(b.get("san"), ["-O1"]) if "NOSAN" in defs else san
            cmd = ["g++"] + BASE + usan + cfl + inc + flags + [d for d in defs if d != "NOSAN"] + ["-c", f, "-o", obj]
            objs.append(obj)
            jobs.append((cmd, obj))
        exe = os.path.join(work, name + ".exe")
        links.append(["g++"] + san + objs + ["-o", exe] + lfl + link + LINK)
    t = time.time()
    # big units first
    jobs.sort(key=lambda j: (0 if ".eti." in j[0][j[0].index("-c") + 1] and "mc.cpp" in j[0][j[0].index("-c") + 1] else
                             1 if "/harness/" in j[0][j[0].index("-c") + 1] else 2))
    with cf.ThreadPoolExecutor(int(os.environ.get("VK_JOBS", "8"))) as ex:
        for (cmd, obj), (rc, err) in zip(jobs, ex.map(lambda j: compile_one(*j), jobs)):
            if rc:
                log(" ".join(cmd))
                log(err[:6000])
                raise HarnessError("compilation failed: " + cmd[cmd.index("-c") + 1])
        for cmd, r in zip(links, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), links)):
            if r.returncode:
                log(" ".join(cmd))
                log(r.stderr[:6000])
                raise HarnessError("link failed")
    log("[run_check] build %.1f s" % (time.time() - t))


def norm_frame(fr):
    """Function name without template arguments and addresses."""
    fr = re.sub(r"\(anonymous namespace\)", "anon", fr)
    prev = None
    while prev != fr:
        prev = fr
        fr = re.sub(r"<[^<>]*>", "", fr)
    fr = re.sub(r"\(.*", "", fr)
    fr = re.sub(r"^(?:[\w:&*]+ )+", "", fr.strip())
    return fr.strip()


def classify(stderr, rc):
    """Key and message of an abnormal end."""
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", stderr)
    kind = None
    pos = 0
    if m:
        kind, pos = "asan:" + m.group(1), m.start()
    m = re.search(r"([^\n]*?):(\d+):\d+: runtime error: ([^\n]*)", stderr)
    if m and (kind is None or m.start() < pos):
        kind, pos = "ubsan:" + re.sub(r"[^a-z ]", "", re.sub(r"-?\b(0x)?[0-9a-f]*\d[0-9a-f]*\b", "", m.group(3)))[:60].strip().replace(" ", "-"), m.start()
    if kind is None:
        m = re.search(r"\[ERROR\] ([^\n]*)\n([^\n]*)", stderr)
        if m:
            loc = re.sub(r":\d+ ?:.*", "", m.group(1)).split("/")[-1]
            return "assert:%s:%s" % (loc, m.group(2)[:80]), stderr[m.start():m.start() + 1500]
        m = re.search(r"\[vk-fatal\] (\S+) ([^\n]*)", stderr)
        if m:
            return m.group(1), stderr[m.start():m.start() + 3000]
        m = re.search(r"\[MPI ERROR\][^\n]*\n([^\n]*)", stderr)
        if m:
            return "mpi-error:" + m.group(1)[:60], stderr[m.start():m.start() + 1500]
        m = re.search(r"An error occurred in (MPI_\w+)", stderr)
        if m:
            return "mpi-error:" + m.group(1), stderr[max(0, m.start() - 200):m.start() + 1500]
        m = re.search(r"terminate called after throwing an instance of '([^']*)'(?:\s*what\(\):\s*([^\n]*))?", stderr)
        if m:
            return "exception:" + m.group(1), stderr[m.start():m.start() + 1500]
        return "crash:exit=%s" % rc, stderr[-1500:]
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (?:/|\()", stderr[pos:pos + 12000])
    top = next((f for f in map(norm_frame, frames) if "dlaf" in f), frames and norm_frame(frames[0]) or "?")
    return "%s@%s" % (kind, top), stderr[pos:pos + 3000]


def tsan_reports(text):
    out = {}
    for blk in re.findall(r"={18}\nWARNING: ThreadSanitizer: (.*?)\n={18}", text, re.S):
        kind = blk.split("\n")[0]
        kind = re.sub(r" \(pid.*", "", kind)
        stacks = re.split(r"\n\n", blk)
        tops = []
        for s in stacks[:2]:
            fr = [norm_frame(x) for x in re.findall(r"#\d+ (.*?) (?:/|\(|<null>)", s)]
            tops.append(next((f for f in fr if "dlaf" in f), fr[0] if fr else "?"))
        key = "tsan:%s@%s" % (kind.replace(" ", "-"), "|".join(sorted(set(tops))))
        out.setdefault(key, blk[:3500])
    return out


def run_once(spec, run, work, tier, seed, tag, timeout):
    out = os.path.join(work, "out." + tag)
    os.makedirs(out)
    tmp = os.path.join(work, "tmp." + tag)
    os.makedirs(tmp)
    exe = os.path.join(work, run["build"] + ".exe")
    env = dict(os.environ)
    env.update(RUN_ENV)
    env.update({"VK_OUT": out, "VERIF_SEED": str(seed), "VERIF_TIER": tier, "TMPDIR": tmp, "VK_TMP": tmp,
                "OMPI_MCA_orte_tmpdir_base": tmp, "VK_TSAN_LOG": os.path.join(out, "tsan")})
    env["TSAN_OPTIONS"] += ":log_path=" + os.path.join(out, "tsan")
    env.update(run.get("env", {}))
    np = run.get("np", 0)
    cmd = (["mpirun", "-np", str(np), "--oversubscribe"] if np else []) + [exe] + run.get("args", [])
    fo = open(os.path.join(out, "stdout"), "wb")
    fe = open(os.path.join(out, "stderr"), "wb")
    t = time.time()
    p = subprocess.Popen(cmd, env=env, stdout=fo, stderr=fe, cwd=tmp, start_new_session=True)
    try:
        rc = p.wait(timeout)
        hung = False
    except subprocess.TimeoutExpired:
        hung, rc = True, None
        os.killpg(p.pid, signal.SIGTERM)
        try:
            p.wait(5)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        subprocess.run(["pkill", "-9", "-f", exe])
    fo.close(); fe.close()
    err = open(os.path.join(out, "stderr"), errors="replace").read()
    reports = []
    for r in range(max(np, 1)):
        f = os.path.join(out, "report.%d.json" % r)
        if os.path.exists(f):
            reports.append(json.load(open(f)))
    cases = {}
    for f in glob.glob(os.path.join(out, "case.*")):
        cases[int(f.rsplit(".", 1)[1])] = open(f, "rb").read().split(b"\0")[0].decode(errors="replace")
    tsan = {}
    for f in glob.glob(os.path.join(out, "tsan.*")):
        tsan.update(tsan_reports(open(f, errors="replace").read()))
    complete = len(reports) == max(np, 1) and not hung
    return {"run": run, "tag": tag, "rc": rc, "hung": hung, "err": err, "reports": reports, "cases": cases,
            "tsan": tsan, "complete": complete, "wall": time.time() - t, "seed": seed}


def execute(spec, tier, seed, work):
    runs = spec["runs"](tier, seed)
    builds = sorted(set(r["build"] for r in runs))
    build(spec, builds, work)
    results = []
    timeout = spec.get("timeout", {}).get(tier, 220 if tier == "quick" else 3000)
    weight = lambda r: max(1, r.get("np", 0)) * r.get("threads", 1)
    # run several at once while the machine has room for them
    slots = int(os.environ.get("VK_JOBS", "8"))
    pending = [(i, r) for i, r in enumerate(runs)]

    def one(i, r):
        s = r.get("seed", seed)
        res = run_once(spec, r, work, tier, s, str(i), r.get("timeout", timeout))
        if res["hung"]:
            log("[run_check] run %d timed out, repeating once" % i)
            res2 = run_once(spec, r, work, tier, s, str(i) + "b", r.get("timeout", timeout))
            res2["hung_twice"] = res2["hung"]
            res = res2
        return res

    with cf.ThreadPoolExecutor(slots) as ex:
        used = 0
        futs = {}
        while pending or futs:
            k = 0
            while k < len(pending):
                w = min(slots, weight(pending[k][1]))
                if used + w <= slots + 2 or not futs:
                    i, r = pending.pop(k)
                    futs[ex.submit(one, i, r)] = w
                    used += w
                else:
                    k += 1
            done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for d in done:
                used -= futs.pop(d)
                results.append(d.result())
    results.sort(key=lambda r: int(r["tag"].rstrip("b")))
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.prop not in SPECS:
        log("unknown property " + a.prop)
        return 2
    spec = SPECS[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vk-%s-" % a.prop)
    try:
        try:
            results = execute(spec, a.tier, a.seed, work)
        except HarnessError as e:
            log("[run_check] HARNESS ERROR: %s" % e)
            return 2
        return verdict(a.prop, spec, a.tier, a.seed, results, time.time() - t0)
    finally:
        if a.keep:
            log("[run_check] kept " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def verdict(prop, spec, tier, seed, results, wall):
    viols = []  # (key, msg, case, run index)
    inconclusive = []
    evaluations, distinct, samples, counters, per_run = 0, set(), [], {}, []
    for res in results:
        if res["complete"]:
            evaluations += res["reports"][0]["evaluations"]
            for rep in res["reports"]:
                distinct.update(rep["distinct"])
                for k, v in rep["counters"].items():
                    if k.startswith("max "):
                        counters[k] = max(counters.get(k, 0), v)
                    else:
                        counters[k] = counters.get(k, 0) + v
            samples += [s for s in res["reports"][0]["samples"] if s not in samples][:max(2, 12 // len(results))]
        for rep in res["reports"]:
            for v in rep["violations"]:
                viols.append((v["key"], v["msg"], v["case"], res))
        for k, blk in res["tsan"].items():
            viols.append((k, blk, "; ".join(sorted(set(res["cases"].values()))), res))
        if not res["complete"]:
            case = "; ".join(sorted(set(c for c in res["cases"].values() if c)))
            if res["hung"]:
                if res.get("hung_twice"):
                    viols.append(("hang", "no progress within the watchdog time, twice\n" + res["err"][-1500:], case, res))
                else:
                    inconclusive.append("timeout")
            else:
                key, msg = classify(res["err"], res["rc"])
                # a crash before the first case is a failure of the harness or environment, not a verdict
                if not case:
                    log(res["err"][-3000:])
                    inconclusive.append("ended before the first case: " + key)
                else:
                    viols.append((key, msg, case, res))
        elif res["rc"] not in (0, None):
            key, msg = classify(res["err"], res["rc"])
            viols.append(("exit:" + key, msg, "after the last case", res))
        per_run.append({"build": res["run"]["build"], "ranks": res["run"].get("np", 0) or 1,
                        "seed": res["seed"], "wall_s": round(res["wall"], 2),
                        "evaluations": res["reports"][0]["evaluations"] if res["reports"] else 0})
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    kf = [k for k in known if k.get("status") == "known" and k.get("property") == prop]
    new, seen = [], {}
    for key, msg, case, res in viols:
        hit = next((k for k in kf if k["key"] == key and re.search(k.get("case", ""), case)), None)
        if hit:
            seen[hit["key"]] = hit
        else:
            new.append((key, msg, case, res))
    for k in kf:
        # a listed finding is always announced; whether it was observed in this run is said in the evidence
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    for old in glob.glob(os.path.join(HERE, "evidence", "replay", prop + "-*.json")):
        os.remove(old)
    lines = []
    done = set()
    for key, msg, case, res in new:
        if key in done:
            continue
        done.add(key)
        path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (prop, len(done)))
        json.dump({"property": prop, "key": key, "message": msg, "case": case, "tier": tier, "seed": res["seed"],
                   "build": res["run"]["build"], "ranks": res["run"].get("np", 0) or 1,
                   "args": res["run"].get("args", []), "env": res["run"].get("env", {}),
                   "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 run_check.py %s" % (seed, tier, prop)},
                  open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        log("[violation] %s\n   case: %s\n   %s" % (key, case[:500], msg[:1500]))
    cov = {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
           "samples": samples[:24], "observed": dict(sorted(counters.items())), "runs": per_run}
    if kf:
        cov["known_findings_observed"] = sorted(seen)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(done)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("[run_check] %s %s seed %d: %d cases, %d distinct non-trivial, %.1f s, %d violation(s)" %
        (prop, tier, seed, evaluations, len(distinct), wall, len(done)))
    if lines:
        for l in lines:
            print(l)
        return 1
    if inconclusive:
        log("[run_check] INCONCLUSIVE: " + "; ".join(inconclusive))
        return 2
    floor = spec.get("min_distinct", 10)
    missing = [c for c in spec.get("must_observe", []) if not counters.get(c)]
    if evaluations == 0 or len(distinct) < floor or missing:
        log("[run_check] nothing (or too little) was observed: %s" % (missing or len(distinct)))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
