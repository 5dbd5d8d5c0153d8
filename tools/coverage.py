"""Which lines of /repo the workloads of the checks execute: builds each check with gcov instead of sanitizers.
usage: coverage.py CID...   -> /tmp/vkcov/<CID>.json {file: {line: count}};  coverage.py report [regex]"""
import collections, glob, gzip, json, os, re, shutil, subprocess, sys, tempfile
import concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
OUT = "/tmp/vkcov"
os.makedirs(OUT, exist_ok=True)


def one(cid):
    os.environ.pop("VK_CACHE", None)
    import run_check as rc
    cov = ["-O0", "--coverage", "-fprofile-update=atomic"]
    rc.SAN = {k: cov for k in rc.SAN}
    rc.NOSAN = {k: ["-O1"] for k in rc.NOSAN}
    spec = rc.SPECS[cid]
    runs = spec["runs"]
    spec["runs"] = lambda tier, seed: [r for r in runs(tier, seed) if spec["builds"][r["build"]].get("san", "asan") != "tsan"] or runs(tier, seed)
    work = tempfile.mkdtemp(prefix="vk-cov-%s-" % cid)
    try:
        res = rc.execute(spec, "quick", 1, work)
        print(cid, [(r["complete"], r["rc"]) for r in res], flush=True)
        lines = collections.defaultdict(lambda: collections.defaultdict(int))
        gcdas = glob.glob(work + "/*.gcda")

        def g(f):
            d = tempfile.mkdtemp(dir=work)
            p = subprocess.run(["gcov", "--json-format", "--stdout", f], cwd=d, capture_output=True)
            r = {}
            for doc in p.stdout.splitlines():
                for fi in json.loads(doc)["files"]:
                    n = os.path.normpath(fi["file"])
                    if "/repo/" not in n and "eti." not in n:
                        continue
                    l = r.setdefault(n, collections.defaultdict(int))
                    for x in fi["lines"]:
                        l[x["line_number"]] += x["count"]
            return r
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(g, gcdas):
                for n, l in r.items():
                    for k, v in l.items():
                        lines[n][k] += v
        json.dump(lines, open(OUT + "/" + cid + ".json", "w"))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(rx):
    tot = collections.defaultdict(lambda: collections.defaultdict(int))
    for f in glob.glob(OUT + "/*.json"):
        for n, l in json.load(open(f)).items():
            for k, v in l.items():
                tot[n][int(k)] += v
    for n in sorted(tot):
        if not re.search(rx, n):
            continue
        l = tot[n]
        miss = sorted(k for k in l if l[k] == 0)
        src = open(n).read().splitlines() if os.path.exists(n) else []
        print("== %s: %d of %d lines" % (n, len(l) - len(miss), len(l)))
        for k in miss:
            t = src[k - 1].strip() if k <= len(src) else ""
            print("   %d: %s" % (k, t))


if sys.argv[1] == "report":
    report(sys.argv[2] if len(sys.argv) > 2 else ".")
else:
    for c in sys.argv[1:]:
        if len(sys.argv) == 2:
            one(c)
        else:
            subprocess.run([sys.executable, os.path.abspath(__file__), c])
