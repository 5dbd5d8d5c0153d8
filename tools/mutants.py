#!/usr/bin/env python3
"""Runs checks against small changes of the sources (tools/mutants/*.txt) in a scratch copy and prints which are noticed.
  mutants.py FILE... [--only NAME] [--seed N] [--check CID] [--jobs N]
A file is a list of blocks:
  ### NAME CID[,CID...] path/of/the/file
  old text
  ---
  new text
(old text must occur exactly once; further "@@@ path" sections change other files)"""
import os, re, shutil, subprocess, sys, tempfile
V = "/verif"

def parse(f):
    out = []
    for b in re.split(r"(?m)^### ", open(f).read())[1:]:
        head, body = b.split("\n", 1)
        name, cids, path = head.split()
        edits = []
        secs = re.split(r"(?m)^@@@ (\S+)\n", body)
        for p, t in [(path, secs[0])] + list(zip(secs[1::2], secs[2::2])):
            old, new = re.split(r"(?m)^---\n", t)
            edits.append((p, old.rstrip("\n"), new.rstrip("\n")))
        out.append((name, cids.split(","), edits))
    return out

def main():
    a = sys.argv[1:]
    opt = {}
    for k in ("--only", "--seed", "--check"):
        if k in a:
            i = a.index(k); opt[k] = a[i + 1]; del a[i:i + 2]
    wt = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    subprocess.run("cp -a /repo/. %s" % wt, shell=True, check=True)
    base = os.environ.get("VK_MUT_BASE")
    if base:
        subprocess.run("cp -a %s/include %s/src %s" % (base, base, wt), shell=True, check=True)
        subprocess.run("git -C %s add -A && git -C %s -c user.name=x -c user.email=x commit -qm x" % (wt, wt), shell=True)
    for f in a:
        for name, cids, edits in parse(f):
            if "--only" in opt and not re.search(opt["--only"], name): continue
            subprocess.run("git -C %s checkout -q -- ." % wt, shell=True)
            bad = None
            for p, old, new in edits:
                q = os.path.join(wt, p); s = open(q).read()
                if s.count(old) != 1: bad = "%s: %d occurrences" % (p, s.count(old)); break
                open(q, "w").write(s.replace(old, new))
            if bad: print("%-28s BAD %s" % (name, bad), flush=True); continue
            for c in ([opt["--check"]] if "--check" in opt else cids):
                e = dict(os.environ, VK_REPO=wt, VK_CACHE="/tmp/vkcache", VK_EVIDENCE=wt + "/.ev")
                r = subprocess.run(["python3", "run_check.py", c] + (["--seed", opt["--seed"]] if "--seed" in opt else []), cwd=V, capture_output=True, text=True, env=e)
                t = r.stdout + r.stderr
                v = [l[12:] for l in t.splitlines() if l.startswith("[violation]")]
                res = "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "ERROR"
                tm = re.findall(r"non-trivial, ([\d.]+) s", t)
                print("%-28s %s %s %s %s" % (name, c, res, tm[-1:] , v[:2] if res == "caught" else [l for l in t.splitlines() if "error" in l][:3] if res == "ERROR" else ""), flush=True)
    shutil.rmtree(wt)
main()
