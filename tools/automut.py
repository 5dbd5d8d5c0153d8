#!/usr/bin/env python3
"""Mechanical mutants: applies operators to the code lines of a file in a scratch copy, one at a time, and runs one check on each.
  automut.py CID path [--max N] [--seed N] [--from LINE] [--to LINE] [--ops REGEX]
Prints the mutants that compile and are not noticed (to be judged by hand: many are equivalent) and a summary."""
import os, random, re, shutil, subprocess, sys, tempfile
V = "/verif"
OPS = [
    ("lt", r"(?<![<\-])<(?![<=])(?=\s)", "<="), ("le", r"<=", "<"), ("gt", r"(?<=\s)>(?![>=])(?=\s)", ">="), ("ge", r">=", ">"),
    ("eq", r"==", "!="), ("ne", r"!=", "=="), ("and", r"&&(?=\s)(?!\s*[a-z_]*[,)])", "||"), ("or", r"\|\|", "&&"),
    ("add", r" \+ ", " - "), ("sub", r" - ", " + "), ("mul", r" \* ", " + "), ("div", r" / ", " * "), ("mod", r" % ", " / "),
    ("plus1", r" \+ 1\b", ""), ("minus1", r" - 1\b", ""), ("zero", r"(?<=[(,{] )0(?=[,)}])|(?<=[({])0(?=[,)}])", "1"),
    ("row", r"\brow\(\)", "col()"), ("col", r"\bcol\(\)", "row()"), ("rows", r"\brows\(\)", "cols()"), ("cols", r"\bcols\(\)", "rows()"),
    ("row_", r"\brow_\b", "col_"), ("col_", r"\bcol_\b", "row_"), ("Row", r"Coord::Row\b", "Coord::Col"), ("Col", r"Coord::Col\b", "Coord::Row"),
    ("min", r"std::min\b", "std::max"), ("max", r"std::max\b", "std::min"), ("true", r"\btrue\b", "false"), ("false", r"\bfalse\b", "true"),
    ("pluseq", r" \+= ", " -= "), ("minuseq", r" -= ", " += "), ("not", r"(?<=\()!(?=\w)", ""), ("neg", r"(?<=[(, =])-(?=\w)", ""),
    ("inc", r"\+\+", "--"), ("asgn", r"^(\s*)([\w.\[\]>-]+_) = [^;]+;$", r"\1(void) 0;"),
    ("del", r"^(\s+)(?!return|using|auto|const|static|if|for|case|break|else|template|class|struct|friend|DLAF_ASSERT)[\w:.]+[\w.:<>,-]*\(.*\);$", r"\1;"),
    ("assert", r"^(\s+)DLAF_ASSERT(_[A-Z]+)?\(.*\);$", r"\1;"), ("next", r"\bnextLocal", "local"), ("lower", r"Uplo::Lower", "Uplo::Upper"),
    ("begin", r"\bbegin\b(?=[_,; )])", "end"), ("const0", r"return 0;", "return 1;"), ("move", r"std::move\((\w+)\)", r"\1"),
]

def mutants(path, lo, hi, ops):
    lines = open(path).read().split("\n")
    inc = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): inc = True
        if inc:
            if "*/" in s: inc = False
            continue
        if not (lo <= n + 1 <= hi) or not s or s.startswith(("//", "#", "template", "using", "static_assert")): continue
        code = l.split("//")[0].rstrip()
        for name, pat, rep in ops:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code: yield n, name, l, new

def main():
    a = sys.argv[1:]
    opt = {"--max": "60", "--seed": "1", "--from": "1", "--to": "99999", "--ops": ".", "--check-seed": "1"}
    for k in list(opt):
        if k in a:
            i = a.index(k); opt[k] = a[i + 1]; del a[i:i + 2]
    cid, path = a
    wt = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    subprocess.run("cp -a /repo/include /repo/src %s/" % wt, shell=True, check=True)
    f = os.path.join(wt, path)
    ms = list(mutants(f, int(opt["--from"]), int(opt["--to"]), [o for o in OPS if re.search(opt["--ops"], o[0])]))
    random.Random(int(opt["--seed"])).shuffle(ms)
    orig = open(f).read()
    n = {"caught": 0, "MISSED": 0, "build": 0, "ERROR": 0}
    for line, name, old, new in ms[:int(opt["--max"])]:
        t = orig.split("\n"); t[line] = new
        open(f, "w").write("\n".join(t))
        e = dict(os.environ, VK_REPO=wt, VK_CACHE="/tmp/vkcache-auto-%d" % os.getpid(), VK_EVIDENCE=wt + "/.ev", PYTHONPATH="")
        try:
            r = subprocess.run(["python3", "run_check.py", cid, "--seed", opt["--check-seed"]], cwd=V, capture_output=True, text=True, env=e, timeout=600)
        except subprocess.TimeoutExpired:
            n["caught"] += 1; continue
        out = r.stdout + r.stderr
        res = "MISSED" if r.returncode == 0 else "caught" if r.returncode == 1 and "[violation]" in out else "build" if "error:" in out else "ERROR"
        n[res] += 1
        if res in ("MISSED", "ERROR"):
            print("%s %s %s:%d %s\n   %s\n   %s" % (cid, res, path, line + 1, name, old.strip(), new.strip()), flush=True)
            if res == "ERROR": print("   " + " | ".join(out.splitlines()[-3:]), flush=True)
    print("%s %s: %d possible; %s" % (cid, path, len(ms), n), flush=True)
    open(f, "w").write(orig)
    shutil.rmtree(wt)
    shutil.rmtree("/tmp/vkcache-auto-%d" % os.getpid(), ignore_errors=True)
main()
