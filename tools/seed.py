#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/bugs/<id>.py and validates it in a scratch worktree.
  seed.py ID... [--check]   (--check: also run the property's check on the changed tree)
A bug file defines PROPERTY, EDITS = [(file, old, new)], DEMO (C++ text), NEEDS, BREAKS, optionally NP (ranks),
REPO_SRC (repo sources the demo links), FLAGS, FILES = {name: path in /verif to copy beside the demo}."""
import os, runpy, shutil, subprocess, sys, json
V = "/verif"; WT = "/tmp/seedwt"

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it does not. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 1
trap 'rm -rf -- "$out"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=/bin/false
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none TMPDIR=$out
export OPENBLAS_NUM_THREADS=1
mpicxx -std=c++17 -O1 -w -fopenmp @FLAGS@ -DOMPI_SKIP_MPICXX -DDLAF_ASSERT_ENABLE -DDLAF_ASSERT_MODERATE_ENABLE \\
  -DDLAF_ASSERT_HEAVY_ENABLE -DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__ -DDLAF_WITH_OPENMP @INC@ -I"$PWD/include" -I"$PWD/src" \\
  "$here/demo.cpp" @SRC@ -o "$out/demo" -lblaspp -llapackpp -lopenblas || exit 1
timeout 200 @RUN@ "$out/demo"
'''

# for code above pika: the demonstration brings a small single-process runtime along, and instantiates the double versions
DEMO_SH_RT = DEMO_SH[:DEMO_SH.index("mpicxx")] + '''
flags="-std=c++17 -O1 -w -fopenmp @FLAGS@ -DOMPI_SKIP_MPICXX -DDLAF_ASSERT_ENABLE -DDLAF_ASSERT_MODERATE_ENABLE
  -DDLAF_ASSERT_HEAVY_ENABLE -DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__ -DDLAF_WITH_OPENMP @INC@ -I$here/runtime
  -include $here/runtime/vk_compat.hpp -I$PWD/include -I$PWD/src"
objs=() pids=()
add() {  # source, more flags
  local o=$out/${#objs[@]}.o
  objs+=("$o")
  mpicxx $flags $2 -c "$1" -o "$o" & pids+=($!)
}
add "$here/demo.cpp" "@DEMOFLAGS@"
add "$here/runtime/vk_sched.cpp"
for f in @SRC@; do add "$PWD/$f"; done
for f in @ETI@; do
  g=$out/$(echo $f | tr / _)
  sed -E 's/^DLAF_[A-Z0-9_]+_ETI\\(.*(float|std::complex<double>).*$//' "$PWD/$f" > "$g"
  add "$g" "-DVK_TYPE_D -include $here/vk_types.hpp -I$PWD/$(dirname $f)"
done
for p in ${pids[@]}; do wait $p || exit 1; done
mpicxx -fopenmp "${objs[@]}" -o "$out/demo" -lblaspp -llapackpp -lopenblas -lboost_program_options -lpthread -ldl || exit 1
timeout 150 @RUN@ "$out/demo"
'''
CORE_REPO = ["src/communication/communicator_impl.cpp", "src/communication/communicator.cpp",
             "src/communication/communicator_grid.cpp", "src/communication/datatypes.cpp", "src/init.cpp",
             "src/matrix/distribution.cpp", "src/memory/memory_chunk.cpp", "src/tune.cpp", "src/blas/scal.cpp",
             "src/common/single_threaded_blas.cpp"]
CORE_ETI = ["src/matrix.cpp", "src/matrix/tile.cpp", "src/matrix/matrix_ref.cpp", "src/memory/memory_view.cpp"]

def sh(c, **k):
    return subprocess.run(c, shell=True, **k)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if os.path.exists(WT):
        shutil.rmtree(WT)
    sh("cp -a /repo %s" % WT)
    for i in args:
        b = runpy.run_path(os.path.join(V, "tools/bugs", i + ".py"))
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        sh("git -C %s checkout -q -- ." % WT)
        for f, old, new in b["EDITS"]:
            p = os.path.join(WT, f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C %s diff" % WT, shell=True, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(b["DEMO"])
        for n, p in b.get("FILES", {}).items():
            if os.path.isdir(os.path.join(V, p)):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)
                shutil.copytree(os.path.join(V, p), os.path.join(d, n))
            else:
                shutil.copy(os.path.join(V, p), os.path.join(d, n))
        np = b.get("NP", 0)
        rt = b.get("RUNTIME")
        if rt:
            shutil.rmtree(d + "/runtime", ignore_errors=True)
            shutil.copytree(V + "/standin", d + "/runtime", ignore=shutil.ignore_patterns("vk_mon*"))
            shutil.copy(V + "/lib/vk_types.hpp", d)
        t = (DEMO_SH_RT if rt else DEMO_SH).replace("@RUN@", "mpirun -np %d --oversubscribe" % np if np else "")
        if rt:
            t = t.replace("@SRC@", " ".join((CORE_REPO if rt == "full" else []) + b.get("REPO_SRC", [])))
            t = t.replace("@ETI@", " ".join((CORE_ETI if rt == "full" else []) + b.get("ETI", []))).replace("@DEMOFLAGS@", b.get("DEMOFLAGS", ""))
        t = t.replace("@SRC@", " ".join('"$PWD/%s"' % s for s in b.get("REPO_SRC", [])) + b.get("EXTRA_SRC", ""))
        t = t.replace("@FLAGS@", b.get("FLAGS", "")).replace("@INC@", b.get("INC", ""))
        open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo", capture_output=True, text=True)
        r1 = sh("bash %s/demo.sh" % d, cwd=WT, capture_output=True, text=True)
        msg = "%s demo clean=%d patched=%d" % (i, r0.returncode, r1.returncode)
        if r0.returncode: msg += "\n" + r0.stdout[-800:] + r0.stderr[-1500:]
        if r1.returncode == 0 or "error:" in r1.stderr: msg += "\n" + r1.stdout[-500:] + r1.stderr[-800:]
        if "--check" in sys.argv:
            c = sh("VK_REPO=%s python3 run_check.py %s" % (WT, b["PROPERTY"]), cwd=V, capture_output=True, text=True)
            v = [l for l in c.stderr.splitlines() if l.startswith("[violation]")]
            msg += " check exit=%d %s" % (c.returncode, v[:3])
            if c.returncode not in (0, 1): msg += c.stderr[-1500:]
        print(msg, flush=True)
    shutil.rmtree(WT)
main()
