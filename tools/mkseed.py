#!/usr/bin/env python3
"""Author tool for planted bugs (not used by any check).
mkseed.py new ID        : make seeded/ID self-contained (kit.tgz, demo.sh, srcs.txt) from seeded/ID/{patch.diff,test.cc,meta.json}
mkseed.py try ID        : run demo + the property's check on a patched scratch copy of /repo
The demo compiles test.cc with the listed /repo sources against stand-in headers carried in kit.tgz."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import vb

DEMO = r'''#!/bin/bash
# Builds test.cc against the sources of the current directory (a dingo-store checkout) and runs it in a scratch directory.
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'chmod -R u+w "$W" 2>/dev/null; rm -rf "$W"' EXIT
mkdir -p $W/o $W/pb $W/run; tar xzf "$H/kit.tgz" -C $W || exit 99
( cd $W && python3 kit/proto/gen.py $W/pbs && cd pbs && protoc -I. --cpp_out=$W/pb proto/*.proto && cd $W/kit/proto && mkdir -p $W/pb/braft && protoc -I. --cpp_out=$W/pb braft/*.proto && python3 patchpb.py $W/pb ) >$W/gen.log 2>&1 || { cat $W/gen.log; exit 99; }
F="@BASE@ -I$R/src -I$W/kit/shim/include -I$W/pb -I$W/pb/proto -I$W/kit/harness"
{ echo "clang++ $F @TFLAGS@ -O0 -c $H/test.cc -o $W/o/test.o"
  n=0
  for s in $(cat $H/srcs.txt); do
    n=$((n+1)); x=; cxx=clang++; O=-O0
    case $s in
      pb:*) p=$W/pb/${s#pb:} ;;
      shim:*) p=$W/kit/shim/${s#shim:} ;;
      *) p=$R/src/$s ;;
    esac
    case $s in simd/distances_avx.cc) x="-mf16c -mavx2" ;; simd/distances_sse.cc) x=-msse4.2 ;; simd/distances_avx512.cc) x="-mf16c -mavx512f -mavx512dq -mavx512bw" ;;
      vector/vector_index_flat.cc|vector/vector_index_ivf_flat.cc) cxx=g++ ;; esac
    echo "$cxx $F $O $x -c $p -o $W/o/$n.o"
  done; } > $W/cmds
xargs -P 8 -I{} sh -c '{} || echo "COMPILE FAILED: {}"' < $W/cmds > $W/cc.log 2>&1
grep -q "COMPILE FAILED" $W/cc.log && { tail -c 4000 $W/cc.log; exit 98; }
clang++ -fuse-ld=lld -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -Wl,--allow-multiple-definition -o $W/t $W/o/*.o @LIBS@ || exit 97
cd $W/run && timeout 120 $W/t 2>$W/err; rc=$?
[ $rc -ne 0 ] && tail -c 1500 $W/err
echo "demo exit $rc"; exit $rc
'''


def closure(d):
    """sources that contribute live sections to the demo binary"""
    t = dict(repo=["@core"], shim=vb.TARGETS["h_kv"]["shim"], harness=[], opt=["-O1"])
    vb.TARGETS["_demo"] = t
    objs = vb.objs_for("_demo")
    vb.gen_pb()
    os.makedirs(vb.BUILD + "/obj", exist_ok=True)
    errs = vb.compile_all(objs)
    o = vb.Obj(os.path.join(d, "test.cc"), vb.BASE + ["-O1", "-fno-access-control", "-I" + V + "/tools"])
    e = vb.compile_one(o)
    if e:
        raise SystemExit(e)
    mp = "/tmp/_demo.map"
    cmd = ["clang++", "-fuse-ld=lld", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition",
           "-Wl,-Map=" + mp, "-o", "/tmp/_demo.bin", o.o] + [x.o for x in objs if x.o not in errs] + vb.LIBS
    # only objects reachable from test.cc: put the rest in an archive
    ar = "/tmp/_demo.a"
    if os.path.exists(ar):
        os.unlink(ar)
    vb.sh(["ar", "rc", ar] + [x.o for x in objs if x.o not in errs])
    cmd = cmd[:cmd.index(o.o) + 1] + [ar] + vb.LIBS
    r = vb.sh(cmd)
    if r.returncode:
        raise SystemExit(r.stdout[-3000:])
    live = set(re.findall(r"_demo\.a\(([^)]*\.o)\)", open(mp).read()))
    # archive pull-in is object-granular; prune objects none of whose sections survive gc except initialisers
    txt = {}
    for m in re.finditer(r"_demo\.a\(([^)]*\.o)\):\(\.(text|rodata|data|bss)[^)]*\)", open(mp).read()):
        txt[m.group(1)] = txt.get(m.group(1), 0) + 1
    # and prune those only alive through their own static initialisers: relink without each is too slow; keep
    out = []
    for x in objs:
        if os.path.basename(x.o) not in live:
            continue
        if x.src.startswith(vb.PB):
            out.append("pb:" + os.path.relpath(x.src, vb.PB))
        elif x.src.startswith(V + "/shim"):
            out.append("shim:" + os.path.relpath(x.src, V + "/shim"))
        else:
            out.append(os.path.relpath(x.src, vb.SRC))
    return out


def new(i):
    d = V + "/seeded/" + i
    if not os.path.exists(d + "/srcs.txt") or os.path.getsize(d + "/srcs.txt") < 5:
        open(d + "/srcs.txt", "w").write("\n".join(closure(d)) + "\n")
    st = tempfile.mkdtemp()
    os.makedirs(st + "/kit/harness")
    shutil.copytree(V + "/shim", st + "/kit/shim")
    shutil.copytree(V + "/proto", st + "/kit/proto", ignore=shutil.ignore_patterns("__pycache__"))
    for f in ("harness/env.h", "harness/env_svc.h", "harness/vt.h", "harness/coord_world.h", "tools/demo.h", "tools/demo_txn.h", "tools/demo_coord.h"):
        shutil.copy(V + "/" + f, st + "/kit/harness/")
    subprocess.check_call("tar --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C %s -cf - kit | gzip -9n > %s/kit.tgz" % (st, d), shell=True)
    shutil.rmtree(st)
    rsp = "\n".join(f.replace('"', '\\"') for f in vb.BASE if not f.startswith("-I")) + "\n"
    open(d + "/flags.rsp", "w").write(rsp)
    s = DEMO.replace("@BASE@", "@$H/flags.rsp").replace("@TFLAGS@", "-fno-access-control").replace("@LIBS@", " ".join(vb.LIBS))
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)


def run(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tryit(i, check=True, full=True):
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    out = {}
    a = run("git apply --check %s/patch.diff" % d, cwd="/repo")
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout)
        return
    w = tempfile.mkdtemp(prefix="seed.")
    try:
        shutil.copytree(d, w + "/d", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        if full:
            t0 = time.time()
            r0 = run(["bash", w + "/d/demo.sh"], cwd="/repo")
            out["demo clean"] = (r0.returncode, "%.0fs" % (time.time() - t0))
            if r0.returncode:
                print(r0.stdout[-2500:])
        run("git apply %s/patch.diff" % d, cwd="/repo")
        try:
            t0 = time.time()
            r1 = run(["bash", w + "/d/demo.sh"], cwd="/repo")
            out["demo bug"] = (r1.returncode, "%.0fs" % (time.time() - t0))
            print(r1.stdout[-600:])
            if check:
                t0 = time.time()
                r2 = run(["python3", V + "/check.py", prop], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                out["check"] = (r2.returncode, "%.0fs" % (time.time() - t0))
                print(r2.stdout[-900:])
        finally:
            run("git checkout -- .", cwd="/repo")
    finally:
        shutil.rmtree(w)
    print(i, prop, out, flush=True)


if __name__ == "__main__":
    for i in sys.argv[2:]:
        if sys.argv[1] == "new":
            new(i)
        elif sys.argv[1] == "try":
            tryit(i)
        elif sys.argv[1] == "check":
            tryit(i, full=False)
