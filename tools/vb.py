#!/usr/bin/env python3
"""Builds harness binaries from /repo's working tree into /verif/build (git-ignored).
Usage: vb.py build NAME...|all      vb.py unresolved NAME"""
import concurrent.futures, fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from targets import TARGETS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
PB = os.path.join(BUILD, "pb")
BASE = ["-std=c++17", "-w", "-ffunction-sections", "-fdata-sections", "-fPIC", "-fno-omit-frame-pointer",
        "-DUSE_BTHREAD_MUTEX", "-DGLOG_USE_GLOG_EXPORT", "-DGLOG_CUSTOM_PREFIX_SUPPORT",
        "-DWITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP=1", "-DENABLE_FAILPOINT",
        '-DGIT_VERSION="v"', '-DGIT_TAG_NAME="t"', '-DGIT_COMMIT_USER="u"', '-DGIT_COMMIT_MAIL="m"',
        '-DGIT_COMMIT_TIME="x"', '-DMAJOR_VERSION="0"', '-DMINOR_VERSION="0"', '-DDINGO_STORE_BUILD_TYPE="RELEASE"',
        '-DDINGO_CONTRIB_BUILD_TYPE="RELEASE"',
        "-I" + SRC, "-I" + VERIF + "/shim/include", "-I" + PB, "-I" + PB + "/proto", "-I" + VERIF + "/harness"]
SIMD = {"simd/distances_avx.cc": ["-mf16c", "-mavx2"], "simd/distances_sse.cc": ["-msse4.2"],
        "simd/distances_avx512.cc": ["-mf16c", "-mavx512f", "-mavx512dq", "-mavx512bw"]}
COVERAGE = ["-fprofile-instr-generate", "-fcoverage-mapping"] if os.environ.get("VERIF_COVERAGE") else []
LIBS = ["-lprotobuf", "-lglog", "-lgflags", "-lfmt", "-lyaml-cpp", "-lpthread", "-ldl", "-lcrypto", "-lz", "-lstdc++fs"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".pyc"):
                    continue
                h.update(f.encode())
                h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def gen_pb():
    st = os.path.join(PB, ".stamp")
    want = tree_hash(VERIF + "/proto")
    if os.path.exists(st) and open(st).read() == want:
        return
    shutil.rmtree(PB, ignore_errors=True)
    tmp = os.path.join(BUILD, "pbs")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(PB)
    for c in ([sys.executable, VERIF + "/proto/gen.py", tmp],):
        r = sh(c)
        if r.returncode:
            raise SystemExit("proto gen failed\n" + r.stdout)
    ps = sorted("proto/" + f for f in os.listdir(tmp + "/proto") if f.endswith(".proto"))
    r = sh(["protoc", "-I.", "--cpp_out=" + PB] + ps, cwd=tmp)
    if r.returncode:
        raise SystemExit("protoc failed\n" + r.stdout)
    bp = VERIF + "/proto/braft"
    if os.path.isdir(bp):
        os.makedirs(PB + "/braft", exist_ok=True)
        fs = [f for f in os.listdir(bp) if f.endswith(".proto")]
        if fs:
            r = sh(["protoc", "-I.", "--cpp_out=" + PB] + ["braft/" + f for f in fs], cwd=VERIF + "/proto")
            if r.returncode:
                raise SystemExit("protoc failed\n" + r.stdout)
    r = sh([sys.executable, VERIF + "/proto/patchpb.py", PB])
    if r.returncode:
        raise SystemExit("patchpb failed\n" + r.stdout)
    shutil.rmtree(tmp, ignore_errors=True)
    open(st, "w").write(want)


def pb_sources():
    r = []
    for d in ("proto", "braft"):
        p = os.path.join(PB, d)
        if os.path.isdir(p):
            r += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".pb.cc")]
    return r


CORE_DIRS = ("common", "config", "engine", "event", "handler", "log", "meta", "metrics", "merge", "split", "mvcc", "raft",
             "scan", "store", "coordinator", "vector", "document", "crontab", "simd")
CORE_SKIP = {"engine/bdb_raw_engine.cc", "engine/xdprocks_raw_engine.cc", "vector/vector_index_diskann.cc", "diskann/diskann_item.cc"}
CORE_EXTRA = ["server/server.cc", "server/store_service.cc", "server/service_helper.cc", "server/push_service.cc",
              "br/helper.cc", "br/parameter.cc", "br/sst_file_reader.cc", "br/sst_file_writer.cc"]


def core():
    s = set(x for x in CORE_EXTRA if os.path.exists(os.path.join(SRC, x)))
    for d in CORE_DIRS:
        for root, ds, fs in os.walk(os.path.join(SRC, d)):
            for f in fs:
                if f.endswith(".cc"):
                    s.add(os.path.relpath(os.path.join(root, f), SRC))
    return sorted(s - CORE_SKIP)


def expand(t):
    out = []
    for x in t:
        if x == "@core":
            out += core()
        elif x.endswith("/*"):
            d = os.path.join(SRC, x[:-2])
            out += [x[:-1] + f for f in sorted(os.listdir(d)) if f.endswith(".cc")]
        else:
            out.append(x)
    return out


GXX = ("vector/vector_index_flat.cc", "vector/vector_index_ivf_flat.cc")


class Obj:
    def __init__(self, src, flags):
        self.src, self.flags = src, flags
        key = hashlib.sha256((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:20]
        self.o = os.path.join(BUILD, "obj", os.path.basename(src)[:-3] + "." + key + ".o")
        self.d = self.o[:-2] + ".d"
        self.k = self.o[:-2] + ".k"
        cxx = "g++" if src.endswith(GXX) else "clang++"  # explicit instantiation before the member definitions: g++ only
        self.cmd = [cxx] + flags + ["-MD", "-MF", self.d, "-c", src, "-o", self.o]


_fh = {}


def fhash(p):
    if p not in _fh:
        try:
            _fh[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError:
            _fh[p] = "missing"
    return _fh[p]


def deps(dfile):
    t = open(dfile).read().replace("\\\n", " ")
    return [x for x in t.split(":", 1)[1].split() if not x.startswith("/usr/")]


def obj_key(o):
    return hashlib.sha256("\n".join(d + " " + fhash(d) for d in deps(o.d)).encode()).hexdigest()


def fresh(o):
    try:
        return os.path.exists(o.o) and open(o.k).read() == obj_key(o)
    except OSError:
        return False


def compile_one(o):
    if fresh(o):
        return None
    try:
        os.unlink(o.k)
    except OSError:
        pass
    r = sh(o.cmd)
    if r.returncode:
        return "compile failed: %s\n%s" % (o.src, r.stdout[-6000:])
    open(o.k, "w").write(obj_key(o))
    return None


def objs_for(name):
    t = TARGETS[name]
    opt = t.get("opt", ["-O1"])
    san = t.get("san", [])
    objs = []
    for h in t["harness"]:
        objs.append(Obj(os.path.join(VERIF, "harness", h), BASE + opt + san + t.get("flags", [])))
    for s in expand(t.get("repo", [])):
        objs.append(Obj(os.path.join(SRC, s), BASE + opt + san + SIMD.get(s, []) + t.get("rflags", []) +
                        ([] if s.endswith(GXX) else COVERAGE)))
    for s in t.get("shim", []):
        objs.append(Obj(os.path.join(VERIF, "shim", s), BASE + opt + san))
    if t.get("pb", True):
        for s in pb_sources():
            objs.append(Obj(s, BASE + ["-O0"]))
    return objs


def compile_all(objs):
    seen, todo = set(), []
    for o in objs:
        if o.o not in seen:
            seen.add(o.o)
            todo.append(o)
    todo.sort(key=lambda o: -os.path.getsize(o.src) if os.path.exists(o.src) else 0)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return {o.o: e for o, e in zip(todo, ex.map(compile_one, todo)) if e}


def unresolved(out):
    return sorted(set(re.findall(r"undefined symbol: (.*)", out)))


def link(name, objs, extra=()):
    t = TARGETS[name]
    binp = os.path.join(BUILD, "bin", name)
    key = hashlib.sha256("\n".join(o.o + open(o.k).read() for o in list(objs) + list(extra)).encode()).hexdigest()
    kp = binp + ".k"
    if not extra and os.path.exists(binp) and os.path.exists(kp) and open(kp).read() == key:
        return binp, None
    cmd = ["clang++", "-fuse-ld=lld", "-Wl,--gc-sections", "-Wl,--warn-unresolved-symbols", "-Wl,--allow-multiple-definition",
           "-Wl,--error-limit=0", "-o", binp] + t.get("san", []) + [o.o for o in objs] + [o.o for o in extra] + t.get("libs", []) + COVERAGE + LIBS
    r = sh(cmd)
    if r.returncode:
        raise SystemExit("link failed: %s\n%s" % (name, r.stdout[-4000:]))
    u = unresolved(r.stdout)
    open(binp + ".u", "w").write("\n".join(u) + "\n")
    open(kp, "w").write(key)
    return binp, u


def read_allow(name):
    ap = os.path.join(VERIF, "tools", "unresolved", name + ".txt")
    return set(x for x in open(ap).read().split("\n") if x) if os.path.exists(ap) else set()


def build(name):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    with open(BUILD + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gen_pb()
        objs = [o for o in objs_for(name) if os.path.exists(o.src)]
        errs = compile_all(objs)
        hard = [e for o, e in errs.items() if VERIF in e.split("\n")[0]]
        if hard:
            raise SystemExit("\n".join(hard))
        # a core file that does not compile only matters if this harness needs something from it
        binp, u = link(name, [o for o in objs if o.o not in errs])
        if u is None:
            u = [x for x in open(binp + ".u").read().split("\n") if x]
        allow = read_allow(name)
        new = [x for x in u if x not in allow]
        if new and errs:
            raise SystemExit("\n".join(errs.values()) + "\nunresolved: " + "\n".join(new[:20]))
        if new:
            print("warning: new unresolved symbols:", new[:10], flush=True)
        return binp


if __name__ == "__main__":
    names = sys.argv[2:]
    if names == ["all"]:
        names = list(TARGETS)
    if sys.argv[1] == "build":
        os.makedirs(BUILD + "/obj", exist_ok=True)
        gen_pb()
        if len(names) > 1:
            allo = []
            for n in names:
                allo += [o for o in objs_for(n) if os.path.exists(o.src)]
            for e in compile_all(allo).values():
                print(e)
        for n in names:
            t0 = time.time()
            print(n, build(n), "%.1fs" % (time.time() - t0), flush=True)
    elif sys.argv[1] == "unresolved":
        os.makedirs(VERIF + "/tools/unresolved", exist_ok=True)
        for n in names:
            b = build(n)
            shutil.copy(b + ".u", VERIF + "/tools/unresolved/" + n + ".txt")
            print(n, sum(1 for _ in open(b + ".u")))
