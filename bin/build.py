#!/usr/bin/env python3
"""Builds the model checker from /repo's current working tree and /verif/mc into /verif/.build (keyed by content hash)."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAZYFS_REPO", "/repo")
WRAP = """open open64 openat openat64 creat creat64 close read pread pread64 preadv preadv64 pwrite pwrite64 write pwritev pwritev64 writev
ftruncate ftruncate64 truncate truncate64 fallocate fallocate64 fsync fdatasync lstat lstat64 stat stat64 fstatat fstatat64 fstat fstat64
chmod lchown utimensat futimens utimes unlink rmdir remove rename renameat renameat2 link symlink mkdir kill raise
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock
pthread_rwlock_trywrlock pthread_rwlock_unlock memset access readlink opendir readdir readdir64""".split()
RENAME = """memset memcpy memmove memcmp free __cxa_guard_acquire __cxa_guard_release
_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
_ZNSt8__detail15_List_node_base7_M_hookEPS0_ _ZNSt8__detail15_List_node_base9_M_unhookEv""".split()
# C19 runs on a build in which every memory access of LazyFS is seen (by mc/race.cpp)
TSAN = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
DEFS = ["-std=c++17", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-D_FILE_OFFSET_BITS=64",
        "-I%s/lazyfs/include" % REPO, "-I%s/libs/libpcache/include" % REPO, "-I/usr/include/fuse3", "-pthread"]
OPT = ["-O1", "-g1", "-U_FORTIFY_SOURCE", "-w"]
SUT = OPT + ["-ftrivial-auto-var-init=pattern"]

def sut_sources():
    src = sorted(glob.glob(REPO + "/lazyfs/src/**/*.cpp", recursive=True))
    src += sorted(glob.glob(REPO + "/lazyfs/include/lazyfs/**/*.cpp", recursive=True))
    src += sorted(glob.glob(REPO + "/libs/libpcache/src/**/*.cpp", recursive=True))
    return src
def headers():
    h = []
    for d in ("/lazyfs/include", "/lazyfs/src", "/libs/libpcache/include", "/libs/libpcache/src"):
        for e in ("h", "hpp", "hh", "ipp", "inl"):
            h += glob.glob(REPO + d + "/**/*." + e, recursive=True)
    return sorted(h)
def digest(files, extra):
    m = hashlib.sha256(extra.encode())
    for f in files:
        m.update(f.encode() + b"\0")
        m.update(open(f, "rb").read() + b"\0")
    return m.hexdigest()[:24]
def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout[:3000])
        raise SystemExit(2)
def build(races=False):
    bd = os.path.join(VERIF, ".build")
    os.makedirs(bd + "/obj", exist_ok=True)
    hdr = headers()
    mch = sorted(glob.glob(VERIF + "/mc/*.hpp"))
    hd = digest(hdr, "h")
    mhd = digest(mch, "m")
    jobs, objs = [], []
    sut = SUT + TSAN if races else SUT
    for f in sut_sources():
        o = "%s/obj/%s.o" % (bd, digest([f], hd + " ".join(DEFS + sut)))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((f, o, sut, True))
    for f in sorted(glob.glob(VERIF + "/mc/*.cpp")):
        o = "%s/obj/%s.o" % (bd, digest([f], mhd + hd + " ".join(DEFS + OPT)))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((f, o, OPT, False))
    def one(j):
        f, o, fl, sut = j
        t = "%s.%d" % (o, os.getpid())
        run(["g++", "-c", f, "-o", t] + DEFS + fl)
        if sut:
            run(["objcopy", "--redefine-sym", "main=lazyfs_main"] + ([a for w in RENAME for a in ("--redefine-sym", w + "=race_" + w)] if races else []) + [t])
        os.rename(t, o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    exe = "%s/mc-%s" % (bd, hashlib.sha256(" ".join(objs + WRAP).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        t = "%s.%d" % (exe, os.getpid())
        run(["g++", "-o", t] + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-lspdlog", "-lfmt", "-pthread", "-ldl"])
        os.rename(t, exe)
    # keep the build folder small
    keep = set(objs)
    allo = sorted(glob.glob(bd + "/obj/*.o"), key=os.path.getmtime)
    for o in allo[:-200]:
        if o not in keep: os.unlink(o)
    exes = sorted(glob.glob(bd + "/mc-*"), key=os.path.getmtime)
    for e in exes[:-6]:
        if e != exe: os.unlink(e)
    return exe
if __name__ == "__main__":
    print(build(), flush=True)
    print(build(True))
