"""C27: exhaustive exploration of the command lines of lazyfs/scripts/{mount,umount}-lazyfs.sh.

The scripts run unchanged, as an unprivileged user, in a scratch directory where build/lazyfs and fusermount3 are stand-ins that record their arguments;
the mount stand-in stays alive until it is released, so that running in the foreground and in the background can be told apart."""
import ctypes, itertools, json, os, shutil, subprocess, tempfile, time
from multiprocessing import Pool, Value
stop = Value("b", 0)
REPO = os.environ.get("MC_REPO", "/repo")
JOBS = 64
SC = [("mount-orders", "every order and spelling of -c, -m, -r and -f, for several kinds of path names, and options given twice"),
      ("mount-refused", "nothing is started without arguments, with an option or value missing, an unknown argument at any position, or a path that does not exist or is of the wrong type; help is printed instead when asked for"),
      ("umount", "every command line of up to three arguments for the unmount script")]
# kinds of trees: config file, mount point, root
KINDS = [("conf.toml", "mnt", "root"), ("my conf.toml", "mnt point", "the root dir"), ("c*.toml", "m[ab]", "r?"), ("config/default.toml", "./mnt/", "{T}/abs/root"), ("$HOME.toml", "m;x", "r&\"q'"), ("c.toml", "root/inner", "root")]
LAZY = """#!/bin/sh
n=$(mktemp {T}/rec/started.XXXXXX)
printf '%s\\0' "$@" > "$n"
mv "$n" "$n.done"
read x < {T}/rec/go
exit 7
"""
UMNT = """#!/bin/sh
n=$(mktemp {T}/rec/started.XXXXXX)
printf '%s\\0' "$@" > "$n"
mv "$n" "$n.done"
exit 5
"""
def prepare(T, kind):
    """the scratch tree: everything the script can see"""
    for d in ("scripts", "build", "bin", "rec"): os.makedirs(T + "/" + d)
    for s in ("mount-lazyfs.sh", "umount-lazyfs.sh"): shutil.copy(REPO + "/lazyfs/scripts/" + s, T + "/scripts/" + s)
    for f, t in (("build/lazyfs", LAZY), ("bin/fusermount3", UMNT), ("bin/fusermount", UMNT)):
        with open(T + "/" + f, "w") as o: o.write(t.replace("{T}", T))
        os.chmod(T + "/" + f, 0o755)
    os.mkfifo(T + "/rec/go")
    c, m, r = (x.replace("{T}", T) for x in KINDS[kind])
    at = lambda p: p if p[0] == "/" else T + "/" + p
    os.makedirs(os.path.dirname(at(c)), exist_ok=True)
    for x in (r, m): os.makedirs(at(x), exist_ok=True)
    for extra in ("ma", "mb", "rr", "conf2.toml.d", "notadir"):
        if extra != "notadir": os.makedirs(T + "/" + extra, exist_ok=True)
        else: open(T + "/notadir", "w").close()
    for x in (at(c), T + "/cc.toml", T + "/other.toml"): open(x, "w").close()
    os.makedirs(T + "/other", exist_ok=True)
    for d, ds, fs in os.walk(T):
        try:
            os.chown(d, 65534, 65534)
            for f in fs: os.chown(d + "/" + f, 65534, 65534)
        except OSError: pass
def tree(T):
    return sorted((os.path.relpath(d, T), tuple(sorted(ds)), tuple(sorted(fs))) for d, ds, fs in os.walk(T) if "/rec" not in d[len(T):])
def started(T):
    """argument lists of the programs started so far"""
    return [open(T + "/rec/" + f).read().split("\0")[:-1] for f in sorted(os.listdir(T + "/rec")) if f.endswith(".done")]
def expect(script, args, T, kind):
    """(what, details): 'help', 'refuse', 'start' (mount, config, root, foreground), 'umount' dir, None (not judged)"""
    if not args: return ("help", None)
    c = m = r = None
    fg = False
    i = 0
    while i < len(args):
        a = args[i]
        if a in ("-h", "--help"): return ("help", None)
        if script == "mount" and a in ("-f", "--foreground"): fg = True; i += 1; continue
        names = {"-m": "m", "--mount.dir": "m"}
        if script == "mount": names.update({"-c": "c", "--config-path": "c", "-r": "r", "--root.dir": "r"})
        if a not in names: return ("refuse", None)
        v = args[i + 1] if i + 1 < len(args) else ""
        if names[a] == "c": c = v
        if names[a] == "m": m = v
        if names[a] == "r": r = v
        i += 2
    if script == "umount": return ("umount", m) if m else (None, None)
    at = lambda p: p if p[:1] == "/" else T + "/" + p
    if not c or not os.path.isfile(at(c)) or not m or not os.path.isdir(at(m)) or not r or not os.path.isdir(at(r)): return ("refuse", None)
    return ("start", (m, c, r, fg))
def understood(args):
    """what LazyFS makes of its command line: (mount point, config, root, foreground) or a text"""
    mnt = conf = root = None
    fg = mod = other = False
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--config-path":
            if i + 1 >= len(args): return "--config-path without a path"
            conf = args[i + 1]; i += 2; continue
        if a.startswith("-o"):
            o = a[2:]
            if not o: o = args[i + 1] if i + 1 < len(args) else ""; i += 1
            # (commas separate options in FUSE; the paths explored here contain none)
            for x in o.split(","):
                if x == "modules=subdir": mod = True
                elif x.startswith("subdir="): root = x[7:]
                elif x == "allow_other": other = True
        elif a == "-f": fg = True
        elif a == "-d": fg = True
        elif mnt is None: mnt = a
        else: return "extra argument '%s'" % a
        i += 1
    if not mod: return "the subdir module is not enabled"
    if not other: return "allow_other is missing"
    return (mnt, conf, root, fg)
def norm(p, T):
    return None if p is None else os.path.normpath(p if p[:1] == "/" else T + "/" + p)
def run(script, args, kind):
    T = tempfile.mkdtemp(prefix="mcscr", dir="/tmp")
    try:
        os.chmod(T, 0o755)
        args = [a.replace("{T}", T) for a in args]
        prepare(T, kind)
        before = tree(T)
        what, want = expect(script, args, T, kind)
        if what is None: return None
        cmd = ["bash", "scripts/%s-lazyfs.sh" % script] + args
        kw = dict(cwd=T, stdin=subprocess.DEVNULL, stdout=open(T + "/rec/out", "w"), stderr=subprocess.STDOUT, env={"PATH": T + "/bin:/usr/bin:/bin", "HOME": T}, start_new_session=True, preexec_fn=lambda: ctypes.CDLL(None).prctl(1, 9)) # (ends with this process)
        if os.getuid() == 0: kw.update(user=65534, group=65534, extra_groups=[])
        try: p = subprocess.Popen(cmd, **kw)
        except (OSError, subprocess.SubprocessError): # (cannot change the user: the stand-ins and the scratch directory still contain the script)
            for k in ("user", "group", "extra_groups"): kw.pop(k, None)
            p = subprocess.Popen(cmd, **kw)
        wait = 10.0
        end = time.time() + wait
        def until(f):
            while time.time() < end:
                x = f()
                if x: return x
                time.sleep(0.001)
            return None
        try:
            if what == "start":
                if not until(lambda: started(T) or (p.poll() is not None and want[3])) or not started(T): 
                    return "LazyFS was not started: %s" % open(T + "/rec/out").read()[-300:]
                if want[3]:
                    time.sleep(0.01)
                    if p.poll() is not None: return "in the foreground, the script ended before LazyFS did"
                elif not until(lambda: p.poll() is not None): return "without -f the script waits for LazyFS"
                if not release(T, end): return "LazyFS was started more than once or ended early"
                if not until(lambda: p.poll() is not None): return "the script did not end after LazyFS"
                st = started(T)
                if len(st) != 1: return "LazyFS was started %d times" % len(st)
                got = understood(st[0])
                if isinstance(got, str): return "LazyFS was started with %s: %s" % (st[0], got)
                for g, w, n in zip(got, want, ("mount point", "configuration", "root")):
                    if norm(g, T) != norm(w, T): return "LazyFS was started with the %s %r instead of %r: %s" % (n, g, w, st[0])
                if got[3] != want[3]: return "LazyFS was started %s: %s" % ("in the foreground" if got[3] else "in the background", st[0])
            else:
                until(lambda: p.poll() is not None or (script == "mount" and started(T)))
                st = started(T)
                if p.poll() is None and not st: return "the script does not end"
                out = open(T + "/rec/out").read()
                if what == "umount":
                    if len(st) != 1: return "fusermount3 was called %d times: %s" % (len(st), out[-300:])
                    if [norm(x, T) if x != "-u" else x for x in st[0]] != ["-u", norm(want, T)]: return "fusermount3 was called with %s instead of -u %r" % (st[0], want)
                    if p.returncode == 0: return "the unmount failed but the script ended with status 0"
                else:
                    if st: return "%s was started with %s" % ("LazyFS" if script == "mount" else "fusermount3", st[0])
                    if what == "help" and "-m" not in out: return "no help was printed: %s" % out[-200:]
                    if what == "refuse" and not out.strip(): return "refused without a message"
            if tree(T) != before: return "the script left files or directories behind: %s" % sorted(set(tree(T)) - set(before))
            return None
        finally:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.wait()
    finally:
        shutil.rmtree(T, ignore_errors=True)
def release(T, end):
    while time.time() < end:
        try: f = os.open(T + "/rec/go", os.O_WRONLY | os.O_NONBLOCK)
        except OSError: time.sleep(0.001); continue
        os.write(f, b"\n"); os.close(f)
        return True
    return False
def cases(tier):
    """(scenario, script, kind, arguments)"""
    opt = {"c": ("-c", "--config-path"), "m": ("-m", "--mount.dir"), "r": ("-r", "--root.dir"), "f": ("-f", "--foreground")}
    for kind, (c, m, r) in enumerate(KINDS):
        val = {"c": c, "m": m, "r": r}
        for keys in ("cmr", "cmrf"):
            for order in itertools.permutations(keys):
                for form in itertools.product((0, 1), repeat=len(keys)):
                    if kind and not tier and (len(set(form)) > 1): continue
                    a = []
                    for k, f in zip(order, form): a += [opt[k][f]] + ([val[k]] if k != "f" else [])
                    yield 0, "mount", kind, a
        # an option given twice: the last one counts
        for k, v in (("c", "other.toml"), ("m", "other"), ("r", "other")):
            base = sum(([opt[x][0], val[x]] for x in "cmr"), [])
            yield 0, "mount", kind, [opt[k][0], v] + base
            yield 0, "mount", kind, base + [opt[k][1], v]
    ok = ["-c", "conf.toml", "-m", "mnt", "-r", "root"]
    yield 1, "mount", 0, []
    for x in (["-h"], ["--help"]):
        for i in (0, 2, 4, 6): yield 1, "mount", 0, ok[:i] + x + ok[i:]
    for fg in ([], ["-f"]):
        for x in ("nonsense", "-x", "--config", "-", "--", "", "-cconf.toml", "root"):
            for i in (0, 2, 4, 6): yield 1, "mount", 0, ok[:i] + [x] + ok[i:] + fg
        for n in range(0, 3): # options left out
            for keep in itertools.combinations((0, 2, 4), n):
                a = sum((ok[i:i + 2] for i in keep), []) + fg
                if a: yield 1, "mount", 0, a
        for i in (0, 2, 4): # a value left out, the option last
            rest = ok[:i] + ok[i + 2:]
            yield 1, "mount", 0, fg + rest + [ok[i]]
            yield 1, "mount", 0, fg + [ok[i]] + rest
            for bad in ("", "missing", "missing/x", "notadir", "conf2.toml.d"): # a directory for the file, a file for a directory
                if (i == 0) == (bad == "notadir"): continue
                if i != 0 and bad == "conf2.toml.d": continue
                b = list(ok)
                b[i + 1] = bad
                yield 1, "mount", 0, b + fg
    words = ("-m", "--mount.dir", "mnt", "mnt point", "m[ab]", "-h", "--help", "-x", "nonsense", "{T}/abs")
    for n in range(0, (5 if tier else 4)):
        for w in itertools.product(words, repeat=n): yield 2, "umount", 1, list(w)
def job(a):
    tier, k, end = a
    st = {"per": [0] * len(SC), "states": set(), "samples": [], "truncated": 0}
    for i, (sc, script, kind, args) in enumerate(cases(tier)):
        if i % JOBS != k: continue
        if stop.value: break
        if time.time() > end: st["truncated"] = 1; break
        r = run(script, args, kind)
        if r: r = run(script, args, kind) # (an answer is only believed when it comes again)
        st["per"][sc] += 1
        st["states"].add((script, expect(script, args, "/nowhere", kind)[0], kind))
        if not st["samples"]: st["samples"].append("%s-lazyfs.sh %s" % (script, args))
        if r:
            st["violation"] = (sc, script, kind, args, r)
            break
    return st
def explore(tier):
    t0 = time.time()
    tier = 1 if tier in (1, "thorough") else 0
    end = t0 + int(os.environ.get("MC_BUDGET", "10800" if tier else "360"))
    tot = {"truncated": 0, "samples": [], "violation": None}
    per, states = [0] * len(SC), set()
    with Pool(8) as p:
        for st in p.imap_unordered(job, [(tier, k, end) for k in range(JOBS)]):
            tot["truncated"] |= st["truncated"]
            tot["samples"] += st["samples"]
            states |= st["states"]
            per = [a + b for a, b in zip(per, st["per"])]
            if "violation" in st and not tot["violation"]:
                stop.value = 1
                sc, script, kind, args, r = st["violation"]
                tot["violation"] = {"scenario": SC[sc][0], "config": "%s %s" % (script, KINDS[kind]), "message": r, "history": "%s-lazyfs.sh %s" % (script, " ".join("'%s'" % a for a in args)),
                                    "case": json.dumps({"script": script, "kind": kind, "args": args}), "tier": tier}
    tot.update(seconds=time.time() - t0, histories=sum(per), operations=sum(per), states=len(states), scenarios=[{"name": n, "what": w, "cases": c} for (n, w), c in zip(SC, per)])
    tot["samples"] = tot["samples"][:16]
    return tot
def replay(case):
    c = json.loads(case)
    return run(c["script"], c["args"], c["kind"])
if __name__ == "__main__":
    import sys
    print(json.dumps(explore(1 if "thorough" in sys.argv else 0), indent=1))
