"""C23: exhaustive exploration of LazyFS operation logs against logparse/parse.py.

Every log over small alphabets up to a length, and every option combination, is given to the real parser (its main(), with a stand-in
for the graph library); the text, the filtered text and the graph it produces are expanded again and compared with the log."""
import ast, contextlib, io, itertools, json, os, re, sys, tempfile, types
from multiprocessing import Pool
REPO = os.environ.get("LAZYFS_REPO", "/repo")
PARSER = REPO + "/logparse/parse.py"
DEFAULT = ["write", "rename", "fsync", "fdatasync", "create", "open", "release", "read", "truncate"]

# ---- logs ------------------------------------------------------------------------------------------------------
def op(s, **k):
    d = {"syscall": s}; d.update(k)
    return d
def W(p, size=1, off=0): return op("write", path=p, size=str(size), off=str(off))
def R(p, size=1, off=0): return op("read", path=p, size=str(size), off=str(off))
def two(s, a, b): return op(s, from_=a, to=b)
def one(s, p): return op(s, path=p)
def O(p, mode="O_RDWR", s="open"): return op(s, path=p, mode=mode)
def TR(p, n=0): return op("truncate", path=p, tsize=str(n))
FAULT = {"syscall": "fault"}
T = {} # system call -> the line LazyFS really logs for it, with places for the arguments
def load_templates():
    """Runs the real LazyFS code once for every kind of operation and keeps the lines it logs."""
    import subprocess
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/bin")
    import build
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([build.build(), "--prop", "C23", "--out", d + "/o"], env=dict(os.environ, MC_OPLOG=d + "/log"), stdout=subprocess.DEVNULL, check=True)
        ls = open(d + "/log").read().split("\n")
    root = ls[0].split(" ", 1)[1]
    for l in ls[1:]:
        m = re.search(r"\[lazyfs\.ops\]: ?lfs_(\w+)\((.*)$", l)
        s = m.group(1) if m else "fault" if "Triggered fault condition" in l else "clear" if "clear cache request" in l else "report" if "report generated" in l else "sparse" if "parse write" in l else None
        if s is None or s in T or (s == "open" and "O_RDWR" not in l): continue
        l = l.replace("{", "{{").replace("}", "}}")
        if m:
            for a, b in (("from=" + root + "/a", "from={from_}"), ("to=" + root + "/b", "to={to}"), ("from=" + root + "/b", "from={from_}"), ("to=" + root + "/a", "to={to}"), ("from=t,", "from={from_},"), ("to=" + root + "/l", "to={to}")): l = l.replace(a, b)
            l = re.sub("path=" + re.escape(root) + "/[abcle]", "path={path}", l)
            for a, b in (("size=37", "size={size}"), ("size=35", "size={size}"), ("off=1234", "off={off}"), ("size=4321", "size={tsize}"), ("mode=O_RDWR", "mode={mode}")): l = l.replace(a, b)
        T[s] = l
    missing = [s for s in DEFAULT if s not in T and s != "fdatasync"] + [s for s in ("fault", "clear") if s not in T]
    if missing: raise SystemExit("no log line of " + ", ".join(missing))
def line(o, i):
    s = o["syscall"]
    return T[o["text"] if s == "noise" else s].format(**o) + "\n" if s != "noise" or o["text"] in T else "\n"
def key(o):
    return (o["syscall"], o.get("path"), o.get("from_"), o.get("to"))

# ---- running the parser ----------------------------------------------------------------------------------------
class Node:
    def __init__(self, name, **a): self.name, self.attr = name, a
class Edge:
    def __init__(self, a, b, **k): self.a, self.b = a, b
class Dot:
    last = None
    def __init__(self, *a, **k): self.nodes, self.edges, self.file = [], [], None; Dot.last = self
    def add_node(self, n): self.nodes.append(n)
    def add_edge(self, e): self.edges.append(e)
    def write_png(self, f): self.file = f
    write = write_png
_pydot = types.ModuleType("pydot")
_pydot.Node, _pydot.Edge, _pydot.Dot, _pydot.Graph = Node, Edge, Dot, Dot
sys.modules["pydot"] = _pydot
_code = None
def parser(args):
    """Runs main() of the parser with these arguments; returns (exit info, stdout)."""
    global _code
    if _code is None:
        with open(PARSER) as f: _code = compile(f.read(), PARSER, "exec")
    ns = {"__name__": "logparse"}
    old = sys.argv
    sys.argv = ["parse.py"] + args
    Dot.last = None
    so = io.StringIO()
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(io.StringIO()):
            exec(_code, ns)
            ns["main"]()
        return None, so.getvalue()
    except SystemExit as e:
        return (None if not e.code else "exit %s" % e.code), so.getvalue()
    except BaseException as e:
        return "%s: %s" % (type(e).__name__, e), so.getvalue()
    finally:
        sys.argv = old
        sys.setrecursionlimit(10000)

# ---- reading back its output -----------------------------------------------------------------------------------
def read_text(f):
    """[(kind, dict or list, reps)]"""
    out = []
    reps = None
    for l in open(f).read().split("\n"):
        if not l.strip(): continue
        if "FAULT" in l and "*" in l:
            # the fault line has no line break of its own
            out.append(("fault", None, 1))
            l = re.sub(r"\*+ FAULT \*+", "", l)
            if not l.strip(): continue
        m = re.match(r"_+ reps: (\d+) _+$", l)
        if m: reps = int(m.group(1)); continue
        d = ast.literal_eval(l)
        if d["syscall"] == "group": out.append(("group", d["group"], reps))
        else: out.append(("op", d, reps))
    return out
def expand(entries):
    r = []
    for kind, d, n in entries:
        if kind == "fault": r.append((("fault", None, None, None), None))
        elif kind == "group": r += [(key(x), None) for _ in range(n) for x in d]
        else: r += [(key(d), d if n == 1 else None)] * n
    return r
def read_graph(dot):
    ent = []
    for i, n in enumerate(dot.nodes):
        lab = str(n.attr.get("label", ""))
        if lab.strip() == "fault": ent.append(("fault", None, 1)); continue
        m = re.search(r"\nreps (\d+)\s*$", lab)
        if not m: raise ValueError("node without a count: %r" % lab)
        ops = []
        for l in lab[:m.start()].split("\n"):
            if not l.strip(): continue
            f = re.split(r" (?=(?:path|from|to|size|off|mode)=)", l)
            d = {"syscall": f[0]}
            for t in f[1:]:
                k, v = t.split("=", 1)
                d["from_" if k == "from" else k] = v
            ops.append(d)
        n = int(m.group(1))
        ent.append(("group", ops, n) if len(ops) != 1 or n > 1 else ("op", ops[0], n))
    names = [n.name for n in dot.nodes]
    if len(set(map(str, names))) != len(names): raise ValueError("two nodes share a name")
    want = [(str(a), str(b)) for a, b in zip(names, names[1:])]
    if [(str(e.a), str(e.b)) for e in dot.edges] != want: raise ValueError("the nodes are not linked in order")
    return ent
DETAIL = ("size", "off", "mode")
def judge(log, opt, tmp):
    """None or what is wrong."""
    lf, out = tmp + "/l.log", "o"
    with open(lf, "w") as f: f.writelines(line(o, i) for i, o in enumerate(log))
    sel = opt.get("syscalls") or DEFAULT
    files = opt.get("files")
    def chosen(o):
        if o["syscall"] == "fault": return True
        if o["syscall"] == "noise" or o["syscall"] not in sel: return False
        if not files: return True
        return all(p in files for p in (o.get("path"), o.get("from_"), o.get("to")) if p is not None)
    want = [o for o in log if chosen(o)]
    args = ["--logpath", lf, "-o", out]
    if opt.get("syscalls"): args += ["--syscalls"] + opt["syscalls"]
    if files: args += ["--files"] + files
    if opt.get("limit"): args += ["--group_limit", str(opt["limit"])]
    if opt.get("big"): args += ["-bw", "--page_size", str(opt["big"])]
    for mode in opt.get("modes", ("-t", "graph")):
        cwd = os.getcwd()
        for e in ("o.txt",):
            if os.path.exists(tmp + "/" + e): os.unlink(tmp + "/" + e)
        os.chdir(tmp)
        try: err, so = parser(args + ([] if mode == "graph" else [mode]))
        finally: os.chdir(cwd)
        if err: return "%s: the parser failed: %s" % (mode, err)
        try:
            if mode == "-fo":
                got = [ast.literal_eval(l) for l in open(tmp + "/o.txt") if l.strip()]
                got = [(key(d), d) for d in got]
            else:
                ent = read_text(tmp + "/o.txt") if mode == "-t" else read_graph(Dot.last)
                got = expand(ent)
                for kind, d, n in ent:
                    if kind == "group" and len(d) > (opt.get("limit") or 4): return "%s: a group of %d operations, the limit is %d" % (mode, len(d), opt.get("limit") or 4)
        except (OSError, ValueError, KeyError, SyntaxError, AttributeError) as e:
            return "%s: unreadable output: %s" % (mode, e)
        g, w = [k for k, _ in got], [key(o) for o in want]
        if g != w: return "%s: reports %s, logged %s" % (mode, short(g), short(w))
        for (k, d), o in zip(got, want):
            if d is None or o["syscall"] == "fault": continue
            for x in DETAIL:
                if x in o and d.get(x) != o[x]: return "%s: %s reported with %s=%s, logged %s" % (mode, short([k]), x, d.get(x), o[x])
        if opt.get("big"):
            wantb, n = {}, {}
            for o in want:
                if o["syscall"] != "write": continue
                n[o["path"]] = n.get(o["path"], 0) + 1
                if int(o["size"]) > opt["big"]: wantb.setdefault(o["path"], []).append((o["size"], o["off"], str(n[o["path"]])))
            gotb, cur = {}, None
            for l in so.split("\n"):
                m = re.match(r">\s*(\S+)", l)
                if m: cur = m.group(1); gotb[cur] = []
                m = re.search(r"size:\s*(\d+)\s*, off:\s*(\d+)\s*, occurrence:\s*(\d+)", l)
                if m: gotb[cur].append(m.groups())
            if gotb != wantb: return "%s: big writes reported as %s, expected %s" % (mode, gotb, wantb)
    return None
def short(ks):
    return "[" + " ".join("%s(%s)" % (k[0], k[1] if k[1] else ("%s>%s" % (k[2], k[3]) if k[2] else "")) for k in ks) + "]"

# ---- what is explored ------------------------------------------------------------------------------------------
def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(range(len(alpha)), repeat=n): yield [alpha[i] for i in w]
def canonical(alpha, lo, hi):
    """all patterns: words in which symbols appear first in the order of the alphabet (the grouping only compares for equality)"""
    def rec(w, used, n):
        if len(w) == n: yield [alpha[i] for i in w]; return
        for i in range(min(used + 1, len(alpha))):
            yield from rec(w + [i], max(used, i + 1), n)
    for n in range(lo, hi + 1): yield from rec([], 0, n)
PAT = [W("/r/a", 10, 0), one("fsync", "/r/a"), two("rename", "/r/a", "/r/b"), O("/r/b"), one("release", "/r/b"), R("/r/c", 4096, 4096)]
MIX = [W("/r/a", 1, 0), W("/r/a", 2, 7), W("/r/b", 1, 0), two("rename", "/r/a", "/r/b"), two("rename", "/r/b", "/r/a"), O("/r/a", "O_RDWR"), O("/r/a", "O_TRUNC", "create"), FAULT, one("fsync", "/r/a"), TR("/r/a", 5)]
EVERY = [W("/r/a"), R("/r/a"), TR("/r/a", 9), one("fsync", "/r/a"), O("/r/a"), O("/r/a", "O_WRONLY", "create"), one("release", "/r/a"), two("rename", "/r/a", "/r/b"), two("link", "/r/a", "/r/b"), two("link", "/r/a", "/r/c"), two("symlink", "t", "/r/b"), one("unlink", "/r/a"), one("unlink", "/r/b"), one("mkdir", "/r/d"),
         one("rmdir", "/r/d"), one("chmod", "/r/a"), one("access", "/r/a"), one("getattr", "/r/a"), FAULT,
         {"syscall": "noise", "text": "clear"}, {"syscall": "noise", "text": "sparse"}, {"syscall": "noise", "text": "report"}]
PATHS = [W("/r/a"), W("/r/a.b"), W("/r/axb"), W("/r/a b"), W("/r/d/a"), W("/r/aa"), one("fsync", "/r/a"), two("rename", "/r/a", "/r/a.b"), two("rename", "/r/a.b", "/r/d/a"), O("/r/a(1)"), W("/r/a+"), FAULT]
SC = [
 ("patterns", "every equality pattern of logs over 4 kinds of operations up to the length, as text and graph, grouping limits 1-4"),
 ("mixed", "every log over 10 operations (equal operations with different sizes, faults, renames both ways) up to the length"),
 ("kinds", "every pair/triple of all logged operation kinds under every selection of system calls"),
 ("paths", "every log of up to 3 operations on similar paths under every path filter"),
 ("big-writes", "every log of writes of 3 sizes on 2 files: the big-write summary"),
]
def cases(tier, k, n):
    """yields (scenario, log, options); job k of n"""
    i = 0
    def mine():
        nonlocal i
        i += 1
        return i % n == k
    for w in canonical(PAT[:4], 0, 9 if tier else 7):
        if mine(): yield 0, w, {"modes": ("-t",), "limit": None}
    for w in canonical(PAT[:3], 8, 13 if tier else 10):
        if mine(): yield 0, w, {"modes": ("-t",), "limit": None}
    for w in canonical(PAT[:2], 11, 15 if tier else 12):
        if mine(): yield 0, w, {"modes": ("-t",)}
    for lim in (1, 2, 3, 5):
        for w in canonical(PAT, 0, 8 if tier else 6):
            if mine(): yield 0, w, {"modes": ("-t",), "limit": lim}
    for w in words(MIX, 0, 5 if tier else 4):
        if mine(): yield 1, w, {"modes": ("-t", "graph", "-fo") if len(w) < 4 else ("-t",)}
    kinds = ["write", "read", "truncate", "fsync", "open", "create", "release", "rename", "link", "symlink", "unlink", "mkdir", "rmdir", "access"]
    sels = [None] + [[x] for x in kinds] + [[a, b] for a in kinds for b in kinds if a < b] + [kinds]
    for w in words(EVERY, 1, 3 if tier else 2):
        for s in sels:
            if len(w) == 3 and s and len(s) == 2: continue
            if mine(): yield 2, w, {"modes": ("-t", "-fo"), "syscalls": s}
    names = ["/r/a", "/r/a.b", "/r/d/a", "/r/aa"]
    fl = [[x] for x in names + ["/r/a b", "/r/a(1)", "/r/a+"]] + [[a, b] for a in names for b in names if a != b]
    for w in words(PATHS, 1, 3 if tier else 2):
        for f in fl + [None]:
            if mine(): yield 3, w, {"modes": ("-t", "-fo", "graph"), "files": f}
    BW = [W("/r/a", 1, 0), W("/r/a", 4096, 3), W("/r/a", 5000, 77), W("/r/b", 5000, 0), W("/r/b", 9, 1), two("rename", "/r/a", "/r/b")]
    for w in words(BW, 1, 6 if tier else 5):
        for b in ((8, 4096, 4999) if len(w) < 5 else (4096,)):
            if mine(): yield 4, w, {"modes": ("-fo",) if len(w) > 3 else ("-fo", "-t"), "big": b}
JOBS = 64
def job(a):
    tier, k, dl = a
    import time
    st = {"logs": 0, "ops": 0, "runs": 0, "truncated": 0, "per": [0] * len(SC), "sample": []}
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    with tempfile.TemporaryDirectory(dir=shm) as tmp:
        for sc, log, opt in cases(tier, k, JOBS):
            if time.time() > dl: st["truncated"] = 1; break
            r = judge(log, opt, tmp)
            st["logs"] += 1; st["ops"] += len(log); st["runs"] += len(opt["modes"]); st["per"][sc] += 1
            if k < 4 and st["logs"] % 500 == 7: st["sample"].append("%s: %s %s" % (SC[sc][0], short([key(o) for o in log]), opt))
            if r:
                st["violation"] = (sc, log, opt, r)
                break
    return st
def explore(tier, deadline=None):
    import time
    t0 = time.time()
    tier = 1 if tier in (1, "thorough") else 0
    deadline = deadline or int(os.environ.get("MC_BUDGET", "10800" if tier else "360"))
    tot = {"states": 0, "operations": 0, "histories": 0, "truncated": 0, "samples": [], "violation": None}
    per = [0] * len(SC)
    load_templates()
    with Pool(8) as p:
        for st in p.imap_unordered(job, [(tier, k, t0 + deadline) for k in range(JOBS)]):
            tot["histories"] += st["logs"]; tot["operations"] += st["ops"]; tot["states"] += st["runs"]; tot["truncated"] |= st["truncated"]
            tot["samples"] += st["sample"]
            per = [a + b for a, b in zip(per, st["per"])]
            if "violation" in st:
                sc, log, opt, r = st["violation"]
                tot["violation"] = {"scenario": SC[sc][0], "config": json.dumps(opt), "message": r, "history": short([key(o) for o in log]), "case": json.dumps({"log": log, "opt": opt}), "tier": tier}
                p.terminate()
                break
    tot["seconds"] = time.time() - t0
    tot["samples"] = tot["samples"][:16]
    tot["scenarios"] = [{"name": n, "what": w, "cases": c} for (n, w), c in zip(SC, per)]
    return tot
def replay(case):
    c = json.loads(case)
    load_templates()
    with tempfile.TemporaryDirectory() as tmp: return judge(c["log"], c["opt"], tmp)
if __name__ == "__main__":
    print(json.dumps(explore(1 if "thorough" in sys.argv else 0), indent=1))
