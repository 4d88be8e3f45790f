"""Build, run and replay machinery shared by all checks (see DESIGN.md)."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.74.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None); ENV.pop("CARGO_TARGET_DIR", None)

# ------------------------------------------------------------------ templates
class Cls:
    """A set of byte values."""
    def __init__(self, name, values):
        self.name, self.bits = name, 0
        for v in values: self.bits |= 1 << v
def rng(*rs):
    out = []
    for r in rs:
        if isinstance(r, (bytes, bytearray)): out += list(r)
        elif isinstance(r, int): out.append(r)
        else: out += list(range(r[0], r[1] + 1))
    return out
ANY = Cls("any byte", range(256))
ASCII = Cls("ASCII", range(128))
CONT = Cls("UTF-8 continuation byte", range(0x80, 0xC0))
class B:
    """One symbolic byte of class `cls`; `var` shares the variable between places."""
    def __init__(self, cls, var=None): self.cls, self.var = cls, var
class L:
    """One symbolically selected lexeme of a list."""
    def __init__(self, lst, var=None): self.lst, self.var = lst, var
class Lex:
    def __init__(self, name, items):
        self.name = name
        self.items = [i.encode() if isinstance(i, str) else bytes(i) for i in items]
        assert len(self.items) <= 256, name
class Job:
    """entry function, options word, inputs (lists of str/bytes/B/L), extra parameter words"""
    def __init__(self, entry, *inputs, opts=0, extra=(), weight=1):
        self.entry, self.opts, self.extra = entry, opts, list(extra)
        self.inputs = [i if isinstance(i, (list, tuple)) else [i] for i in inputs]
    def encode(self):
        classes, lists, ins = [], [], []
        nb = nl = 0
        bv = lv = 0
        used_b = {i.var for t in self.inputs for i in t if isinstance(i, B) and i.var is not None}
        used_l = {i.var for t in self.inputs for i in t if isinstance(i, L) and i.var is not None}
        for t in self.inputs:
            items = []
            for it in t:
                if isinstance(it, str): it = it.encode()
                if isinstance(it, (bytes, bytearray)): items += list(it)
                elif isinstance(it, B):
                    if it.cls not in classes: classes.append(it.cls)
                    v = it.var
                    if v is None:
                        while bv in used_b: bv += 1
                        v = bv; bv += 1
                    assert v < 40
                    items.append((1 << 16) | ((classes.index(it.cls) + 1) << 8) | v)
                elif isinstance(it, L):
                    if it.lst not in lists: lists.append(it.lst)
                    v = it.var
                    if v is None:
                        while lv in used_l: lv += 1
                        v = lv; lv += 1
                    assert v < 16
                    items.append((2 << 16) | (lists.index(it.lst) << 8) | v)
                else: raise TypeError(it)
            ins.append(items)
        p = [self.opts, len(classes)]
        for c in classes: p += [(c.bits >> (64 * i)) & (2**64 - 1) for i in range(4)]
        p.append(len(lists)); lo = len(p); p += [0] * len(lists)
        p.append(len(ins))
        for i in ins: p.append(len(i)); p += i
        p.append(len(self.extra)); p += self.extra
        for k, l in enumerate(lists):
            p[lo + k] = len(p)
            p.append(len(l.items)); to = len(p); p += [0] * len(l.items)
            for n, x in enumerate(l.items):
                p[to + n] = len(p)
                p.append(len(x))
                p += [int.from_bytes(x[i:i + 8], "little") for i in range(0, len(x), 8)]
        return p
    def decode(self, model_bytes):
        """The concrete inputs a model stands for."""
        out = []
        p = self.encode(); ncls = p[1]; at = 2 + 4 * ncls; nl = p[at]; lo = at + 1; at = lo + nl
        n = p[at]; at += 1
        get = lambda i: model_bytes[i] if i < len(model_bytes) else 0
        for _ in range(n):
            k = p[at]; at += 1; b = bytearray()
            for it in p[at:at + k]:
                if it >> 16 == 0: b.append(it)
                elif it >> 16 == 1: b.append(get(it & 255))
                else:
                    tab = p[lo + ((it >> 8) & 255)]
                    o = p[tab + 1 + get(40 + (it & 255))]; ln = p[o]
                    for q in range(ln): b.append((p[o + 1 + q // 8] >> (8 * (q % 8))) & 255)
            at += k; out.append(bytes(b))
        return out
    def show(self):
        out = []
        for t in self.inputs:
            s = ""
            for it in t:
                if isinstance(it, B): s += "<%s%s>" % (it.cls.name, "" if it.var is None else "#%d" % it.var)
                elif isinstance(it, L): s += "<%s%s>" % (it.lst.name, "" if it.var is None else "#%d" % it.var)
                else:
                    r = repr(it if isinstance(it, str) else bytes(it).decode("latin1"))[1:-1]
                    s += r if len(r) < 120 else r[:40] + "...(%d bytes)..." % len(it if isinstance(it, bytes) else it.encode()) + r[-40:]
            out.append(s)
        return "%s(%s)%s" % (self.entry, " , ".join(out), " opts=%#x" % self.opts if self.opts else "")

# ------------------------------------------------------------------ building
def sh(cmd, log, cwd=VERIF, timeout=900, again=True):
    with open(log, "w") as f:
        rc = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
    if rc and again and "SIGKILL" in open(log).read(): return sh(cmd, log, cwd, timeout, False)  # ended for want of memory
    return rc
def fail(msg, code=2):
    print("ERROR: " + msg, flush=True); sys.exit(code)
def build_engine():
    out = os.path.join(BUILD, "engine"); os.makedirs(out, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "*"))):
        if os.path.isfile(f): h.update(open(f, "rb").read())
    stamp = os.path.join(out, "stamp")
    if os.path.exists(os.path.join(out, "symex")) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return
    for f in glob.glob(os.path.join(out, "*.o")): os.remove(f)
    if sh(["make", "-j8", "-C", os.path.join(VERIF, "engine"), "OUT=" + out], os.path.join(BUILD, "engine.log")): fail("engine build failed, see build/engine.log")
    open(stamp, "w").write(h.hexdigest())
def forget(target, profile):
    """Make cargo rebuild /repo's crate and the harness whatever their mtimes say."""
    for pat in ("wolfram-parser-*", "codeparser-wll-*", "harness-*", "replay-*"):
        for d in glob.glob(os.path.join(target, profile, ".fingerprint", pat)): shutil.rmtree(d, ignore_errors=True)
def build_bitcode(target=None, sub=""):
    """sub: "" (the harness of the parser crate) or "wll" (the harness of codeparser-wll)"""
    target = target or os.path.join(BUILD, "bc" + sub); os.makedirs(target, exist_ok=True)
    forget(target, "release")
    bc = os.path.join(target, "release/deps/harness.bc")
    if os.path.exists(bc): os.remove(bc)
    log = os.path.join(BUILD, "bitcode%s.log" % sub)
    rc = sh(["cargo", "rustc", "--release", "--offline", "--locked", "--lib", "--target-dir", target, "--", "--emit=llvm-bc", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], log, os.path.join(VERIF, sub, "harness"))
    if rc or not os.path.exists(bc): fail("harness does not build against /repo: see %s\n" % log + "".join(open(log).readlines()[-30:]))
    return bc
def build_replay(target=None, sub=""):
    target = target or os.path.join(BUILD, "rp" + sub); os.makedirs(target, exist_ok=True)
    forget(target, "debug")
    exe = os.path.join(target, "debug/replay")
    if os.path.exists(exe): os.remove(exe)
    log = os.path.join(BUILD, "replay%s.log" % sub)
    rc = sh(["cargo", "build", "--offline", "--locked", "--target-dir", target], log, os.path.join(VERIF, sub, "replay"))
    if rc or not os.path.exists(exe): fail("replay does not build against /repo: see " + log)
    return exe

# ------------------------------------------------------------------ running
class Run: pass
def symex(bc, jobs, outdir, secs, cert, sample, maxviol=200, procs=8, inst=60_000_000):
    if os.path.exists(outdir): shutil.rmtree(outdir)
    os.makedirs(outdir)
    jf = os.path.join(outdir, "jobs.txt")
    with open(jf, "w") as f:
        for j in jobs: f.write(j.entry + " " + " ".join(map(str, j.encode())) + "\n")
    cmd = [os.path.join(BUILD, "engine", "symex"), bc, jf, outdir, "-t", str(secs), "-c", str(cert), "-s", str(sample), "-p", str(procs), "-v", str(maxviol), "-i", str(inst)]
    r = Run(); t0 = time.time()
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + cert + 120)
    r.rc, r.out, r.wall = p.returncode, p.stdout, time.time() - t0
    r.sum, r.reach, r.jobpaths, r.funcs = {}, {}, {}, {}
    sf = os.path.join(outdir, "summary.txt")
    if os.path.exists(sf):
        for l in open(sf, errors="replace"):
            q = l.rstrip("\n").split("\t")
            if q[0] == "reach": r.reach[int(q[1])] = int(q[2])
            elif q[0] == "job": r.jobpaths[int(q[1])] = int(q[2])
            elif q[0] == "func": r.funcs[q[1]] = int(q[2])
            elif len(q) == 2: r.sum[q[0]] = int(q[1]) if re.fullmatch(r"-?\d+", q[1]) else q[1]
    r.viol, r.samples, r.errors = [], [], []
    for f in sorted(glob.glob(os.path.join(outdir, "w*.txt"))):
        for l in open(f, errors="replace"):
            q = l.rstrip("\n").split("\t")
            if q[0] == "V" and len(q) >= 6: r.viol.append((int(q[1]), q[2], int(q[3]), model(q[4]), q[5]))
            elif q[0] == "S" and len(q) >= 5:
                lg = [int(x) for x in q[4].split()]
                r.samples.append((int(q[1]), q[2], model(q[3]), lg[1:1 + lg[0]] if lg else []))
            elif q[0] == "E": r.errors.append(q[1:])
    return r
def model(s):
    n = [int(x) for x in s.split()]
    nb = n[0]; b = n[1:1 + nb]; rest = n[1 + nb:]
    w = rest[1:1 + rest[0]] if rest else []
    return b, w
def replay(exe, recs, path, timeout=300):
    """recs: (Job, (bytes, words)). Runs them natively; returns [(end, failed ids, logs)]"""
    with open(path, "w") as f:
        prev = None
        for j, (b, w) in recs:
            f.write("---\nentry: %s\n" % j.entry)
            if j is not prev: f.write("params: " + " ".join(map(str, j.encode())) + "\n")
            prev = j
            f.write("bytes: " + " ".join(map(str, b)) + "\nwords: " + " ".join(map(str, w)) + "\n")
    return replay_file(exe, path, timeout)
def replay_file(exe, path, timeout=300):
    p = subprocess.run([exe, path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    out = []
    for blk in re.findall(r"end: (\S+)\nfailed: (.*)\nlogs: (.*)", p.stdout):
        out.append((blk[0], [int(x) for x in blk[1].split()], [int(x) for x in blk[2].split()]))
    return out, p.stderr
