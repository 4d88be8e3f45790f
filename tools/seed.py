"""seed.py DEFS.py [ID...]: confirm planted bugs in a scratch copy and store them under /verif/seeded"""
import sys, os, subprocess, json, shutil
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.74.1", CARGO_NET_OFFLINE="true")
W = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **k)
def txt(r): return r.stdout.decode(errors="replace")
ns = {}; exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
# the demo program is compiled against /repo: swap /repo via bind is not possible, so patch /repo itself and restore
assert sh("git -C /repo status --porcelain").stdout.strip() == b"", "dirty /repo"
DEMO = '''#!/bin/bash
# exit 0: the behaviour described in meta.json's property holds on these inputs
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true HOME=${HOME:-/root}
export PATH=$PATH:/root/.cargo/bin
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo" && cd "$tmp/demo" || exit 2
cargo build --offline --target-dir "$tmp/t" >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 2; }
while IFS= read -r line; do
  eval "set -- $line"
  what=$1; opts=$2; shift 2
  n=0; files=
  for x in "$@"; do n=$((n+1)); printf "$x" > "$tmp/in$n"; files="$files $tmp/in$n"; done
  timeout 20 "$tmp/t/debug/replay" $what $opts $files 2>/dev/null || echo "FAILED $?"
done < "$here/cases.txt" > "$tmp/out"
cmp "$tmp/out" "$here/expect.txt" || { diff "$tmp/out" "$here/expect.txt" | cut -c1-400 | head; exit 1; }
'''
def q(x):  # bytes/str -> printf format, shell-quoted
    b = x.encode() if isinstance(x, str) else x
    return "'" + "".join(chr(c) if 32 <= c < 127 and c not in b"\\%'" else "\\%03o" % c for c in b) + "'"
for d in ns["BUGS"]:
    if ids and d["id"] not in ids: continue
    dst = "/verif/seeded/" + d["id"]
    if not ids and os.path.exists(dst + "/patch.diff"): continue
    os.makedirs(dst, exist_ok=True)
    try:
        ok = True
        for f, old, new in d["edits"]:
            p = "/repo/crates/wolfram-parser/src/" + f; s = open(p).read()
            n = s.count(old)
            if n != 1: print(d["id"], "edit matches", n, "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: shutil.rmtree(dst); continue
        open(dst + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/build.sh", cwd="/repo")
        if r.returncode: print(d["id"], "DOES NOT BUILD", txt(r)[-1500:]); shutil.rmtree(dst); continue
        sh("bash /opt/vp/test.sh /tmp/sd/t.json", cwd="/repo")
        miss = base - set(json.load(open("/tmp/sd/t.json"))["passed"])
        if miss: print(d["id"], "TESTS FAIL", sorted(miss)[:8]); shutil.rmtree(dst); continue
        shutil.copytree("/tmp/sd/demo", dst + "/demo", dirs_exist_ok=True)
        with open(dst + "/cases.txt", "w") as f:
            for c in d["cases"]: f.write(" ".join([c[0], c[1]] + [q(x) for x in c[2:]]) + "\n")
        open(dst + "/demo.sh", "w").write(DEMO); os.chmod(dst + "/demo.sh", 0o755)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        def run():
            open(dst + "/expect.txt", "a").close()
            return None
        # output with the bug
        out = sh("sed 's#^cmp .*#cat \"$tmp/out\"; exit 0#' %s/demo.sh > %s/x.sh; touch %s/expect.txt; bash %s/x.sh" % (dst, dst, dst, dst)).stdout
        bug = out
    finally:
        sh("git -C /repo checkout -- .")
    good = sh("bash %s/x.sh" % dst).stdout
    open(dst + "/expect.txt", "wb").write(good); os.remove(dst + "/x.sh")
    if good == bug: print(d["id"], "NO DIFFERENCE"); shutil.rmtree(dst); continue
    if sh("bash %s/demo.sh" % dst, cwd="/repo").returncode: print(d["id"], "DEMO FAILS ON GOOD"); continue
    print(d["id"], "ok", d["prop"]); print("   good:", repr(good[:300])); print("   bug :", repr(bug[:300]))
sh("bash /opt/vp/build.sh", cwd="/repo")
