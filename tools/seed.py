#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds.py and tries each planted bug in scratch copies:
  seed.py write [IDS]      patch.diff, demo.sh, meta.json and the files of the demo
  seed.py try [-j N] [IDS] own tests, demo without and with the patch, the property's check with the patch
Scratch copies of /repo and /verif live under /tmp/sw and are removed afterwards."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tarfile, threading, io
sys.path.insert(0, os.path.dirname(__file__))
V = "/verif"
SEED = V + "/seeded"
DEMO = r'''#!/bin/bash
# Runs the scenario beside this file on the broker built from the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:$PATH
[ -f /opt/vp/harness/env.sh ] && . /opt/vp/harness/env.sh
export CARGO_NET_OFFLINE=true
tmp=$(mktemp -d /tmp/demo-XXXXXX); trap 'rm -rf "$tmp"' EXIT
tar xzf "$here/kit.tgz" -C "$tmp" || exit 9
sed -i "s#/repo/#$repo/#g" "$tmp/driver/Cargo.toml"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target}
(cd "$tmp" && cargo build --offline -q -p driver) || exit 9
timeout 120 "$CARGO_TARGET_DIR/debug/driver" sim < "$here/scenario.json" > "$tmp/trace.json" || { echo "the broker stopped"; exit 1; }
python3 "$here/expect.py" "$tmp/trace.json"
'''
EXPECT = r'''import json, sys
tr = json.load(open(sys.argv[1]))
st = tr["steps"]
def out(k, t=None, i=None):
    """packets client connection k received (type t, in step i)"""
    return [o for j, s in enumerate(st) if i is None or j == i for o in s["out"] if o["k"] == k and (t is None or o["t"] == t)]
def got(k, i=None):
    """payloads of the PUBLISH packets connection k received"""
    return [o["pl"] for o in out(k, "publish", i)]
def topics(k, i=None):
    return [o["topic"] for o in out(k, "publish", i)]
def closed(k):
    """time in ms when connection k was closed, -1 if it was not"""
    return next((c["at"] for s in st for c in s["closed"] if c["k"] == k), -1)
panics = [p for s in st for p in s["panics"]] + tr.get("late", [])
def check(what, ok):
    if not ok:
        print("FAILED:", what)
        for s in st:
            print(json.dumps(s["op"]), "->", [(o["k"], o["t"], o.get("topic"), o.get("pl"), o.get("pid"), o.get("code")) for o in s["out"]], s["closed"], s["panics"])
        sys.exit(1)
check("no panic", not panics)
'''


def defs(ids):
    import seeds
    return [s for s in seeds.SEEDS if not ids or s["id"] in ids or s["property"] in ids]


def kit():
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        for n in ("driver", "mqtt-proto"):
            t.add(f"{V}/harness/{n}", n, filter=lambda x: None if "target" in x.name else x)
        t.add(f"{V}/harness/Cargo.lock", "Cargo.lock")
        c = b'[workspace]\nmembers = ["mqtt-proto", "driver"]\nresolver = "2"\n'
        with open(f"{V}/harness/Cargo.toml") as f:
            src = f.read()
        c = re.sub(r"members = \[.*?\]", 'members = ["mqtt-proto", "driver"]', src, flags=re.S).encode()
        i = tarfile.TarInfo("Cargo.toml")
        i.size = len(c)
        t.addfile(i, io.BytesIO(c))
    return b.getvalue()


def write(s, kit_bytes):
    d = f"{SEED}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/sw/write-{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/sw", exist_ok=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", w], check=True)
    for f, old, new in s["edits"]:
        p = f"{w}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit(f"{s['id']}: {t.count(old)} occurrences of edit in {f}")
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    # removed lines have to be original ones
    root = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for f in {e[0] for e in s["edits"]}:
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", f], capture_output=True, text=True, check=True).stdout.split("\n")
        df = subprocess.run(["git", "-C", w, "diff", "-U0", "--", f], capture_output=True, text=True).stdout
        n = 0
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
            for ln in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)):
                h = bl[ln - 1].split()[0].lstrip("^")
                if not root.startswith(h[:30]):
                    print(f"  {s['id']}: line {ln} of {f} is not original: {bl[ln-1][-80:]}")
                else:
                    n += 1
        if not n:
            print(f"  {s['id']}: WARNING no original line removed in {f}")
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(s.get("demo", DEMO))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    if "demo" not in s:
        sc = dict(id=s["id"], cfg=s.get("cfg", {}), ops=s["ops"], net=s.get("net", {}))
        for k in ("pwfile",):
            if k in s:
                sc[k] = s[k]
        open(f"{d}/scenario.json", "w").write(json.dumps(sc) + "\n")
        open(f"{d}/expect.py", "w").write(EXPECT + s["expect"].strip() + "\n")
        open(f"{d}/kit.tgz", "wb").write(kit_bytes)
    for n, c in s.get("files", {}).items():
        open(f"{d}/{n}", "w").write(c)
    shutil.rmtree(w)


def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})})
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


slots = None


def setup_slot(i):
    b = f"/tmp/sw/s{i}"
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    subprocess.run(["git", "clone", "-q", "/repo", b + "/repo"], check=True)
    subprocess.run(f"mkdir {b}/verif && cd {V} && cp -a --parents $(git ls-files -co --exclude-standard | grep -v ^seeded/) {b}/verif/", shell=True, check=True)
    for f in ("harness/driver/Cargo.toml", "harness/selftest/Cargo.toml"):
        p = f"{b}/verif/{f}"
        if os.path.exists(p):
            t = open(p).read()
            open(p, "w").write(t.replace("/repo/", b + "/repo/"))
    return b


def attempt(s, checks=None):
    b = slots.get()
    try:
        r, d = b + "/repo", f"{SEED}/{s['id']}"
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        res = {"id": s["id"], "property": s["property"]}
        c, o = sh(f"cd {r} && DEMO_TARGET={b}/dt bash {d}/demo.sh", r)
        res["demo_clean"] = c
        if c:
            res["o"] = o[-1500:]
        subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
        c, o = sh(f"cd {r} && DEMO_TARGET={b}/dt bash {d}/demo.sh", r)
        res["demo_bug"] = c
        res["demo_says"] = o[:300]
        c, o = sh(f". /opt/vp/harness/env.sh; export CARGO_TARGET_DIR={b}/verif/harness/target; cd {b}/verif/harness/selftest && cargo test --offline -q --features http 2>&1 | tail -30", r)
        m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", o)
        res["own_tests"] = m or o[-400:]
        res["checks"] = {}
        for p in checks or [s["property"]]:
            c, o = sh(f"./check {p}", b + "/verif", env={"VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [x for x in o.split("\n") if "violating executions" in x]
            res["checks"][p] = (c, (v or o.strip().split("\n")[-1:])[0][:200])
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        print(json.dumps(res), flush=True)
        return res
    finally:
        slots.put(b)


def main():
    global slots
    a = sys.argv[1:]
    cmd = a.pop(0)
    n = 2
    checks = None
    while a and a[0].startswith("-"):
        x = a.pop(0)
        if x == "-j":
            n = int(a.pop(0))
        elif x == "-c":
            checks = a.pop(0).split(",")
    ds = defs(a)
    k = kit()
    if cmd == "write":
        for s in ds:
            write(s, k)
        return
    import queue
    slots = queue.Queue()
    n = min(n, len(ds))
    for i in range(n):
        slots.put(setup_slot(i))
    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda s: attempt(s, checks), ds))
    for i in range(n):
        shutil.rmtree(f"/tmp/sw/s{i}", ignore_errors=True)
    print("caught", sum(1 for r in rs if any(c == 1 for c, _ in r["checks"].values())), "of", len(rs))


main()
