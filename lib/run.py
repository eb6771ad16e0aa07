"""Orchestration only: builds the driver, runs TLC (model checking, script generation, trace
validation) and the real broker.  Verdicts come from TLC evaluating the TLA+ specifications."""
import concurrent.futures as cf
import hashlib, heapq, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "harness", "target")
DRIVER = os.path.join(TARGET, "debug", "driver")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, os.cpu_count() or 2)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET)
    sh = ". /opt/vp/harness/env.sh 2>/dev/null; exec cargo build --offline -q -p driver"
    env["CARGO_TARGET_DIR"] = TARGET
    p = subprocess.run(["bash", "-c", f". /opt/vp/harness/env.sh >/dev/null 2>&1; export CARGO_TARGET_DIR={TARGET}; "
                        "exec cargo build --offline -q -p driver"], cwd=os.path.join(VERIF, "harness"), env=env,
                       capture_output=True, text=True)
    if p.returncode:
        raise ToolError("driver does not build:\n" + p.stderr[-6000:])


# ------------------------------------------------------------------ TLC
def tlc_const(v):
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    return str(v)


class Tlc:
    """One TLC run in a private directory."""

    def __init__(self, work, name, module_text=None, module=None):
        self.dir = os.path.join(work, name)
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                dst = os.path.join(self.dir, f)
                if not os.path.exists(dst):
                    os.symlink(os.path.join(SPEC, f), dst)
        self.module = module
        if module_text:
            with open(os.path.join(self.dir, module + ".tla"), "w") as f:
                f.write(module_text)

    def run(self, cfg, workers=1, args=(), env=None, timeout=600, mem="3g", on_line=None):
        with open(os.path.join(self.dir, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{mem}", "-Xss8m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(self.dir, "states"), "-noGenerateSpecTE",
               "-config", "run.cfg", *args, self.module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             encoding="utf-8", errors="replace")
        out, tail = [], []
        import threading
        killed = []

        def kill():
            killed.append(1)
            p.kill()
        tm = threading.Timer(timeout, kill)
        tm.start()
        try:
            for line in p.stdout:
                line = line.rstrip("\n")
                if on_line and on_line(line):
                    continue
                tail.append(line)
                if len(tail) > 4000:
                    del tail[:2000]
            p.wait()
        finally:
            tm.cancel()
        text = "\n".join(tail)
        shutil.rmtree(os.path.join(self.dir, "states"), ignore_errors=True)
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", text):
            pass
        res = dict(rc=p.returncode, text=text, wall=time.time() - t0, killed=bool(killed),
                   states=int(m.group(2).replace(",", "")) if m else 0,
                   transitions=int(m.group(1).replace(",", "")) if m else 0)
        m2 = re.search(r"The number of states generated: ([\d,]+)", text)
        if m2 and not m:
            res["transitions"] = res["states"] = int(m2.group(1).replace(",", ""))
        return res


def unq(line, tag):
    """TLC prints strings as \"...\" with quotes escaped."""
    s = line.strip()
    if not s.startswith('"' + tag):
        return None
    s = s[1:-1] if s.endswith('"') else s[1:]
    return s[len(tag):].replace('\\"', '"').replace("\\\\", "\\")


def template(name, mod):
    with open(os.path.join(SPEC, name)) as f:
        return f.read().replace("@P@", mod)


def consts_cfg(c):
    o = []
    for k, v in c.items():
        if isinstance(v, str) and v.startswith("<-"):
            o.append(f"  {k} {v}")
        else:
            o.append(f"  {k} = {tlc_const(v)}")
    return "CONSTANTS\n" + "\n".join(o) + "\n" if o else ""


def run_model(work, m, tier):
    """A pure design model: <mod>MC.tla + committed cfg, constants overridable per tier."""
    t = Tlc(work, "model_" + m["mod"], module=m["mod"])
    with open(os.path.join(SPEC, m["mod"] + ".cfg")) as f:
        cfg = f.read()
    for k, v in m.get(tier, {}).items():
        cfg, n = re.subn(rf"(?m)^(\s*{k}\s*=\s*).*$", lambda mm: mm.group(1) + tlc_const(v), cfg)
        assert n == 1, k
    r = t.run(cfg, workers=m.get("workers", 4), timeout=m.get("timeout", 500), mem="4g",
              args=["-deadlock"] if m.get("nodeadlock") else [])
    if r["rc"] != 0 or "No error has been found" not in r["text"]:
        raise ToolError(f"design model {m['mod']} fails:\n" + r["text"][-5000:])
    return dict(name=m["mod"], states=r["states"], transitions=r["transitions"], wall=round(r["wall"], 1))


def run_mc(work, b, tier, seed, scripts):
    """Exhaustive checking of a bound module with small constants; emits one script per
    interesting transition."""
    mod = b["mod"]
    mc = {**b.get("mc", {}), **b.get("mc_" + tier, {})}
    if not mc:
        return None
    c = dict(mc)
    depth = c.pop("depth", 6)
    text = template("MC.tmpl", mod)
    extra = b.get("mcdefs", "")
    text = text.replace("\n====", "\n" + extra + "\n====")
    t = Tlc(work, "mc_" + b.get("name", mod), text, "MC_" + mod)
    cfg = ("INIT MCInit\nNEXT MCNext\nINVARIANT MCInv\nVIEW MCView\nACTION_CONSTRAINT EmitEdge\nCONSTRAINT MCBound\n"
           "CHECK_DEADLOCK FALSE\n" + consts_cfg({**c, "Depth": depth, "Emit": True}))
    cap = b.get("cap_" + tier, b.get("cap", 1500))
    seen = [0]
    heap = []          # the `cap` scripts with the smallest hashes

    def on_line(line):
        s = unq(line, "SCRIPT ")
        if s is None:
            return False
        seen[0] += 1
        h = -int.from_bytes(hashlib.blake2b(f"{seed}{s}".encode(), digest_size=8).digest(), "big")
        if len(heap) < cap:
            heapq.heappush(heap, (h, s))
        elif h > heap[0][0]:
            heapq.heapreplace(heap, (h, s))
        return True
    r = t.run(cfg, workers=b.get("mcworkers", 3), timeout=b.get("mctimeout", 500), on_line=on_line, mem="4g")
    if r["rc"] != 0 or "No error has been found" not in r["text"]:
        raise ToolError(f"model checking {mod} fails:\n" + r["text"][-5000:])
    keep = [s for _, s in heap]
    scripts.extend(("edge", s) for s in keep)
    return dict(name=b.get("name", mod), states=r["states"], transitions=r["transitions"], edges_emitted=seen[0], edges_kept=len(keep),
                wall=round(r["wall"], 1))


def run_sim(work, b, tier, seed, scripts, idx, rs):
    mod = b["mod"]
    c = dict(rs.get("const", {}))
    depth, num = rs["depth"], rs["num_" + tier] if "num_" + tier in rs else rs["num"]
    text = template("MC.tmpl", mod)
    extra = b.get("mcdefs", "")
    text = text.replace("\n====", "\n" + extra + "\n====")
    t = Tlc(work, f"sim_{b.get('name', mod)}_{idx}", text, "MC_" + mod)
    cfg = ("INIT RandInit\nNEXT RandNext\nINVARIANT MCInv\nCONSTRAINT EmitWalk\nCHECK_DEADLOCK FALSE\n"
           + consts_cfg({**c, "Depth": depth, "Emit": False}))
    got = []

    def on_line(line):
        s = unq(line, "SCRIPT ")
        if s is None:
            return False
        got.append(s)
        return True
    r = t.run(cfg, workers=1, args=["-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(seed * 1000 + idx)],
              timeout=b.get("simtimeout", 500), on_line=on_line)
    if "is violated" in r["text"] or r["rc"] != 0:
        raise ToolError(f"simulation of {mod} fails:\n" + r["text"][-5000:])
    if not got:
        raise ToolError(f"simulation of {mod} produced no scripts:\n" + r["text"][-3000:])
    scripts.extend(("walk", s) for s in got)
    return dict(name=b.get("name", mod), walks=len(got), depth=depth, states=r["transitions"], wall=round(r["wall"], 1))


# ------------------------------------------------------------------ the real broker
def run_driver(scs, timeout, mode="sim", env=None):
    """scs: list of scenario dicts.  Returns list of traces in order; a hang or crash yields a
    trace with the key `died`."""
    n = min(NCPU, max(1, len(scs) // 4))
    shards = [scs[i::n] for i in range(n)]
    res = {}

    def one(sh):
        todo = list(sh)
        while todo:
            inp = "".join(json.dumps(s) + "\n" for s in todo)
            p = subprocess.Popen([DRIVER, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 text=True, env={**os.environ, **(env or {})})
            try:
                out, err = p.communicate(inp, timeout=timeout)
                died = None if p.returncode == 0 else f"exit {p.returncode}: {err[-500:]}"
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                died = "no progress: time limit"
            lines = [x for x in out.split("\n") if x]
            good = []
            for x in lines:
                try:
                    good.append(json.loads(x))
                except ValueError:
                    break
            for tr in good:
                res[tr["id"]] = tr
            if died is None:
                if len(good) != len(todo):
                    raise ToolError("driver lost scenarios")
                return
            bad = todo[len(good)] if len(good) < len(todo) else None
            if bad is None:
                return
            res[bad["id"]] = dict(id=bad["id"], died=died, steps=[], pre=[], late=[])
            todo = todo[len(good) + 1:]

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, shards))
    return [res[s["id"]] for s in scs]


OUT_FIELDS = ["k", "t", "lv", "qos", "dup", "retain", "pid", "pl", "code", "codes", "sp", "at"]


def project(tr, hdr, extra):
    """Keep the recorded fields the specification talks about (no interpretation)."""
    fields = OUT_FIELDS + extra.get("out", [])
    steps = []
    for st in tr["steps"]:
        o = dict(op=st["op"], out=[{f: p[f] for f in fields if f in p} for p in st["out"]],
                 closed=st["closed"])
        for f in extra.get("step", []):
            o[f] = st[f]
        steps.append(o)
    d = dict(hdr=hdr, steps=steps)
    for f in extra.get("trace", []):
        d[f] = tr[f]
    return d


def validate(work, b, traces, tag, timeout):
    """TLC decides for each projected trace whether it is a behaviour of the module."""
    mod = b["mod"]
    n = max(1, min(NCPU, len(traces) // 20))
    idxs = [list(range(i, len(traces), n)) for i in range(n)]
    text = template("Trace.tmpl", mod)

    def one(i):
        ids = idxs[i]
        if not ids:
            return {}, 0, 0
        t = Tlc(work, f"tr_{b.get('name', mod)}_{tag}_{i}", text, "Trace_" + mod)
        path = os.path.join(t.dir, "traces.ndjson")
        with open(path, "w") as f:
            for j in ids:
                f.write(json.dumps(traces[j]) + "\n")
        rej, wide = {}, []

        def on_line(line):
            s = unq(line, "REJECT ")
            if s is None:
                if unq(line, "WIDE ") is not None:
                    wide.append(1)
                    return True
                return False
            m = re.match(r"(\d+) (\d+) EXPECTED (.*)", s, re.S)
            rej[ids[int(m.group(1)) - 1]] = (int(m.group(2)), m.group(3)[:3000])
            return True
        cfg = ("INIT TInit\nNEXT TNext\nINVARIANT TInv\nCHECK_DEADLOCK FALSE\n" + consts_cfg(b.get("trace", {})))
        r = t.run(cfg, workers=1, env={"TRACES": path}, timeout=timeout, on_line=on_line, mem="2500m")
        if r["rc"] != 0 or "No error has been found" not in r["text"]:
            raise ToolError(f"trace validation with {mod} stopped:\n" + r["text"][-5000:])
        want = sum(len(traces[j]["steps"]) + 1 for j in ids if j not in rej) + sum(v[0] + 1 for v in rej.values())
        if r["states"] < 1:
            raise ToolError("trace validation explored nothing")
        if len(wide) > len(ids) // 5:
            raise ToolError("trace validation of most executions gave up")
        shutil.rmtree(t.dir, ignore_errors=True)
        return rej, r["states"], want

    rej, states = {}, 0
    with cf.ThreadPoolExecutor(n) as ex:
        for a, s, w in ex.map(one, range(n)):
            rej.update(a)
            states += s
    return rej, states


def corrupt(tr, rnd):
    """A falsified copy of an accepted trace, to show that the specification is bound to it."""
    cand = []
    for i, st in enumerate(tr["steps"]):
        for j, o in enumerate(st["out"]):
            cand.append((i, j))
        for j, o in enumerate(st["closed"]):
            cand.append((i, -1))
    if not cand:
        return None
    pubs = [(i, j) for (i, j) in cand if j >= 0 and tr["steps"][i]["out"][j]["t"] == "publish"]
    i, j = rnd.choice(pubs if pubs and rnd.random() < 0.7 else cand)
    c = json.loads(json.dumps(tr))
    if j < 0:
        c["steps"][i]["closed"] = []
    elif rnd.random() < 0.7:
        del c["steps"][i]["out"][j]
    else:
        c["steps"][i]["out"].append(c["steps"][i]["out"][j])
        o = c["steps"][i]["out"][-1]
        if o["t"] == "publish":
            o["pl"] = 987654
        else:
            o["k"] = o["k"] + 57
    return c


# ------------------------------------------------------------------ one property
NETS = [{}, {}, {"rchunk": 1}, {"rchunk": 3, "lazy": 1}, {"wchunk": 7}, {"rchunk": 5, "wchunk": 1}, {"ws": 1},
        {"ws": 1, "wssplit": 2}]


def scenario(script, i, b, rnd):
    hist = json.loads(script) if isinstance(script, str) else script
    hdr, ops = hist[0], hist[1:]
    sc = dict(id=f"{b.get('name', b['mod'])}-{i}", cfg=hdr.get("cfg", {}), ops=ops, net=hdr.get("net") or
              (rnd.choice(b.get("nets", NETS)) if b.get("vary_net", True) else {}))
    for f in ("pwfile", "rounds"):
        if f in hdr:
            sc[f] = hdr[f]
    return sc, hdr


def check_bound(work, b, tier, seed, ev, viol, deadline):
    mod = b.get("name", b["mod"])
    rnd = random.Random(f"{seed}-{mod}")
    scripts = []
    jobs = []
    with cf.ThreadPoolExecutor(4) as ex:
        jobs.append(ex.submit(run_mc, work, b, tier, seed, scripts))
        for idx, rs in enumerate(b.get("sim", [])):
            jobs.append(ex.submit(run_sim, work, b, tier, seed, scripts, idx, rs))
        done = [j.result() for j in jobs]
    ev["model_runs"] += [d for d in done if d]
    ev["states"] += sum(d["states"] for d in done if d and "walks" not in d)
    ev["transitions"] += sum(d["transitions"] for d in done if d and "walks" not in d)
    extra_scripts = b.get("scripts")
    if extra_scripts:
        scripts.extend(("fixed", s) for s in extra_scripts(seed, tier))
    scripts.sort(key=lambda x: (x[0], x[1] if isinstance(x[1], str) else json.dumps(x[1])))
    uniq, seen = [], set()
    for kind, s in scripts:
        h = s if isinstance(s, str) else json.dumps(s, sort_keys=True)
        if h not in seen:
            seen.add(h)
            uniq.append((kind, s))
    rnd.shuffle(uniq)
    chunk = b.get("chunk", 4000)
    selftest_done = False
    ops = {}
    for c0 in range(0, len(uniq), chunk):
        if time.time() > deadline and c0:
            ev["notes"].append(f"{mod}: stopped after {c0} of {len(uniq)} scripts (time)")
            break
        part = uniq[c0:c0 + chunk]
        pairs = [scenario(s, c0 + i, b, rnd) for i, (kind, s) in enumerate(part)]
        t0 = time.time()
        raw = run_driver([p[0] for p in pairs], b.get("drvtimeout", 240))
        t1 = time.time()
        proj = []
        for (sc, hdr), tr in zip(pairs, raw):
            for st in tr["steps"]:
                key = st["op"].get("t", "?")
                ops[key] = ops.get(key, 0) + 1
            proj.append(project(tr, hdr, b.get("fields", {})))
        rej, states = validate(work, b, proj, f"c{c0}", b.get("trtimeout", 500))
        log(f"  {mod}: {len(part)} scripts, broker {t1-t0:.1f}s, validation {time.time()-t1:.1f}s, rejected {len(rej)}")
        ev["trace_states"] += states
        ev["traces"] += len(part)
        for j, tr in enumerate(raw):
            if tr.get("died"):
                viol.append(dict(mod=mod, scenario=pairs[j][0], hdr=pairs[j][1], trace=tr, why="the broker process " + tr["died"]))
        for j in sorted(rej):
            if raw[j].get("died"):
                continue
            l, exp = rej[j]
            viol.append(dict(mod=mod, scenario=pairs[j][0], hdr=pairs[j][1], trace=raw[j], step=l, expected=exp,
                             why=f"step {l} is not a behaviour of {mod}"))
        if not selftest_done:
            good = [j for j in range(len(proj)) if j not in rej and not raw[j].get("died")]
            rnd.shuffle(good)
            bad = [x for x in (corrupt(proj[j], rnd) for j in good[:24]) if x]
            if bad:
                r2, _ = validate(work, b, bad, "corrupt", 300)
                ev["falsified"][mod] = f"{len(r2)} of {len(bad)} falsified traces rejected"
                if not r2:
                    raise ToolError(f"{mod}: no falsified trace was rejected")
                selftest_done = True
            if good and len(ev["samples"]) < 3:
                j = min(good, key=lambda x: abs(len(raw[x]["steps"]) - 8))
                ev["samples"].append(dict(module=mod, script=[st["op"] for st in raw[j]["steps"]],
                                          observed=[[f"{o.get('t')}@{o.get('k')}" for o in st["out"]] for st in raw[j]["steps"]]))
    ev["ops"][mod] = ops


def main(argv):
    import props
    t0 = time.time()
    if not argv:
        print("usage: check PROPERTY", file=sys.stderr)
        return 2
    if argv[0] == "--build":
        try:
            build()
        except ToolError as e:
            print(e)
            return 2
        return 0
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    p = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    ev = dict(states=0, transitions=0, traces=0, trace_states=0, model_runs=[], samples=[], falsified={}, ops={}, notes=[])
    viol = []
    budget = p.get("budget_" + tier, 420 if tier == "quick" else 3000)
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            jb = ex.submit(build)
            jm = [ex.submit(run_model, work, m, tier) for m in p.get("models", [])]
            jb.result()
            log(f"driver built ({time.time()-t0:.0f}s)")
            for j in jm:
                d = j.result()
                log(f"  model {d['name']}: {d['states']} states, {d['transitions']} transitions, {d['wall']}s")
                ev["model_runs"].append(d)
                ev["states"] += d["states"]
                ev["transitions"] += d["transitions"]
        for b in p.get("bound", []):
            check_bound(work, b, tier, seed, ev, viol, t0 + budget)
            for d in ev["model_runs"]:
                if d["name"] == b.get("name", b["mod"]) and not d.get("logged"):
                    d["logged"] = 1
                    log("   ", {k: v for k, v in d.items() if k != "logged"})
        for fn in p.get("extra", []):
            fn(work, tier, seed, ev, viol)
        known = []
        for kf in p.get("known", []):
            known.append(kf(work, ev))
    except ToolError as e:
        print("TOOL ERROR:", e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for d in ev["model_runs"]:
        d.pop("logged", None)
    cov = dict(states=ev["states"], transitions=ev["transitions"], traces_validated_against_impl=ev["traces"],
               trace_spec_states=ev["trace_states"], model_runs=ev["model_runs"], falsified_traces=ev["falsified"],
               ops_executed=ev["ops"], samples=ev["samples"] or [{"note": "no accepted trace to show"}], notes=ev["notes"])
    out = dict(property=pid, tier=tier, seed=seed, level=p.get("level", "model_checking"), coverage=cov,
               assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    for line in known:
        if line:
            print(line, flush=True)
    if viol:
        rd = os.path.join(VERIF, "out", pid)
        os.makedirs(rd, exist_ok=True)
        viol.sort(key=lambda v: (v.get("step", 9999), len(v["scenario"].get("ops", []))))
        for i, v in enumerate(viol[:5]):
            path = os.path.join(rd, f"violation-{i}.json")
            v["property"] = pid
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"--- {v['why']}")
            if v.get("step"):
                print("    input   :", json.dumps(v["trace"]["steps"][v["step"] - 1]["op"])[:600])
                st = v["trace"]["steps"][v["step"] - 1]
                print("    observed:", json.dumps([{k: o[k] for k in OUT_FIELDS if k in o} for o in st["out"]])[:1200],
                      "closed", json.dumps(st["closed"]))
                print("    allowed :", v["expected"][:1200])
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        print(f"{len(viol)} violating executions of {ev['traces']}")
        return 1
    log(f"{pid}: held on {ev['traces']} executions; {ev['states']} states, {ev['transitions']} transitions; "
        f"{time.time()-t0:.0f}s")
    return 0


def replay(path):
    import props
    with open(path) as f:
        v = json.load(f)
    build()
    b = next((b for b in props.PROPS[v["property"]]["bound"] if b.get("name", b["mod"]) == v["mod"]), None)
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        raw = run_driver([v["scenario"]], 120)
        if raw[0].get("died"):
            print(raw[0]["died"])
            print(f"VIOLATION property={v['property']} replay={path}")
            return 1
        rej, _ = validate(work, b, [project(raw[0], v["hdr"], b.get("fields", {}))], "replay", 300)
        for st in raw[0]["steps"]:
            print(json.dumps(st["op"]))
            for o in st["out"]:
                print("     ", json.dumps({k: w for k, w in o.items() if w not in (-1, "", [])}))
            if st["closed"]:
                print("      closed", st["closed"])
        if rej:
            print("rejected at step", rej[0][0], "allowed:", rej[0][1])
            print(f"VIOLATION property={v['property']} replay={path}")
            return 1
        print("accepted")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
