#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seconds N] [--seed N] [--replay FILE]

Seeded search over schedules and fault sequences of the simulated system, for one property.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Other: the check itself failed.
"""
import argparse, json, os, re, subprocess, sys, time, tempfile, shutil, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(os.environ.get("SIM_BUILD", VERIF + "/build"), "sim.bin")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

KNOWN = VERIF + "/known_findings.txt"


def known(pid):
    """lines 'finding: property=<id> sig=<regular expression> :: <what fails>'"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\w+) sig=(.*?) :: (.*)", l.strip())
            if m and m[1] == pid:
                out.append((re.compile(m[2]), m[3]))
    return out


def sig(r):
    return r["msg"].split(" | ")[0]


def one(scen, seed, extra=(), limit=120, full=False):
    a = [BIN, "one", scen, str(seed), "--limit", str(limit)] + (["--full"] if full else []) + list(extra)
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        return json.loads(p.stdout.strip().splitlines()[-1]), p.stderr
    except Exception:
        return {"verdict": 3, "msg": "no result: " + p.stderr[-300:], "prop": "", "hash": "", "seed": seed}, p.stderr


class Server:
    """a warmed-up process that re-runs one scenario with parts of its plan left out"""
    def __init__(self, scen, tmp):
        self.p = subprocess.Popen([BIN, "server", scen, "0"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.tmp = tmp
        self.n = 0
        self.runs = 0

    def run(self, seed, ops, faults, script):
        s = "-"
        if script is not None:
            self.n += 1
            s = f"{self.tmp}/script{self.n % 4}"
            with open(s, "w") as f:
                f.write("".join(f"{a} {b}\n" for a, b in script))
        self.p.stdin.write(f"{seed} {','.join(map(str, sorted(ops))) or '-'} {','.join(map(str, sorted(faults))) or '-'} {s}\n")
        self.p.stdin.flush()
        self.runs += 1
        l = self.p.stdout.readline()
        return json.loads(l) if l else {"verdict": 3, "msg": "server died", "prop": "", "hash": ""}

    def close(self):
        self.p.kill()
        self.p.wait()


def ddmin(items, test, deadline):
    """smallest sublist of items (order kept) for which test(sublist) still holds"""
    n = 2
    items = list(items)
    if items and test([]):
        return []
    while len(items) >= 2 and time.time() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        done = False
        for i in range(len(chunks)):
            if time.time() > deadline:
                return items
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(rest):
                items = rest
                n = max(n - 1, 2)
                done = True
                break
        if not done:
            if n >= len(items):
                break
            n = min(len(items), n * 2)
    return items


def minimise(pid, scen, r, tmp, seconds):
    seed, want = r["seed"], sig(r)
    dl = time.time() + seconds
    sv = Server(scen, tmp)
    same = lambda x: x["verdict"] == 2 and x.get("prop") == r["prop"] and sig(x) == want
    ops, faults, script = set(), set(), None
    base = sv.run(seed, ops, faults, None)
    if not same(base):
        sv.close()
        return dict(ops=[], faults=[], script=None, result=r, runs=sv.runs, note="not minimised")
    # faults, then operations, then preemptions
    nf = len(base.get("faults", []))
    keepf = ddmin(range(nf), lambda k: same(sv.run(seed, ops, set(range(nf)) - set(k), None)), dl)
    faults = set(range(nf)) - set(keepf)
    if not same(sv.run(seed, ops, faults, None)):
        faults = set()
    no = base.get("ops", 0)
    keep = ddmin(range(no), lambda k: same(sv.run(seed, set(range(no)) - set(k), faults, None)), dl)
    ops = set(range(no)) - set(keep)
    cur = sv.run(seed, ops, faults, None)
    if not same(cur):
        ops = set()
        cur = sv.run(seed, ops, faults, None)
    sw = [tuple(x) for x in cur.get("switches", [])]
    if same(sv.run(seed, ops, faults, sw)):
        sw = ddmin(sw, lambda k: same(sv.run(seed, ops, faults, k)), dl)
        fin = sv.run(seed, ops, faults, sw)
        if same(fin):
            script, cur = sw, fin
    runs = sv.runs
    sv.close()
    if not same(cur):
        ops, faults, script, cur = set(), set(), None, base
    return dict(ops=sorted(ops), faults=sorted(faults), script=script, result=cur, runs=runs)


def extra_args(d, tmp):
    a = []
    if d["skip_ops"]:
        a += ["--skip-ops", ",".join(map(str, d["skip_ops"]))]
    if d["skip_faults"]:
        a += ["--skip-faults", ",".join(map(str, d["skip_faults"]))]
    if d["preemptions"] is not None:
        p = f"{tmp}/script"
        with open(p, "w") as f:
            f.write("".join(f"{x} {y}\n" for x, y in d["preemptions"]))
        a += ["--script", p]
    return a


def trace_of(err, n):
    keep = [l for l in err.splitlines() if re.match(r"\s*\d+\s+\d|END", l)]
    full = [l for l in keep if not re.search(r"  (lock|unlock|misc|cond|stat|mark|thread|open|read|close|sync|write|create|send|recv|netmisc) [0-9a-f]+$", l)]
    return full[-n:]


def replay(path):
    d = json.load(open(path))
    with tempfile.TemporaryDirectory(dir="/dev/shm") as tmp:
        r, err = one(d["scenario"], d["seed"], extra_args(d, tmp))
    ok = r["verdict"] == 2 and r["msg"] == d["violation"] and r["hash"] == d["hash"]
    print(json.dumps({"reproduced": ok, "violation": r["msg"], "hash": r.get("hash"), "expected_hash": d["hash"]}))
    if ok:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true", help="do not stop at the first violation; list all signatures")
    ap.add_argument("--scenario")
    A = ap.parse_args()
    if A.replay:
        sys.exit(replay(A.replay))
    pid = A.prop
    P = PROPS[pid]
    t0 = time.time()
    if subprocess.run([sys.executable, VERIF + "/sim/build.py"]).returncode:
        print("the simulator does not build", file=sys.stderr)
        sys.exit(2)
    tbuild = time.time() - t0
    os.environ["SIM_TIER"] = A.tier
    total = A.seconds or (P.get("quick", 45) if A.tier == "quick" else P.get("thorough", 780))
    scens = P["scenarios"]
    if A.scenario:
        scens = {A.scenario: 1}
    wsum = sum(scens.values())
    finds = known(pid)
    tmp = tempfile.mkdtemp(prefix="sim.", dir="/dev/shm")
    agg = dict(runs=0, ok=0, errors=0, rejected=0, steps=0, sim_us=0, switches=0, nontrivial=0, procs=0)
    faults, ops, counters = {}, {}, {}
    sets = dict(states=set(), scheds=set(), traces=set())
    perscen, bad, known_seen, errs = {}, {}, {}, []
    tsearch = time.time()
    confirmed = []
    try:
        for scen, w in scens.items():
            secs = total * w / wsum
            ps = []
            for k in range(A.workers):
                s0 = A.seed * 1000003 + k
                out = f"{tmp}/{scen.replace(':', '_')}.{k}"
                p = subprocess.Popen([BIN, "run", scen, str(s0), str(A.workers), str(secs), "1000000000", out, str(k)],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
                ps.append((p, out))
            seen = {}
            stop = False
            while True:
                alive = any(p.poll() is None for p, _ in ps)
                for p, out in ps:
                    try:
                        lines = open(out).read().split("\n")[:-1]
                    except OSError:
                        continue
                    for l in lines[seen.get(out, 0):]:
                        r = json.loads(l)
                        if r.get("summary"):
                            continue
                        if r["verdict"] == 2:
                            r["prop"] = r["prop"] or pid
                            kf = [t for rx, t in finds if rx.search(sig(r))]
                            if kf:
                                known_seen.setdefault(kf[0], []).append((scen, r["seed"]))
                            else:
                                bad.setdefault((scen, sig(r)), []).append(r)
                                if not A.keep_going and len(bad) >= 1 and not stop:
                                    stop = time.time() + 3
                        else:
                            errs.append((scen, r))
                    seen[out] = len(lines)
                if not alive:
                    break
                if stop and time.time() > stop:
                    for p, _ in ps:
                        p.terminate()
                    time.sleep(0.2)
                    for p, _ in ps:
                        p.kill()
                    break
                time.sleep(0.2)
            for p, out in ps:
                p.wait()
                if not stop and p.returncode:
                    errs.append((scen, {"msg": f"worker exit {p.returncode}: " + (p.stderr.read() or "")[-200:]}))
                try:
                    for l in open(out):
                        if not l.endswith("\n"):
                            continue
                        r = json.loads(l)
                        if not r.get("summary"):
                            continue
                        for k in agg:
                            agg[k] += r[k] if k in r else 0
                        ps_ = perscen.setdefault(scen, 0)
                        perscen[scen] = ps_ + r["runs"]
                        for a, b in ((faults, "faults"), (ops, "ops"), (counters, "counters")):
                            for k, v in r[b].items():
                                a[k] = a.get(k, 0) + v
                        for k in sets:
                            sets[k].update((scen, x) for x in r[k])
                except OSError:
                    pass
            if bad and not A.keep_going:
                break
        wall_search = time.time() - tsearch
        if A.keep_going:
            for (scen, s), rs in sorted(bad.items(), key=lambda x: -len(x[1])):
                print(f"{len(rs):4d} {scen} seed {rs[0]['seed']}: {rs[0]['msg'][:400]}")
            for t, v in known_seen.items():
                print("known", len(v), t, v[:3])
            for scen, e in errs[:20]:
                print("error", scen, e.get("seed"), e["msg"][:300])
            print(json.dumps(agg), json.dumps(faults), json.dumps(counters), len(sets["scheds"]))
            sys.exit(0)
        # a hang in real time may be the machine: only a repeatable one counts
        for scen, e in errs[:3]:
            if "real-time limit" in e["msg"] and not bad:
                a, _ = one(scen, e["seed"], limit=40)
                if a["msg"] == "real-time limit":
                    e["prop"], e["verdict"] = pid, 2
                    e["msg"] = "hang: computes without end | seed %d" % e["seed"]
                    path = f"{VERIF}/replays/{pid}-hang-{e['seed']}.json"
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    json.dump(dict(property=pid, scenario=scen, seed=e["seed"], skip_ops=[], skip_faults=[], preemptions=None,
                                   violation="real-time limit", hash=""), open(path, "w"))
                    confirmed.append((e, path))
        # every violation is reproduced twice in fresh processes before it is believed, then minimised
        for (scen, s), rs in sorted(bad.items()):
            if len(confirmed) >= 3:
                break
            for r in rs[:3]:
                a, _ = one(scen, r["seed"])
                b, _ = one(scen, r["seed"])
                if not (a["verdict"] == 2 and a["hash"] == b["hash"] == r["hash"] and a["msg"] == b["msg"] == r["msg"]):
                    errs.append((scen, {"seed": r["seed"], "msg": "not reproducible: " + r["msg"][:200]}))
                    continue
                m = minimise(pid, scen, r, tmp, P.get("minimise", 60) if A.tier == "quick" else 240)
                d = dict(property=pid, scenario=scen, seed=r["seed"], skip_ops=m["ops"], skip_faults=m["faults"],
                         preemptions=m["script"], violation=m["result"]["msg"], hash=m["result"]["hash"])
                c, err = one(scen, r["seed"], extra_args(d, tmp) + ["--trace"])
                if not (c["verdict"] == 2 and c["hash"] == d["hash"] and c["msg"] == d["violation"]):
                    d.update(skip_ops=[], skip_faults=[], preemptions=None, violation=r["msg"], hash=r["hash"])
                    c, err = one(scen, r["seed"], ["--trace"])
                d["faults"] = [f for f in c.get("faults", []) if f["fired"]]
                d["original"] = dict(steps=r.get("steps"), nswitches=r.get("nswitches"), operations=r.get("ops"), message=r["msg"])
                d["minimisation_runs"] = m["runs"]
                d["trace"] = trace_of(err, 400)
                h = hashlib.sha1((scen + s).encode()).hexdigest()[:8]
                path = f"{VERIF}/replays/{pid}-{h}-{r['seed']}.json"
                os.makedirs(os.path.dirname(path), exist_ok=True)
                json.dump(d, open(path, "w"), indent=1)
                confirmed.append((r, path))
                break
        samples = []
        for scen in list(scens)[:2]:
            r, err = one(scen, A.seed * 1000003 + 3, ["--trace"])
            ls = [l.strip() for l in trace_of(err, 100000)
                  if re.search(r"  (archive|flush|retrieve|list|full list|inspect|FAULT|POWER|kill|process|wipe|purge|move|control|plan|store|reset)", l) or l.startswith("END")]
            samples.append({"scenario": scen, "seed": r.get("seed"), "steps": r.get("steps"), "faults": r.get("faults"), "verdict": r.get("verdict"), "events": ls[:40]})
        runs = max(agg["runs"], 1)
        ev = dict(
            property=pid, tier=A.tier, seed=A.seed, level=P["level"],
            coverage=dict(
                evaluations=agg["runs"], distinct_nontrivial=agg["nontrivial"],
                rule="one evaluation is one simulated world, decided by its seed: workload, schedule, delays and faults. It is non-trivial if it "
                     "injected at least one fault or was preempted more than three times against the default schedule, and distinct if its sequence of "
                     "task switches (hash of task, operation and successor at each switch) was not seen before by the same worker. " + P["rule"],
                samples=samples,
                runs_per_scenario=perscen, seeds_per_hour=int(agg["runs"] / max(wall_search, 1e-3) * 3600),
                simulated_seconds=agg["sim_us"] / 1e6, scheduling_points=agg["steps"], task_switches=agg["switches"], simulated_processes=agg["procs"],
                faults_injected=faults, operations_simulated=ops, workload_operations=counters,
                distinct_interleavings=len(sets["scheds"]), distinct_executions=len(sets["traces"]), abstract_states=len(sets["states"]),
                simulator_errors=len(errs), known_findings_met={k: len(v) for k, v in known_seen.items()},
                real_components=P.get("real", "libfdb5 (all of it, instrumented), eckit, metkit, libstdc++ as shipped"),
                stubs=P.get("stubs", "kernel file system (journal and page-cache model), clock, thread scheduler, randomness"),
            ),
            assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(confirmed), build_s=round(tbuild, 1))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
        for rx, t in finds:
            print(f"KNOWN-FINDING: property={pid} {t}")
        for r, path in confirmed:
            print(f"{pid}: {r['msg'][:300]} (seed {r['seed']})")
            print(f"VIOLATION property={pid} replay={path}")
        if confirmed:
            sys.exit(1)
        for scen, e in errs[:5]:
            print("simulator error:", scen, e.get("seed"), e["msg"][:300], file=sys.stderr)
        if agg["runs"] < 20 or len(errs) > max(3, agg["runs"] // 50):
            print("too few runs or too many simulator errors", agg["runs"], len(errs), file=sys.stderr)
            sys.exit(2)
        print(f"{pid}: held on {agg['runs']} simulated runs ({agg['nontrivial']} distinct non-trivial), {sum(faults.values())} faults, {wall_search:.0f} s")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(0)


if __name__ == "__main__":
    main()
