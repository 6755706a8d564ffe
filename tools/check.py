#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   search for violations of a property
   check.py --replay FILE            run a replay file again; exit 1 if it still fails

Exit 0: the property held in every simulated run. Exit 1: VIOLATION line and a replay file. Exit 2: no answer."""
import collections, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build  # noqa: E402

REPO = build.REPO
WORKERS = max(2, min(8, os.cpu_count() or 4))
SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"


def loads(b):
    return json.loads(b.decode("utf-8", "surrogateescape") if isinstance(b, bytes) else b, strict=False)


def dump(obj, path):
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        json.dump(obj, f, ensure_ascii=False, indent=1)


def sim(exe, *args, timeout=600):
    r = subprocess.run([exe] + [str(a) for a in args] + ["--repo", REPO, "--scratch", SCRATCH],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r


def run_plan(exe, path):
    r = sim(exe, "run", "--plan", path)
    if r.returncode not in (0, 1):
        raise RuntimeError("simulator: rc %d %s" % (r.returncode, r.stderr[-500:]))
    return loads(r.stdout)


def keys(res):
    return [v["key"] for v in (res.get("vs") or [])]


def findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"]]


def matches(f, prop, v):
    return f["property"] == prop and f["key"] == v["key"] and re.search(f["match"], v["msg"]) is not None


def props():
    return json.load(open(os.path.join(HERE, "tools", "props.json")))


def build_for(prop):
    return build.build(False, asan=bool(props().get(prop, {}).get("asan") or os.environ.get("SIM_ASAN")))


def replay(path):
    exe = build_for(loads(open(path, "rb").read()).get("prop"))
    res = run_plan(exe, path)
    j = loads(open(path, "rb").read())
    for v in res.get("vs") or []:
        print("%s: %s" % (v["key"], v["msg"]))
    if "hash" in j:
        print("trace hash %s, recorded %s: %s" % (res["hash"], j["hash"], "identical" if j["hash"] == res["hash"] else "different"))
    return 1 if res.get("vs") else 0


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe = build_for(prop)
    tBuild = time.time() - t0
    pm = props().get(prop, {})
    secs = float(os.environ.get("SIM_SECS", pm.get("quick_s", 75) if tier == "quick" else pm.get("thorough_s", 600)))
    count = pm.get("quick_n", 10 ** 9) if tier == "quick" else 10 ** 9

    evdir = os.environ.get("SIM_EVIDENCE", os.path.join(HERE, "evidence"))
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    bad = []   # (key, msg, plan file)
    known = []
    internal = []

    # 1. histories that once failed (repaired defects) and listed findings
    corpus = os.path.join(HERE, "corpus", prop)
    nCorpus = 0
    kf = [f for f in findings() if f["property"] == prop]
    for n in sorted(os.listdir(corpus)) if os.path.isdir(corpus) else []:
        res = run_plan(exe, os.path.join(corpus, n))
        nCorpus += 1
        for v in res.get("vs") or []:
            hit = [f for f in kf if matches(f, prop, v)]
            if hit:
                if hit[0]["id"] not in known:
                    known.append(hit[0]["id"])
            else:
                bad.append((v["key"], v["msg"], os.path.join(corpus, n), res["hash"]))

    # 2. seeded search
    procs = []
    ts = time.time()
    if not bad:
        for w in range(WORKERS):
            a = [exe, "search", "--prop", prop, "--seed", str(seed), "--from", str(w), "--step", str(WORKERS), "--count", str(count),
                 "--secs", str(secs), "--maxfail", "400" if kf else "4", "--repo", REPO, "--scratch", SCRATCH]
            if tier == "thorough":
                a += ["--thorough", "1"]
            procs.append(subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
    outs = []
    import threading
    th = []

    def reader(p):
        outs.append(p.stdout.read())

    for p in procs:
        t = threading.Thread(target=reader, args=(p,))
        t.start()
        th.append(t)
    for t in th:
        t.join()
    for p in procs:
        if p.wait() != 0:
            print("a search worker failed: rc %d" % p.returncode, file=sys.stderr)
            sys.exit(2)
    tSearch = time.time() - ts
    runs = []
    for o in outs:
        for line in o.split(b"\n"):
            if line.strip():
                runs.append(loads(line))
    runs.sort(key=lambda r: r["i"])
    faults, cov, probes, ends, profs = (collections.Counter() for _ in range(5))
    virt = switches = pre = stalls = spur = 0
    hashes, scheds, nontriv, samples = set(), set(), set(), []
    cand = {}
    lost = 0
    for r in runs:
        ends[r.get("end", "?")] += 1
        if r.get("end") == "lost":
            lost += 1
        profs[r.get("profile", "")] += 1
        for k, v in (r.get("faults") or {}).items():
            faults[k] += v
        for k, v in (r.get("cov") or {}).items():
            cov[k] += v
        pr = r.get("probes") or {}
        for k, v in pr.items():
            probes[k] += v
        virt += r.get("virtMs", 0)
        switches += r.get("switches", 0)
        pre += r.get("preempt", 0)
        stalls += r.get("stalls", 0)
        spur += r.get("spurious", 0)
        h = r.get("hash", "")
        hashes.add(h)
        scheds.add(r.get("sched", ""))
        if pr.get("judged", 0) > 0:
            if h not in nontriv and len(samples) < 3:
                samples.append({"seed": r["seed"], "profile": r.get("profile"), "virtual_ms": r.get("virtMs"), "judged": pr["judged"],
                                "requests_on_wires": (r.get("cov") or {}).get("requests"), "faults": r.get("faults") or {},
                                "context_switches": r.get("switches"), "trace_hash": h})
            nontriv.add(h)
        for v in r.get("vs") or []:
            hit = [f for f in kf if matches(f, prop, v)]
            if hit:
                if hit[0]["id"] not in known:
                    known.append(hit[0]["id"])
                continue
            cand.setdefault(v["key"], []).append((r["seed"], r["hash"], v["msg"]))
    # 3. every failure has to repeat exactly, in new processes, before it is reported
    for key, lst in list(cand.items())[:4]:
        done = False
        for sd, h, msg in lst[:3]:
            g = sim(exe, "gen", "--prop", prop, "--seed", sd, *(["--thorough", "1"] if tier == "thorough" else []))
            f = os.path.join(rpdir, "%s-%s-%d.json" % (prop, key, sd))
            open(f, "wb").write(g.stdout)
            r1, r2 = run_plan(exe, f), run_plan(exe, f)
            if key not in keys(r1) or key not in keys(r2) or r1["hash"] != r2["hash"]:
                internal.append("%s seed %d: not repeatable (%s %s %s)" % (key, sd, h, r1["hash"], r2["hash"]))
                continue
            mf = f[:-5] + "-min.json"
            left = 60 if tier == "quick" else 120
            try:
                sim(exe, "min", "--plan", f, "--key", key, "--secs", left, "--out", mf, timeout=left + 200)
                rm = run_plan(exe, mf)
                if key not in keys(rm):
                    raise RuntimeError("minimised plan does not fail")
            except Exception as e:  # the unminimised plan is still a replay file
                internal.append("minimisation: %s" % e)
                mf, rm = f, r1
            plan = loads(open(mf, "rb").read())
            m = [v["msg"] for v in rm["vs"] if v["key"] == key][0]
            dump({"property": prop, "key": key, "seed": sd, "hash": rm["hash"], "message": m,
                  "how": "python3 tools/check.py --replay " + os.path.relpath(f, HERE), "plan": plan}, f)
            if mf != f:
                os.unlink(mf)
            bad.append((key, m, f, rm["hash"]))
            done = True
            break
        if not done:
            print("not repeatable: %s" % key, file=sys.stderr)

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(runs) + nCorpus,
            "distinct_nontrivial": len(nontriv),
            "rule": "one evaluation = one simulated life of the whole service (start, traffic, faults, quiet end, SIGTERM) from a generated "
                    "plan; plan i of base seed s is drawn from hash(s,i) and decides configuration, device behaviour, client operations, "
                    "faults and every scheduling choice. Non-trivial: the oracle of this property judged at least one fact in the run "
                    "(counter 'judged'); distinct: different hash of the whole observable trace. " + pm.get("rule", ""),
            "samples": samples,
            "first_and_last_plan_number": [runs[0]["i"], runs[-1]["i"]] if runs else [],
            "corpus_replays": nCorpus,
            "runs_per_hour": round(len(runs) / max(tSearch, 0.01) * 3600),
            "seeds_per_hour": round(len(runs) / max(tSearch, 0.01) * 3600),
            "simulated_hours": round(virt / 3.6e6, 3),
            "faults_injected": dict(faults),
            "scheduling": {"context_switches": switches, "forced_preemptions": pre, "stalled_threads": stalls, "spurious_wakeups": spur},
            "distinct_traces": len(hashes), "distinct_schedules": len(scheds),
            "measure_of_distinct": "trace: hash over every frame, answer, memory change, publication, reply, log line and port event with its "
                                   "virtual time; schedule: hash over the sequence of (thread, reason) of all context switches",
            "ends": dict(ends), "profiles": dict(profs), "observed": dict(cov), "probes": dict(probes),
            "real_components": "all of /repo/src except devices/dlms_device.cpp (main, config parser, templates, poller, events reader, "
                               "port drivers, Modbus, RPC, firmware update, shutdown)",
            "stubs": "libwbmqtt1 (MQTT driver, RPC server, JSON/schema), Gurux DLMS, libcurl; the kernel's tty, sockets, clocks, threads and "
                     "mutexes are the simulator; files are real ones in a scratch directory behind the fault layer",
            "lost_runs": lost, "internal": internal, "build_s": round(tBuild, 1), "search_s": round(tSearch, 1),
            "known_findings_seen": known,
        },
        "assumptions": ["a Modbus device answers as specified unless a fault of the plan says otherwise",
                        "threads run one at a time and switch only at synchronisation, I/O, clock and function entry points (sequential "
                        "consistency; no data-race effects below function granularity)"] + pm.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(bad),
    }
    dump(ev, os.path.join(evdir, prop + ".json"))
    for k in known:
        f = [x for x in kf if x["id"] == k][0]
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for key, msg, path, h in bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (key, msg))
    print("%s %s: %d runs (%d distinct non-trivial), %.2f simulated hours, %.0f s" %
          (prop, tier, len(runs), len(nontriv), virt / 3.6e6, time.time() - t0))
    if bad:
        sys.exit(1)
    if internal and cand or lost > max(2, len(runs) // 100):
        print("no answer: %s lost %d" % (internal, lost), file=sys.stderr)
        sys.exit(2)
    if not runs or not nontriv:
        print("no answer: nothing was judged", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
