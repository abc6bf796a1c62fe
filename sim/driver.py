"""Parent side: a pool of worker processes, the seeded batch of one check, confirmation
and minimisation of violations, replay files and evidence."""
import argparse
import hashlib
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

from .rng import derive, rng

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORLD_OF = {}
for _i in range(1, 8):
    WORLD_OF["C%02d" % _i] = "web"
for _i in (8, 9, 10, 11, 13, 14, 15, 16):
    WORLD_OF["C%02d" % _i] = "cli"
WORLD_OF["C12"] = "mix"

# runs per tier, wall limit of the batch in seconds
BUDGET = {
    "web": {"quick": (700, 150), "thorough": (20000, 660)},
    "cli": {"quick": (1600, 120), "thorough": (60000, 660)},
    "mix": {"quick": (450, 120), "thorough": (15000, 660)},
}
LIMIT = 100         # wall seconds one run may take
STUBS = {
    "web": {"real": ["spexsrv (routes, event stream, publication, clean-up)", "spex (HTML and JSON conversion)",
                     "Quart, Werkzeug form parser, Jinja2, aiofiles", "asyncio tasks, queues, timeouts, async generators",
                     "lxml, zipfile, gcgen, loguru"],
            "stub": ["hypercorn and TCP (client connections speak ASGI to the application)",
                     "selector and executor threads (virtual-time event loop; executor jobs are atomic calls after seeded "
                     "delays)", "file system, clock, random numbers and temporary names (simulated)"]},
    "cli": {"real": ["spex.__main__ and everything below it", "lxml, zipfile, gcgen, loguru, argparse, jsonschema"],
            "stub": ["file system, clock, random numbers and temporary names (simulated)",
                     "process start and exit (modules loaded anew, exit hooks and finalizers run)"]},
    "mix": {"real": ["spex.parse and everything below it", "spex.__main__", "lxml, zipfile, gcgen, loguru"],
            "stub": ["file system, clock, random numbers and temporary names (simulated)",
                     "the scheduler that interleaves conversions (seeded)"]},
}
ASSUME = {
    "web": ["executor jobs are atomic in simulated time", "process kill, not power loss: completed writes survive",
            "requests reach the application as hypercorn would deliver them"],
    "cli": ["process kill, not power loss: completed writes survive", "console errors are not injected"],
    "mix": ["conversions of one process are interleaved at the points where parse_spec yields"],
}
RULE = {
    "web": "one run = seeded documents, uploads, views, junk requests, disconnects, stalls, disk errors, full disks, removed "
           "files, kills and restarts of one simulated service; non-trivial = at least one upload was announced or failed "
           "under an injected fault; distinct = different shape (operations with their troubles, ends of service runs)",
    "cli": "one run = seeded documents and options, an undisturbed reference run and 1-4 runs of the tool on one simulated disk "
           "with resolved faults; non-trivial = an injected fault fired or a figure failed; distinct = different inputs' kinds "
           "plus resolved fault list",
    "mix": "one run = 2-6 conversions in one process, interleaved, in sequence, or as one command line; non-trivial = at least "
           "one output compared with its lone conversion; distinct = different set of conversions with options and ends",
}


class Worker:
    def __init__(self, n, hashseed, results):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", TZ="UTC",
                   LC_ALL="C.UTF-8")
        for k in ("SPEX_CACHE", "PYTHONSTARTUP", "PYTHONPATH", "NO_COLOR", "LOGURU_AUTOINIT"):
            env.pop(k, None)
        self.n, self.hashseed = n, hashseed
        cmd = [PY, "-B", os.path.join(VERIF, "sim", "worker.py")]
        self.p = subprocess.Popen(aslr_off() + cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/")
        self.results = results
        self.dead = False
        self.busy = None
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            self.results.put((self, json.loads(line)))
        self.dead = True
        self.results.put((self, {"died": True}))

    def send(self, req):
        self.busy = req
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            pass

    def stop(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()


_aslr = None


def aslr_off():
    global _aslr
    if _aslr is None:
        try:
            ok = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            ok = False
        _aslr = ["setarch", "-R"] if ok else []
    return _aslr


class Pool:
    def __init__(self, hashseeds):
        self.results = queue.Queue()
        self.hashseeds = hashseeds
        self.workers = [Worker(n, h, self.results) for n, h in enumerate(hashseeds)]
        self.idle = []
        self.deaths = 0

    def start(self):
        want = set(self.workers)
        while want:
            w, r = self.results.get(timeout=300)
            if r.get("died"):
                raise RuntimeError("worker does not start")
            want.discard(w)
            self.idle.append(w)
        self.idle.sort(key=lambda w: w.n)

    def map(self, reqs, deadline=None, stop=None):
        """run requests (an iterator of dicts); yields (req, result). A request with key
        "on" runs on a worker of that hash seed index."""
        it = iter(reqs)
        held = []
        out = 0
        more = True
        while True:
            while more and self.idle and not (stop and stop()):
                if deadline and time.monotonic() > deadline:
                    more = False
                    break
                req = None
                for k, h in enumerate(held):
                    w = next((w for w in self.idle if "on" not in h or w.n == h["on"]), None)
                    if w is not None:
                        req = held.pop(k)
                        break
                if req is None:
                    if len(held) > 16:
                        break
                    try:
                        req = next(it)
                    except StopIteration:
                        if not held:
                            more = False
                        break
                    w = next((w for w in self.idle if "on" not in req or w.n == req["on"]), None)
                    if w is None:
                        held.append(req)
                        continue
                self.idle.remove(w)
                w.send(req)
                out += 1
            if out == 0:
                if held and more and not (stop and stop()):
                    continue
                return
            w, r = self.results.get()
            if "ready" in r:
                self.idle.append(w)
                continue
            req, w.busy = w.busy, None
            if r.get("died"):
                if req is None:
                    continue
                out -= 1
                self.deaths += 1
                w.stop()
                if self.deaths > 40:
                    raise RuntimeError("workers keep dying")
                nw = Worker(w.n, w.hashseed, self.results)
                self.workers[w.n] = nw
                yield req, {"error": "worker died"}
                continue
            out -= 1
            self.idle.append(w)
            yield req, r

    def one(self, req):
        for _, r in self.map([req]):
            return r

    def stop(self):
        for w in self.workers:
            w.stop()


# --------------------------------------------------------------------------
# minimisation


OPTIONAL = {"hostile", "disc", "stall", "stallb", "faults", "full", "reap", "kill", "pad", "fault", "end", "cause", "idle", "wall", "cache",
            "cond", "twin", "twins", "typos"}
ZERO = {"rdelay": 0.0, "bdelay": 0.0, "chunk": 0, "gc": 0, "jobs": "fast", "stale": False, "rev": None,
        "age": 0.0, "verbose": False,
        "ignore": [], "validate": False, "at": 0.0, "jump": 0.0, "frac": 0.0, "after": False, "rfrac": 0.0}


def candidates(plan):
    """smaller variants of a plan, most drastic first"""
    import copy
    out = []

    def visit(node, path):
        if isinstance(node, dict):
            for k in node:
                if k in ("epochs", "ops", "steps", "figs", "reap", "faults", "convs", "inputs") and isinstance(node[k], list):
                    n = len(node[k])
                    least = 1 if k in ("figs", "inputs", "epochs") else 0
                    if n > 3:
                        for a, b in ((0, n // 2), (n // 2, n)):
                            if n - (b - a) >= least:
                                out.append((b - a + 10, path + [k], ("cut", a, b)))
                    for i in range(n):
                        if n - 1 >= least:
                            out.append((1, path + [k], ("cut", i, i + 1)))
                if k == "end" and node[k] in ("busy", "kill") and "ops" in node:
                    out.append((2, path, ("set", "end", "graceful")))
                    continue
                if k in OPTIONAL and not (k == "kill" and node.get("end") == "kill") and not (k == "end" and "ops" in node):
                    out.append((2, path, ("del", k)))
                if k in ZERO and node[k] != ZERO[k]:
                    out.append((0, path, ("set", k, ZERO[k])))
                if k not in ("rows", "figs"):
                    visit(node[k], path + [k])
        elif isinstance(node, list):
            for i, x in enumerate(node):
                if isinstance(x, (dict, list)):
                    visit(x, path + [i])
    visit(plan, [])
    # figures of documents
    for key, docs in (("docs", plan.get("docs", [])), ("inputs", plan.get("inputs", []))):
        for i, d in enumerate(docs):
            d2 = d if key == "docs" else d.get("doc")
            if d2 and len(d2.get("figs", [])) > 1:
                for j in range(len(d2["figs"])):
                    out.append((3, [key, i] + ([] if key == "docs" else ["doc"]) + ["figs"], ("cut", j, j + 1)))
    out.sort(key=lambda t: -t[0])
    seen = set()
    for _, path, edit in out:
        key = json.dumps([path, edit])
        if key in seen:
            continue
        seen.add(key)
        p = copy.deepcopy(plan)
        node = p
        for x in path:
            node = node[x]
        if edit[0] == "cut":
            del node[edit[1]:edit[2]]
        elif edit[0] == "del":
            node.pop(edit[1], None)
        else:
            node[edit[1]] = edit[2]
        yield p


def has(res, prop):
    return any(v[0] == prop for v in res.get("viol", ()))


def with_resolved(plan, res):
    """fix abstract fault positions to what they resolved to"""
    import copy
    p = copy.deepcopy(plan)
    for st, z in zip(p.get("steps", []), res.get("resolved") or []):
        if z and isinstance(st, dict) and "kind" in st:
            st["resolved"] = z
    return p


def minimise(pool, world, plan, prop, on, budget):
    t_end = time.monotonic() + budget
    tried = 0
    while time.monotonic() < t_end:
        found = None
        cand = list(candidates(plan))
        reqs = ({"world": world, "plan": c, "k": k, "limit": LIMIT} for k, c in enumerate(cand))
        good = []
        for req, r in pool.map(reqs, deadline=t_end, stop=lambda: bool(good)):
            tried += 1
            if has(r, prop):
                good.append((req["k"], req["plan"]))
        if good:
            found = min(good)[1] if len(good) == 1 else sorted(good, key=lambda g: g[0])[0][1]
        if found is None:
            break
        plan = found
    return plan, tried


# --------------------------------------------------------------------------
# checks


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as fh:
            for line in fh:
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.rstrip("\n"))
                if m:
                    out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def hash_seeds(seed, n, world):
    return [derive(seed, "hashseed", i) % 4294967295 for i in range(n)]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--replay")
    ap.add_argument("-v", "--verbose", action="store_true")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a)
    return check(a)


def replay(a):
    with open(a.replay) as fh:
        rec = json.load(fh)
    world, prop = rec["world"], rec["property"]
    pool = Pool(rec["hashseeds"])
    try:
        pool.start()
        rs = [pool.one({"world": world, "plan": rec["plan"], "on": i, "limit": 300, "want_plan": True})
              for i in range(len(rec["hashseeds"]))]
        if rec.get("unstable") and not any(has(r, prop) for r in rs):
            rs = [often(pool, world, rec["plan"], prop, 0, 60) or rs[0]]
    finally:
        pool.stop()
    viol = [v for r in rs for v in r.get("viol", ())]
    if len(rs) > 1 and len({r.get("trace") for r in rs}) > 1:
        viol.append([prop, "outputs differ between interpreters with hash seeds %r" % (rec["hashseeds"],)])
    if any(r.get("timeout") for r in rs):
        viol.append([prop, "the run does not end"])
    for v in viol:
        print("%s: %s" % tuple(v))
    for r in rs:
        if r.get("error"):
            print(r["error"])
        print("trace", r.get("trace"), "recorded", rec.get("trace"))
    if any(v[0] == prop for v in viol):
        print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1
    return 0


def check(a):
    prop = a.property
    world = WORLD_OF[prop]
    runs, wall = BUDGET[world][a.tier]
    runs = a.runs or runs
    wall = a.wall or wall
    t0 = time.monotonic()
    hs = hash_seeds(a.seed, a.jobs, world)
    if world != "mix" :
        # replays of one run need one known hash seed; vary it between checks and workers
        pass
    print("check %s seed=%d tier=%s workers=%d" % (prop, a.seed, a.tier, a.jobs))
    pool = Pool(hs)
    try:
        pool.start()
        return batch(a, prop, world, runs, wall, t0, pool, hs)
    finally:
        pool.stop()


def agg(dst, src):
    for k, n in src.items():
        dst[k] = dst.get(k, 0) + n


def batch(a, prop, world, runs, wall, t0, pool, hs):
    base = derive(a.seed, "batch", prop) % 10 ** 9 * 10 ** 6
    faults, probes, shapes, traces = {}, {}, set(), set()
    tot = {"runs": 0, "steps": 0, "sim_s": 0.0, "nontrivial": 0, "repeats": 0}
    samples, viols, errors, timeouts, others = [], [], [], [], {}
    unrep = []
    known = known_findings()
    known_hit = {}
    others_seen = []
    first = {}
    J = len(hs)

    def reqs():
        for n in range(runs):
            q = {"n": n, "world": world, "seed": base + n, "focus": prop, "limit": LIMIT, "want_plan": n < 2}
            if world == "mix":
                # every run twice, in interpreters with different hash seeds
                yield dict(q, on=n % J, twin=0)
                yield dict(q, on=(n * 3 + 1 + n // J) % J if (n * 3 + 1 + n // J) % J != n % J else (n + 1) % J, twin=1)
            else:
                yield dict(q, on=n % J)
                if n % 40 == 7:
                    # determinism: the same run again in the same interpreter state
                    yield dict(q, on=n % J, twin=1)

    deadline = t0 + wall
    stop = []
    for req, r in pool.map(reqs(), deadline=deadline, stop=lambda: bool(stop)):
        if r.get("timeout"):
            timeouts.append(req)
            continue
        if r.get("error"):
            errors.append((req, r["error"]))
            if len(errors) > 60:
                stop.append(1)
            continue
        if "twin" in req:
            k = req["n"]
            o = first.setdefault(k, (req, r["trace"]))
            if o[0] is not req and o[1] != r["trace"]:
                if world == "mix":
                    viols.append((req, dict(r, viol=[[prop, "outputs differ between interpreters with different hash seeds"]],
                                            pair=[hs[o[0]["on"]], hs[req["on"]]])))
                    stop.append(1)
                else:
                    unrep.append(req["seed"])
            if req.get("twin") == 1:
                tot["repeats"] += 1
        elif world != "mix" and req["n"] % 40 == 7:
            first.setdefault(req["n"], (req, r["trace"]))
        tot["runs"] += 1
        s = r["stats"]
        tot["steps"] += s["steps"]
        tot["sim_s"] += s["sim_s"]
        agg(faults, s["faults"])
        agg(probes, s["probes"])
        traces.add(r["trace"])
        if nontrivial(world, s):
            shapes.add(r["shape"])
        if r.get("plan") and len(samples) < 2:
            samples.append(sample(r, req))
        mine = []
        for v in r["viol"]:
            kf = next((k for k in known if k[0] == v[0] and k[1].search(v[1])), None)
            if kf is not None:
                known_hit[(kf[0], kf[2])] = 1
            elif v[0] == prop:
                mine.append(v)
            else:
                others[v[0]] = others.get(v[0], 0) + 1
                if len(others_seen) < 5:
                    others_seen.append("seed %d: %s: %s" % (req["seed"], v[0], v[1]))
        if mine:
            r["viol"] = mine
            viols.append((req, r))
            stop.append(1)
    # runs that did not end: confirm alone, with more time
    for req in timeouts[:2]:
        if viols:
            break
        r = pool.one(dict(req, limit=200))
        if r.get("timeout"):
            plan = pool.one(dict(req, plan_only=True))["plan"]
            viols.append((req, {"viol": [[prop, "the run does not end: the program under test makes no progress"]],
                                "plan": plan, "hang": True}))
        elif r.get("error"):
            errors.append((req, r["error"]))
    for (p, what) in sorted(known_hit):
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, what))
    rc = 0
    nviol = 0
    path = None
    for req, r in viols[:3]:
        path = report(a, pool, world, prop, req, r, hs)
        if path:
            nviol = 1
            rc = 1
            break
        errors.append((req, "violation %r was not reproduced by its replay" % (r["viol"][:1],)))
    wall_s = time.monotonic() - t0
    tot["unrepeatable"] = len(unrep)
    write_evidence(a, prop, world, tot, faults, probes, shapes, traces, samples, wall_s, nviol, others, hs, errors, base)
    if unrep:
        print("note: %d of %d repeated runs differed (first: seed %d)" % (len(unrep), tot["repeats"], unrep[0]))
        if len(unrep) > max(2, tot["repeats"] // 8):
            errors.append(({"seed": unrep[0]}, "run %d is not repeatable" % unrep[0]))
            rc = rc or 2
    print("%d runs, %d steps, %.0f s simulated, %d distinct, %d repeats, %.1f s" % (
        tot["runs"], tot["steps"], tot["sim_s"], len(shapes), tot["repeats"], wall_s))
    if others:
        print("(violations of other properties met on the way, reported by their own checks: %s)" % others)
        if a.verbose:
            print("\n".join(others_seen))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("harness errors: %d, first (seed %s):\n%s" % (len(errors), errors[0][0].get("seed"), errors[0][1]))
        # runs without a verdict are not counted; a handful among many runs does not void the others
        if rc or len(errors) > tot["runs"] // 100:
            return 2
    if tot["runs"] < 20:
        print("too few runs")
        return 2
    return 0


def nontrivial(world, s):
    p, f = s["probes"], s["faults"]
    if world == "web":
        return bool(p.get("announced") or f)
    if world == "mix":
        return bool(p.get("identical"))
    return bool(f or any(k.startswith(("fig-failed", "failed", "skipped")) for k in p) or p)


def sample(r, req):
    p = dict(r["plan"])
    p["docs"] = ["(%d figures, %s)" % (len(d["figs"]), d["style"]) for d in p.get("docs", [])]
    if "inputs" in p:
        p["inputs"] = [{k: v for k, v in i.items() if k != "doc"} for i in p["inputs"]]
    return {"seed": req["seed"], "plan": p, "probes": r["stats"]["probes"], "faults": r["stats"]["faults"],
            "trace": r["trace"]}


def report(a, pool, world, prop, req, r, hs):
    """confirm, minimise, write the replay file; None if it cannot be reproduced"""
    plan = r.get("plan") or pool.one(dict(req, plan_only=True))["plan"]
    msg = next(v[1] for v in r["viol"] if v[0] == prop)
    print("violation of %s in run seed=%d: %s" % (prop, req["seed"], msg))
    seeds = r.get("pair") or [hs[req["on"]]]
    rec = {"property": prop, "world": world, "seed": req["seed"], "hashseeds": seeds, "violation": msg}
    if r.get("pair"):
        rec["plan"] = plan
    elif r.get("hang"):
        rec["plan"] = plan
    else:
        ok = False
        for cand in (with_resolved(plan, r), plan):
            r2 = pool.one({"world": world, "plan": cand, "on": req["on"], "limit": LIMIT})
            if has(r2, prop):
                plan, ok = cand, True
                break
        if not ok and not often(pool, world, plan, prop, req["on"]):
            return None
        if not a.no_minimise:
            small, tried = minimise(pool, world, plan, prop, req["on"], 45 if a.tier == "quick" else 150)
            print("minimised with %d further runs" % tried)
        else:
            small = plan
        # a fresh process, twice
        fp = Pool(seeds)
        try:
            fp.start()
            got = None
            for cand in (small, plan):
                x = [fp.one({"world": world, "plan": cand, "limit": LIMIT}) for _ in range(2)]
                if all(has(y, prop) for y in x) and x[0]["trace"] == x[1]["trace"]:
                    got = cand, x[0]
                    break
            if got is None:
                # the change made the program depend on something outside the seams (an
                # object's address, say): the violation is real but comes and goes
                x = often(fp, world, plan, prop, 0)
                if x:
                    got = plan, x
                    rec["unstable"] = True
        finally:
            fp.stop()
        if got is None:
            return None
        rec["plan"], rr = got
        rec["violation"] = next(v[1] for v in rr["viol"] if v[0] == prop)
        rec["trace"] = rr["trace"]
        print("minimised: %s" % rec["violation"])
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(VERIF, "replays", name)
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
    return path


def often(pool, world, plan, prop, on, tries=24):
    """a repetition of the run which violates `prop`, if there is any in `tries`"""
    hits = []
    reqs = ({"world": world, "plan": plan, "on": on, "limit": LIMIT, "rep": k} for k in range(tries))
    for _, r in pool.map(reqs, stop=lambda: bool(hits)):
        if has(r, prop):
            hits.append(r)
    return hits[0] if hits else None


def write_evidence(a, prop, world, tot, faults, probes, shapes, traces, samples, wall, nviol, others, hs, errors, base):
    h = max(wall, 1e-6) / 3600
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": nviol, "assumptions": ASSUME[world],
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(shapes), "rule": RULE[world], "samples": samples,
            "runs_per_hour": round(tot["runs"] / h), "seeds_per_hour": round((tot["runs"] - tot["repeats"]) / h),
            "first_seed": base, "operations": tot["steps"], "simulated_seconds": round(tot["sim_s"], 1),
            "simulated_seconds_per_wall_second": round(tot["sim_s"] / max(wall, 1e-6), 1),
            "fault_kinds_fired": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
            "distinct_traces": len(traces),
            "distinct_traces_measure": "SHA-256 over every disk operation in order and the final disk contents",
            "runs_repeated_for_determinism": tot["repeats"], "repeats_that_differed": tot["unrepeatable"], "hash_seeds": hs,
            "components": STUBS[world], "violations_of_other_properties_met": others, "harness_errors": len(errors),
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
