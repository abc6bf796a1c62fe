"""World "mix": many conversions in one simulated process - one after another, or with
their steps interleaved as the web service's event loop interleaves them - some
abandoned half-way, some hit by disk errors, under seeded garbage collection, clock
jumps and temporary names, each compared byte for byte with the same conversion done
alone in a pristine process. The driver repeats every run in an interpreter with
another hash seed and compares the outputs' digests."""
import copy
import gc
import hashlib
import json

from . import docgen
from .docgen import Gen
from .procsim import Process, run_cli
from .rng import derive, rng
from .seams import CTX, Clock
from .simloop import OWNER
from .vfs import HarnessError, SimCrash, VFS
from .world_cli import CODES, ERRS, STEMS, stem_of

PROPS = ["C12"]


def make_plan(seed, focus=None):
    r = rng(seed, "mix")
    docs = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        g = Gen(rng(seed, "doc", i), "tok%d" % i)
        d = g.doc(poison=r.choice([0, 0, 0, 1, 2]), nfigs=r.choice([1, 2, 3, 5, 8]))
        docs.append(d)
        if r.random() < 0.3:
            # the same figures in another revision of the document
            d2 = copy.deepcopy(d)
            d2["figs"] = [f for f in d2["figs"] if r.random() < 0.8] or d2["figs"]
            docs.append(d2)
        if rng(seed, "sib", i).random() < 0.4:
            # another document of the same name, size and structure
            docs.append(docgen.sibling(d, rng(seed, "sib2", i)))
    rr = rng(seed, "real")
    if rr.random() < 0.08:
        docs = docs[:2]
        for _ in range(rr.choice([1, 1, 2])):
            docs.insert(0, {"style": "html", "figs": [], "real": rr.choice([0, 0, 0, 1, 1, 2, 2, 3, 4]),
                            "rev": rr.choice([None, None, "9.9"])})
    plan = {"world": "mix", "seed": seed, "focus": focus, "docs": docs, "gc": r.choice([0, 0, 1, 5, 17]),
            "blk": r.choice([512, 8192]), "convs": [], "steps": []}
    mode = plan["mode"] = r.choice(["inter", "inter", "inter", "seq", "cli", "cli"])
    n = r.choice([2, 2, 3, 4, 6])
    stems = r.sample(STEMS, 3)
    for i in range(n):
        d = r.randrange(len(docs))
        c = {"id": i, "doc": d, "name": r.choice(stems) + "." + docs[d]["style"], "skip": r.random() < 0.8,
             "ignore": sorted(r.sample(CODES, 2)) if r.random() < 0.2 else [], "progress": r.random() < 0.7,
             "start": r.choice([0, 0, 0, r.randrange(30)]), "weight": r.choice([1, 1, 3, 10])}
        x = r.random()
        if mode != "cli":
            if x < 0.12:
                c["end"] = {"after": r.choice([0, 1, 2, 4, 9]), "how": r.choice(["close", "drop", "leave", "throw"])}
            elif x < 0.24:
                c["fault"] = {"op": r.choice(["open", "create", "read", "write", "close", "rename", "unlink"]),
                              "nth": r.choice([1, 1, 2, 3, 8]), "count": r.choice([1, 3]), "err": r.choice(ERRS),
                              "frac": r.choice([0.0, 0.5]), "after": r.random() < 0.3}
        plan["convs"].append(c)
    if mode == "cli":
        # one command line per run: distinct inputs, one set of options
        seen, cs = set(), []
        for c in plan["convs"]:
            if stem_of(c["name"]) not in seen:
                seen.add(stem_of(c["name"]))
                c["ignore"], c["skip"] = plan["convs"][0]["ignore"], True
                cs.append(c)
        plan["convs"] = cs
    plan["jump"] = r.choice([0.0, 0.0, 0.01, 86400.0])
    return plan


SUF = {"html": (".json",), "docx": (".json", ".html", ".css")}


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.viol = []
        self.stats = {"faults": {}, "steps": 0, "probes": {}, "sim_s": 0.0}
        self.trace = hashlib.sha256()

    def probe(self, n, k=1):
        p = self.stats["probes"]
        p[n] = p.get(n, 0) + k

    def count(self, n):
        d = self.stats["faults"]
        d[n] = d.get(n, 0) + 1

    def bad(self, msg):
        self.viol.append(["C12", msg])

    def disk(self):
        v = VFS(CTX.clock, lambda p: "x", "/work", self.plan["blk"])
        v.mkdirs("/work")
        v.mkdirs("/tmp")
        v.owner_of = lambda p: OWNER.get()
        v.owner_fn = OWNER.get
        self.rendered = self.rendered or [docgen.render(d) for d in self.plan["docs"]]
        return v

    def outs(self, v, d, c):
        st = stem_of(c["name"])
        return {s: v.get(d + "/" + st + s) for s in SUF[c["name"].rsplit(".", 1)[1]]}

    def lone(self, c):
        """outputs of the conversion alone in a pristine process; None if it fails"""
        k = (c["doc"], c["name"], c["skip"], tuple(c["ignore"]))
        if k not in self.refs:
            CTX.clock = Clock(1.6e9)
            CTX.rnd = rng("lone")
            v = self.disk()
            v.mkdirs("/ref/o")
            v.put("/ref/" + c["name"], self.rendered[c["doc"]])
            CTX.vfs = v
            try:
                argv = ["-o", "/ref/o"] + (["-s"] if c["skip"] else [])
                if c["ignore"]:
                    argv.append("--lint-ignore=" + ",".join(c["ignore"]))
                ex = run_cli(argv + ["--", "/ref/" + c["name"]])
            finally:
                CTX.vfs = None
            self.refs[k] = (self.outs(v, "/ref/o", c), ex.code)
        return self.refs[k]

    def compare(self, c, got, how):
        want, code = self.lone(c)
        if code != 0:
            self.bad("conversion %d succeeds %s but fails alone" % (c["id"], how))
            return
        for s in sorted(want):
            if got[s] != want[s]:
                a, b = got[s] or b"", want[s] or b""
                n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                self.bad("%s of %s differs %s: at byte %d %r instead of %r" % (
                    s, c["name"], how, n, a[max(0, n - 30):n + 30], b[max(0, n - 30):n + 30]))
                return
        self.probe("identical")

    def execute(self):
        plan = self.plan
        self.refs = {}
        self.rendered = None
        if plan["mode"] != "cli":
            self.interleave()
        else:
            self.cli()
        for k in sorted(self.refs):
            outs, code = self.refs[k]
            self.trace.update(repr((k, code)).encode())
            for s in sorted(outs):
                self.trace.update(outs[s] or b"-")

    def gc_hook(self, v):
        n = [0]
        every = self.plan["gc"]

        def tr(kind, path):
            n[0] += 1
            if every and n[0] % every == 0:
                gc.collect()
        v.trace = tr

    def cli(self):
        plan = self.plan
        CTX.clock = Clock(1.7e9 + derive(plan["seed"], "t0") % 10 ** 7)
        CTX.rnd = rng(plan["seed"], "rnd")
        v = self.disk()
        v.mkdirs("/work/o")
        for c in plan["convs"]:
            v.put("/work/in/" + c["name"], self.rendered[c["doc"]])
        self.gc_hook(v)
        CTX.vfs = v
        try:
            argv = ["-s", "-o", "o"]
            if plan["convs"] and plan["convs"][0]["ignore"]:
                argv.append("--lint-ignore=" + ",".join(plan["convs"][0]["ignore"]))
            ex = run_cli(argv + ["--"] + ["in/" + c["name"] for c in plan["convs"]])
        finally:
            CTX.vfs = None
        self.stats["steps"] += len(plan["convs"])
        self.stats["sim_s"] += CTX.clock.now
        codes = [self.lone(c)[1] for c in plan["convs"]]
        if ex.code != max([0] + codes) and not any(codes):
            self.bad("converting %r together fails (%s), alone each succeeds" % (
                [c["name"] for c in plan["convs"]], ex.exc or ex.code))
            return
        for n, c in enumerate(plan["convs"]):
            if any(codes[:n + 1]):
                break
            self.compare(c, self.outs(v, "/work/o", c), "after %d other conversions in the run" % n)

    def interleave(self):
        plan = self.plan
        CTX.clock = Clock(1.7e9 + derive(plan["seed"], "t0") % 10 ** 7)
        CTX.rnd = rng(plan["seed"], "rnd")
        v = self.disk()
        for c in plan["convs"]:
            v.mkdirs("/work/o%d" % c["id"])
            v.put("/work/i%d/%s" % (c["id"], c["name"]), self.rendered[c["doc"]])
            if "fault" in c:
                v.faults.append(dict(c["fault"], owner=c["id"]))
        self.gc_hook(v)
        CTX.vfs = v
        r = rng(plan["seed"], "sched")
        p = Process(["spex"])
        p.start()
        done = {}
        try:
            from importlib import import_module
            from pathlib import Path
            ps = import_module("spex.parse").parse_spec
            pa = import_module("spex.jsonspec.parserargs").ParserArgs
            Code = import_module("spex.jsonspec.lint").Code
            wait = sorted(plan["convs"], key=lambda c: (c["start"], c["id"]))
            live, left, tick, order = {}, [], 0, []
            while wait or live:
                tick += 1
                while wait and (wait[0]["start"] <= tick or not live) and (plan["mode"] != "seq" or not live):
                    c = wait.pop(0)
                    live[c["id"]] = [c, None, 0]
                i = r.choices(sorted(live), [live[k][0]["weight"] for k in sorted(live)])[0]
                c, gen, n = live[i]
                tok = OWNER.set(i)
                try:
                    CTX.clock.now += r.random() * plan["jump"]
                    order.append(i)
                    if gen is None:
                        gen = live[i][1] = ps(Path("/work/i%d/%s" % (i, c["name"])), pa(
                            output_dir=Path("/work/o%d" % i), skip_fig_on_error=c["skip"],
                            lint_codes_ignore=[Code[x] for x in c["ignore"]]), yield_progress=c["progress"])
                    end = c.get("end")
                    if end and n >= end["after"]:
                        self.count("abandon-" + end["how"])
                        del live[i]
                        if end["how"] == "close":
                            gen.close()
                        elif end["how"] == "throw":
                            try:
                                gen.throw(KeyboardInterrupt())
                            except KeyboardInterrupt:
                                pass
                        elif end["how"] == "leave":
                            left.append(gen)
                        gen = None
                        continue
                    live[i][2] += 1
                    self.stats["steps"] += 1
                    try:
                        next(gen)
                    except StopIteration:
                        done[i] = True
                        del live[i]
                        gen = None
                    except (SimCrash, HarnessError):
                        raise
                    except Exception as e:
                        done[i] = False
                        self.fail = repr(e)
                        e.__traceback__ = None
                        del live[i]
                        gen = None
                finally:
                    OWNER.reset(tok)
            self.trace.update(repr(order).encode())
            del left, live, gen
        finally:
            p.finish(True)
            CTX.vfs = None
        for f in v.fired:
            self.count("%s:%s" % (f[0], f[1]))
        hit = {f[3] for f in v.fired}
        self.stats["sim_s"] += CTX.clock.now
        how = "converted %s %d others" % ("interleaved with" if plan["mode"] == "inter" else "in sequence with",
                                          len(plan["convs"]) - 1)
        for c in plan["convs"]:
            i = c["id"]
            if i not in done or i in hit:
                continue
            want, code = self.lone(c)
            if not done[i]:
                if code == 0:
                    self.bad("%s fails when %s, alone it succeeds" % (c["name"], how))
                else:
                    self.probe("fails-alone-too")
                continue
            self.compare(c, self.outs(v, "/work/o%d" % i, c), "when " + how)
            self.probe("progress" if c["progress"] else "no-progress")
        if len(done) > 1:
            self.probe("interleaved")


def run(plan):
    plan = copy.deepcopy(plan)
    r = Run(plan)
    try:
        r.execute()
    finally:
        CTX.vfs = None
    shape = json.dumps([plan["mode"], [(c["doc"], c["skip"], c["progress"], c.get("end"), c.get("fault"))
                                       for c in plan["convs"]]])
    return {"viol": r.viol, "stats": r.stats, "trace": r.trace.hexdigest(), "resolved": None,
            "shape": hashlib.sha256(shape.encode()).hexdigest()[:16]}
