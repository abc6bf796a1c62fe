"""World "cli": the command line tool as a sequence of simulated processes over one
simulated disk, with I/O faults, full disks, short and torn writes, kills,
interrupts and failing allocations at seeded points, against
  * the undisturbed run of the same command in a clean directory, and
  * the reference model of the generated documents (docgen.Model).
"""
import copy
import json
import os

from . import docgen
from .docgen import Gen, Model, diff_json, lint_key
from .procsim import SRC, LineFault, run_cli
from .rng import derive, rng
from .seams import CTX, Clock, TempNames
from .vfs import VFS

ERRS = ["EIO", "ENOSPC", "EDQUOT", "EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS"]
CODES = ["T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1002", "L1003", "L1004",
         "L1007", "V1002", "R1001", "R1002"]
STEMS = ["a", "spec", "NVM Spec 1.0c", "x.y", "\u00fcber\u00df", "b-2", "Zoned 1.1c 2022.10.03 Ratified", "o'clock",
         "a.json", "tmp", "spec.tmp", "..x", "R&D <1>"]
PROPS = ["C08", "C09", "C10", "C11", "C13", "C14", "C15", "C16"]


# --------------------------------------------------------------------------
# plans

MIX = {
    # weights of step kinds per checked property
    "C08": {"io": 5, "full": 2, "short": 1, "none": 2, "mem": 0, "kill": 0, "intr": 1, "log": 1, "con": 1},
    "C09": {"io": 2, "full": 1, "short": 0, "none": 0, "mem": 1, "kill": 5, "intr": 3, "log": 0},
    "C10": {"none": 3, "mem": 6},
    "C11": {"none": 4, "mem": 5, "io": 1},
    "C13": {"io": 4, "full": 1, "none": 4, "mem": 1, "kill": 1, "intr": 1, "log": 1},
    "C14": {"none": 3, "log": 4, "io": 3, "mem": 4, "intr": 1, "con": 3},
    "C15": {"io": 3, "full": 1, "kill": 4, "intr": 2, "mem": 1, "log": 1, "none": 1},
    "C16": {"none": 5, "mem": 5},
    None: {"io": 3, "full": 1, "short": 1, "none": 3, "mem": 3, "kill": 2, "intr": 1, "log": 1, "con": 1},
}


def make_plan(seed, focus=None):
    r = rng(seed, "cli")
    nin = r.choice([1, 1, 1, 2, 2, 3])
    stems = r.sample(STEMS, nin)
    poisoned = {"C10": 0.75, "C11": 0.75, "C16": 0.5, "C14": 0.6}.get(focus, 0.3)
    inputs = []
    sub = r.choice(["", "in/", "in/", "/data/specs/"])
    for i, st in enumerate(stems):
        x = r.random()
        if x < (0.12 if nin > 1 else 0.05):
            kind = r.choice(["baddocx", "badhtml", "json", "txt", "nometa"])
            ext = {"baddocx": "docx", "badhtml": "html", "json": "json", "txt": "txt", "nometa": "html"}[kind]
            inputs.append({"name": sub + st + "." + ext, "kind": kind})
            continue
        g = Gen(rng(seed, "doc", i), "tok%d" % i)
        pz = rng(seed, "poison", i).choice([1, 1, 2]) if r.random() < poisoned else 0
        doc = g.doc(poison=pz, nfigs=r.choice([1, 2, 3, 4, 6]))
        if r.random() < 0.1:
            doc["pad"] = r.choice([3000, 20000, 70000])
        inputs.append({"name": sub + st + "." + doc["style"], "kind": "doc", "doc": doc})
    plan = {
        "world": "cli", "seed": seed, "focus": focus, "inputs": inputs,
        "out": r.choice([None, "out", "out", "new/deep/out", "/abs out", "in"]),
        "skip": (r.random() < 0.65) if focus not in ("C10", "C11", "C16") else {"C10": True, "C11": False}.get(
            focus, r.random() < 0.85),
        "validate": r.random() < 0.08, "verbose": r.random() < 0.2,
        "ignore": sorted(r.sample(CODES, r.randint(1, 3))) if r.random() < 0.15 else [],
        "blk": r.choice([64, 512, 4096, 8192, 8192]),
        "stale": r.random() < 0.6, "gc": r.choice([0, 0, 3, 7, 20]),
        "age": r.choice([0.0, 0.5, 3600.0, 1e7, -3600.0]), "steps": [],
    }
    rd = rng(seed, "links")
    if rd.random() < (0.2 if focus == "C13" else 0.06):
        plan["links"] = [i for i in range(nin) if rd.random() < 0.7]
    rd = rng(seed, "debug")
    if rd.random() < (0.15 if focus == "C14" else 0.04):
        plan["debug"] = rd.choice(["1", "true", "YES", "0", "no"])
    rd = rng(seed, "big")
    if rd.random() < (0.04 if focus == "C14" else 0.01):
        # a large document, with plenty of figures that fail
        docs = [i for i in inputs if i["kind"] == "doc"]
        if docs:
            n = rd.choice([40, 90, 130])
            style = docs[0]["doc"]["style"]
            docs[0]["doc"] = Gen(rng(seed, "bigdoc"), "tokbig").doc(
                nfigs=n, poison=int(n * rd.choice([0.1, 0.9, 0.9])), style=style)
    rr = rng(seed, "rev")
    if rr.random() < (0.5 if focus in ("C15", "C08") else 0.2):
        # the directory's history: the tool already ran there, over an earlier revision
        plan["rev"] = {"kind": rr.choice(["sibling", "sibling", "same", "other"]), "skip": rr.random() < 0.7,
                       "ignore": ["T1000", "T1004"] if rr.random() < 0.15 else plan["ignore"],
                       "kill": [rr.random(), rr.random(), rr.random()] if rr.random() < 0.25 else None}
    if rr.random() < (0.15 if focus in ("C13", "C14") else 0.04):
        # somebody mistypes the command
        plan["typos"] = [rr.choice(sorted(TYPOS)) for _ in range(rr.choice([1, 1, 2]))]
    if rr.random() < (0.25 if focus == "C13" else 0.04):
        # one of the inputs is what another one would be converted to
        plan["collide"] = [[rr.choice([".html", ".css", ".json", "twin", "twin"]), rr.random() < 0.5, rr.random() < 0.3]
                           for _ in range(rr.choice([1, 1, 2]))]
    mix = MIX.get(focus, MIX[None])
    kinds = [k for k, w in sorted(mix.items()) for _ in range(w)]
    n = r.choice([1, 1, 2, 2, 3]) if focus == "C15" else r.choice([1, 1, 2])
    for i in range(n):
        plan["steps"].append(make_step(r, r.choice(kinds)))
    if focus == "C15" or r.random() < 0.4:
        plan["steps"].append({"kind": "none"})
    return plan


TYPOS = {
    "missing-input": ["nosuch.html"], "no-input": [], "no-such-option": ["--frobnicate"], "directory": ["/work"],
    "bad-code": ["--lint-ignore=T9999", "INPUT"], "output-is-file": ["-o", "INPUT", "INPUT"], "help": ["--help"],
    "one-missing": ["INPUT", "nosuch.docx"], "empty-name": ["", "INPUT"], "empty-code": ["--lint-ignore=", "INPUT"],
}


def make_step(r, kind):
    st = {"kind": kind}
    if kind in ("io", "log", "short", "kill", "intr"):
        st["pick"] = [r.random(), r.random(), r.random()]
        st["frac"] = r.choice([0.0, 0.0, 0.3, 0.7, 0.99])
        st["after"] = r.random() < 0.3
        if kind == "io" or kind == "log":
            st["err"] = r.choice(ERRS)
            st["count"] = r.choice([1, 1, 1, 2, 10 ** 6])
        elif kind == "short":
            st["err"], st["count"] = "SHORT", r.choice([1, 3, 10 ** 6])
            st["frac"] = r.choice([0.01, 0.3, 0.5, 0.9])
        else:
            st["err"], st["count"] = ("KILL" if kind == "kill" else "INTR"), 1
        if kind == "intr" and r.random() < 0.5:
            st["kind"] = "lineintr"
    elif kind == "con":
        n = r.choice([1, 1, 2, 3, 5, 9, 30])
        st["con"] = [{"which": w, "nth": n, "count": r.choice([1, 10 ** 6, 10 ** 6]),
                      "err": r.choice(["EPIPE", "EIO", "ENOSPC", "EBADF"])}
                     for w in r.choice([["err"], ["err"], ["out"], ["out", "err"]])]
    elif kind == "full":
        st["pick"] = [r.random()]
    elif kind == "mem":
        st["pick"] = [r.random(), r.random(), r.random()]
        st["cause"] = r.choice([0, 0, 0, 1, 2, 4])
        if r.random() < 0.12:
            st["con"] = [{"which": w, "nth": r.choice([1, 2, 5]), "count": 10 ** 6, "err": "EPIPE"}
                         for w in r.choice([["err"], ["out"], ["out", "err"]])]
    return st


# --------------------------------------------------------------------------
# set-up of one disk


OLD_HTML = ("<!DOCTYPE html>\n<html lang=\"en\"><head><meta charset=\"utf-8\"><meta data-spec=\"old\" "
            "data-revision=\"0\"></head><body>%s</body></html>\n" % ("<p>old</p>" * 30)).encode()


def stem_of(name):
    b = name.rsplit("/", 1)[-1]
    return b[: b.rindex(".")]


class Case:
    """a plan with its inputs rendered"""

    def __init__(self, plan):
        self.plan = plan
        self.cwd = "/work"
        self.data = {}
        self.models = {}
        for i, inp in enumerate(plan["inputs"]):
            k = inp["kind"]
            if k == "doc":
                b = docgen.render(inp["doc"])
            elif k == "baddocx":
                b = b"PK\x03\x04 this is no zip archive" + bytes(range(200))
            elif k == "badhtml":
                b = b"<!DOCTYPE html>\n<html><head><meta data-spec='x'\n<body><table>"
            elif k == "nometa":
                b = b"<!DOCTYPE html>\n<html lang=\"en\"><head><title>x</title></head><body></body></html>"
            else:
                b = b"{}"
            self.data[i] = b
        out = plan["out"]
        self.out = self.cwd if out is None else out if out.startswith("/") else self.cwd + "/" + out
        self.paths = [inp["name"] if inp["name"].startswith("/") else self.cwd + "/" + inp["name"]
                      for inp in plan["inputs"]]
        # where the inputs' contents are: some are given by a link of another name
        self.real = ["/linked to/%d.%s-%s" % (i, self.stemlike(p), p.rsplit("/", 1)[1]) if i in plan.get("links", ()) else p
                     for i, p in enumerate(self.paths)]
        self.outputs = []     # per input: {suffix: path}
        for inp in plan["inputs"]:
            st = stem_of(inp["name"])
            suf = [".json"]
            if inp["name"].endswith(".docx"):
                suf += [".html", ".css"]
            self.outputs.append({s: self.out + "/" + st + s for s in suf})
        self.allowed = {p for o in self.outputs for p in o.values()} - set(self.paths)
        self.argv = []
        if plan["skip"]:
            self.argv.append("-s")
        if plan["validate"]:
            self.argv.append("--validate-json")
        if plan["verbose"]:
            self.argv.append("-v")
        if plan["ignore"]:
            self.argv.append("--lint-ignore=" + ",".join(plan["ignore"]))
        if out is not None:
            self.argv += ["-o", out]
        self.argv += ["--"] + [inp["name"] for inp in plan["inputs"]]

    @staticmethod
    def stemlike(p):
        return stem_of(p)[::-1].replace(".", "") or "x"

    def classify(self, p):
        if p == self.cwd + "/spex.log":
            return "log"
        if p in self.outset:
            return self.outset[p]
        if p in self.inset:
            return "in"
        b = p.rsplit("/", 1)[-1]
        if b.startswith("tmp") and b[3:] in TempNames.issued:
            return "tmp"
        if p.startswith("/tmp/"):
            return "tmp"
        return "dir" if p == self.out or self.out.startswith(p + "/") else "other"

    def disk(self, clock, stale):
        self.outset = {p: s[1:] for o in self.outputs for s, p in o.items()}
        self.inset = set(self.paths) | set(self.real)
        v = VFS(clock, self.classify, self.cwd, self.plan["blk"])
        v.mkdirs(self.cwd)
        v.mkdirs("/tmp")
        for i, p in enumerate(self.real):
            v.put(p, self.data[i]).mtime -= self.plan.get("age", 0.0)
            if p != self.paths[i]:
                v.mkdirs(self.paths[i].rsplit("/", 1)[0])
                v.put_link(self.paths[i], p)
        if not stale:
            return v
        # what earlier runs and other programs left: older outputs, a log, bystanders
        r = rng(self.plan["seed"], "stale")
        old_json = json.dumps({"meta": {"specification": "old", "lint": []}, "entities": [{"old": 1}]}).encode()
        for o in self.outputs:
            for s, p in sorted(o.items()):
                if p in self.inset:
                    continue
                x = r.random()
                if x < 0.5:
                    n = v.put(p, {".json": old_json, ".html": OLD_HTML, ".css": b"/* old */"}[s])
                elif x < 0.6:
                    n = v.put(p, b"")
                elif x < 0.7:
                    n = v.put(p, b"x" * 100000)
                else:
                    continue
                n.mtime += r.choice([-1e6, -0.25, 0.0, 0.25, 1e6])
        v.put(self.cwd + "/spex.log", b'{"level": "STALE"}\nSTALE NOT JSON\n')
        dirs = {self.out, self.cwd, "/tmp", self.paths[0].rsplit("/", 1)[0], self.real[0].rsplit("/", 1)[0]}
        for d in sorted(dirs):
            for i, inp in enumerate(self.plan["inputs"]):
                st = stem_of(inp["name"])
                for suf in (".json.bak", ".json.tmp", ".tmp", ".json~", ".html.tmp", ".log", "", ".css", ".html",
                            ".part", "_old.json", ".lock", ".docx.bak", ".JSON", ".json.part", ".bak", ".orig"):
                    p = d + "/" + st + suf
                    if p not in self.allowed and v.find(p) is None and r.random() < 0.7:
                        v.put(p, ("bystander " + p).encode())
            for n in ("other.json", "other.html", "other.css", "tmpabcd1234", "spex.log.1", "notes.txt", ".hidden",
                      "spex.log.bak", "model.json", "output.json", "scratch.d/keep.txt", "cache.d/keep.txt"):
                if r.random() < 0.7 and d + "/" + n not in self.allowed:
                    v.put(d + "/" + n, ("bystander " + n).encode())
        return v


# --------------------------------------------------------------------------
# running


def resolve(step, prof, lineprof, growth):
    """abstract step -> (vfs faults, line fault, capacity growth)"""
    k = step["kind"]
    if step.get("resolved"):
        z = step["resolved"]
        return [dict(f) for f in z.get("faults", [])], z.get("line"), z.get("cap")
    if k in ("none", "con"):
        return [], None, None
    if k == "full":
        return [], None, int(growth * step["pick"][0])
    if k in ("mem", "lineintr"):
        if not lineprof:
            return [], None, None
        keys = sorted(lineprof)
        if k == "lineintr":
            inner = [x for x in keys if x[0].startswith("spex/jsonspec/")]
            keys = inner if (step["pick"][2] < 0.5 and inner) else keys
        if k == "mem":
            # most injections go where figures are extracted, the rest anywhere
            inner = [x for x in keys if x[0].startswith("spex/jsonspec/")]
            ext = [x for x in inner if "/extractors/" in x[0]]
            u = step["pick"][2]
            keys = ext if (u < 0.6 and ext) else inner if (u < 0.9 and inner) else keys
        site = keys[int(step["pick"][0] * len(keys))]
        occ = 1 + int(step["pick"][1] * lineprof[site])
        return [], {"site": list(site), "occ": occ, "exc": "MEM" if k == "mem" else "INTR",
                    "cause": int(step.get("cause") or 0)}, None
    groups = {}
    for kind, path, cls, owner in prof:
        if k == "short" and kind not in ("read", "write"):
            continue
        if k == "log" and not (cls == "log" and kind in ("write", "close", "fsync")):
            continue
        if k == "io" and cls == "log" and step["pick"][0] < 0.9:
            continue
        if kind in ("stat", "list") and k in ("io",):
            continue
        groups[(kind, cls)] = groups.get((kind, cls), 0) + 1
    if not groups:
        return [], None, None
    keys = sorted(groups)
    if len(step["pick"]) > 2 and step["pick"][2] < 0.5:
        # half of the faults strike where outputs come into being
        keys = [g for g in keys if g[1] in ("json", "html", "css", "tmp") and g[0] not in (
            "read", "open", "stat", "list")] or keys
    g = keys[int(step["pick"][0] * len(keys)) % len(keys)]
    nth = 1 + int(step["pick"][1] * groups[g])
    return [{"op": g[0], "cls": g[1], "nth": nth, "count": step["count"], "err": step["err"],
             "frac": step["frac"], "after": step["after"]}], None, None


class StepResult:
    pass


CAUSES = [(OSError, "simulated root cause"), (ValueError, "simulated \u2014 'second' \"cause\"\nin lines"),
          (KeyError, "simulated third cause"), (LookupError, "")]


def cause_chain(n):
    """an exception with n - 1 further causes below it"""
    def up(i):
        t, m = CAUSES[i % len(CAUSES)]
        if i + 1 < n:
            try:
                up(i + 1)
            except Exception as e:
                raise t(m) from e
        raise t(m)
    try:
        up(0)
    except Exception as e:
        return e


def causes_logged(x, exc):
    """do the logged causes of an exception agree with the real ones?"""
    while exc.__cause__ is not None:
        exc = exc.__cause__
        x = x.get("cause")
        if not isinstance(x, dict) or x.get("type") != type(exc).__name__ or x.get("msg") != str(exc):
            return False
    return x.get("cause") is None


def run_step(case, v, faults, line, cap, gcn, tracer=None, con=(), argv=None):
    v.faults = faults
    v.fired = []
    v.oplog = []
    v.mutations = []
    v.frozen = False
    v.crashed_at = None
    v.counts.clear()
    v.counts_any.clear()
    if cap is not None:
        v.used = 0
        v.capacity = cap
    if gcn:
        cnt = [0]
        import gc

        def tr(kind, path):
            cnt[0] += 1
            if cnt[0] % gcn == 0:
                gc.collect()
        v.trace = tr
    if line is not None:
        if line["exc"] == "INTR":
            exc = KeyboardInterrupt()
        else:
            exc = MemoryError("simulated allocation failure")
            if line.get("cause"):
                exc.__cause__ = cause_chain(int(line["cause"]))
        tracer = LineFault(tuple(line["site"]), line["occ"], exc)
    CTX.vfs = v
    os.environ.pop("SPEX_DEBUG", None)
    if case.plan.get("debug") is not None:
        os.environ["SPEX_DEBUG"] = case.plan["debug"]
    try:
        ex = run_cli(case.argv if argv is None else argv, tracer, con)
    finally:
        CTX.vfs = None
        os.environ.pop("SPEX_DEBUG", None)
    v.faults = []
    v.capacity = None
    v.trace = None
    v.fds.clear()
    s = StepResult()
    s.ex = ex
    s.fired = list(v.fired) + [("write", "CON", "console", None, 0)] * len(ex.con_fired)
    s.line = tracer if line is not None else None
    s.oplog = v.oplog
    s.mutations = v.mutations
    s.disturbed = bool(s.fired) or (s.line is not None and s.line.fired is not None)
    return s


def parse_log(b):
    """-> (entries, bad line or None)"""
    out = []
    try:
        txt = b.decode("utf-8")
    except UnicodeDecodeError:
        return out, "not UTF-8"
    lines = txt.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for ln in lines:
        try:
            d = json.loads(ln)
        except ValueError:
            return out, ln[:200]
        if not isinstance(d, dict):
            return out, ln[:200]
        out.append(d)
    return out, None


def exc_ok(e):
    if not isinstance(e, dict) or not isinstance(e.get("type"), str) or not e["type"]:
        return False
    if not isinstance(e.get("msg"), str):
        return False
    fr = e.get("frames")
    if not isinstance(fr, list) or not fr:
        return False
    return all(isinstance(f, dict) and f.get("file") and isinstance(f.get("lineno"), int) and f.get("name")
               for f in fr)


def try_json(b):
    try:
        return json.loads(b.decode("utf-8"))
    except ValueError:
        return None


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.case = Case(plan)
        self.viol = []
        self.stats = {"faults": {}, "steps": 0, "probes": {}, "sim_s": 0.0}

    def bad(self, prop, msg):
        self.viol.append([prop, msg])

    def done(self):
        """the property looked at is broken: no need to go on"""
        f = self.plan.get("focus")
        return any(f is None or p == f for p, _ in self.viol)

    def probe(self, n):
        p = self.stats["probes"]
        p[n] = p.get(n, 0) + 1

    # -- references ---------------------------------------------------
    def reference(self):
        if self.plan.get("debug") is not None:
            self.probe("debug-setting")
        plan, case = self.plan, self.case
        self.clock = CTX.clock = Clock(1_700_000_000.0 + derive(plan["seed"], "t0") % 10 ** 8)
        CTX.rnd = rng(plan["seed"], "rnd0")
        v = case.disk(self.clock, stale=False)
        before = v.snapshot("/")
        s = run_step(case, v, [], None, None, 0)
        if plan["validate"] and s.ex.code not in (0, None):
            # whether a model validates is not this world's business: without the check
            case.argv.remove("--validate-json")
            plan["validate"] = False
            CTX.rnd = rng(plan["seed"], "rnd0")
            v = case.disk(self.clock, stale=False)
            s = run_step(case, v, [], None, None, 0)
        self.E = s
        self.Efiles = v.snapshot("/")
        self.growth = sum(len(b) for p, b in self.Efiles.items() if b is not None) - sum(
            len(b) for b in before.values() if b is not None)
        self.prof = [o for o in s.oplog]
        self.lineprof = None
        self.jr = {}
        for i, o in enumerate(case.outputs):
            b = self.Efiles.get(o[".json"])
            self.jr[i] = try_json(b) if b is not None and o[".json"] not in case.paths else None
        # index of the first input which fails in the undisturbed run (None: all succeed)
        self.fail_at = None
        for i, inp in enumerate(plan["inputs"]):
            if inp["kind"] != "doc":
                self.fail_at = i
                break
            m = Model(inp["doc"], skip=plan["skip"])
            case.models[i] = m
            if m.aborted:
                self.fail_at = i
                break
        self.check_reference(before, v)
        if any(st["kind"] in ("mem", "lineintr") and not st.get("resolved") for st in plan["steps"]):
            CTX.rnd = rng(plan["seed"], "rnd0")
            v2 = case.disk(self.clock, stale=False)
            t = LineFault()
            run_step(case, v2, [], None, None, 0, tracer=t)
            self.lineprof = t.counts

    def check_reference(self, before, v):
        """the undisturbed run against the reference model"""
        plan, case, s = self.plan, self.case, self.E
        code = s.ex.code
        docs = plan["inputs"]
        if self.fail_at is None:
            if code != 0 and not plan["validate"]:
                poisoned = any(f[0] == "failed" for i in case.models for f in case.models[i].figs)
                self.bad("C10" if poisoned else "C16", "undisturbed run over well-formed documents ended with status %r: %s"
                         % (code, (s.ex.exc or s.ex.err[-300:])))
                return
        elif code == 0:
            self.bad("C11" if docs[self.fail_at]["kind"] == "doc" else "C08",
                     "run succeeded although input %d fails" % self.fail_at)
            if docs[self.fail_at]["kind"] == "doc":
                self.bad("C08", "exit status 0 although input %d could not be converted" % self.fail_at)
        if code != 0 and not s.ex.err.strip():
            self.bad("C11", "failing run reported nothing")
        stop = len(docs) if self.fail_at is None else self.fail_at
        for i, inp in enumerate(docs):
            o = case.outputs[i]
            j = self.jr[i]
            if i > stop:
                for p in o.values():
                    if p in self.Efiles and p not in case.paths:
                        self.bad("C11", "input %d was converted after input %d failed" % (i, stop))
                continue
            if inp["kind"] != "doc":
                if j is not None and "lint" in j.get("meta", {}):
                    self.bad("C09", "unreadable input %d got a finished looking model" % i)
                continue
            m = case.models[i]
            if i == stop:      # fails in the default mode
                self.probe("failfast")
                if not isinstance(j, dict):
                    if o[".json"] in self.Efiles and self.Efiles[o[".json"]] == b"":
                        j = None
                    if j is None:
                        self.bad("C11", "entities preceding the failing figure are not in the output")
                        continue
                if "lint" in j.get("meta", {}):
                    self.bad("C11", "failed conversion has a lint section")
                    self.bad("C09", "failed conversion left output that looks finished")
                if j.get("entities") != m.entities:
                    self.bad("C11", "entities are not those preceding the failing figure (%d, expected %d)" % (
                        len(j.get("entities", ())), len(m.entities)))
                continue
            if j is None:
                self.bad("C08", "no JSON model for input %d" % i)
                continue
            for suf, p in o.items():
                if p not in self.Efiles:
                    self.bad("C08", "output %s of input %d is missing" % (suf, i))
            if plan["skip"]:
                self.check_accounting(i, j, m)
            d = diff_json(j, m, plan["ignore"])
            if d is not None:
                self.bad("C08", "undisturbed output wrong: " + d)
                if any(f[0] == "failed" for f in m.figs):
                    self.bad("C10", "output next to failing figures: " + d)
                self.bad("C16", "undisturbed output: " + d)
            elif any(f[0] == "failed" for f in m.figs):
                self.probe("skipped-figure")
            if ".html" in o and p in self.Efiles:
                h = self.Efiles.get(o[".html"], b"")
                if not h.rstrip().endswith(b"</html>"):
                    self.bad("C08", "HTML model of input %d is not complete" % i)
        self.check_footprint(before, self.Efiles, s, "undisturbed run")
        self.check_log(self.Efiles.get(case.cwd + "/spex.log"), s, "undisturbed run", None)

    def check_accounting(self, i, j, m):
        """figures of the document and rows of each figure, by count and order only"""
        if not isinstance(j, dict) or not isinstance(j.get("entities"), list):
            return
        got = [(e.get("fig_id"), e.get("parent_fig_id"), len(e.get("fields", ()))) for e in j["entities"]]
        want = [(e["fig_id"], e.get("parent_fig_id"), len(e["fields"])) for e in m.entities]
        if got != want:
            self.bad("C16", "entities (figure, parent, rows) got %.200r want %.200r" % (got, want))
        sel = ("T1000", "T1007", "T1008")
        gl = [(x.get("code"), x.get("fig")) for x in j.get("meta", {}).get("lint", ()) if x.get("code") in sel]
        wl = [(x["code"], x["fig"]) for x in m.lint if x["code"] in sel and x["code"] not in self.plan["ignore"]]
        if gl != wl:
            self.bad("C16", "figures reported got %.200r want %.200r" % (gl, wl))

    # -- footprint ----------------------------------------------------
    def check_footprint(self, before, after, s, where):
        case = self.case
        fixed = {case.cwd + "/spex.log"} | case.allowed
        quiet = not s.disturbed and not s.ex.killed
        created_dirs = set()
        for kind, p in s.mutations:
            if p in fixed:
                continue
            if kind == "mkdir" and (p == case.out or case.out.startswith(p + "/")):
                created_dirs.add(p)
                continue
            if p in before:
                self.bad("C13", "%s: %s of existing %s" % (where, kind, p))
                return
            d = p.rsplit("/", 1)[0] or "/"
            if not (d == case.out or p.startswith("/tmp/") or d == case.cwd or case.tmpish(p)):
                self.bad("C13", "%s: %s of %s" % (where, kind, p))
                return
        for p in sorted(set(before) | set(after)):
            if p in fixed or p in created_dirs:
                continue
            if p not in after:
                self.bad("C13", "%s: removed %s" % (where, p))
                return
            if p not in before:
                d = p.rsplit("/", 1)[0]
                if quiet or not (d == case.out or p.startswith("/tmp/") or case.tmpish(p)):
                    self.bad("C13", "%s: left %s" % (where, p))
                    return
                self.probe("temp-left-after-fault")
                continue
            if before[p] != after[p]:
                self.bad("C13", "%s: changed %s" % (where, p))
                return
        # existing output directory content which happens to be an input
        for i, p in enumerate(case.real):
            if after.get(p) != case.data[i]:
                self.bad("C13", "%s: input %s changed" % (where, p))
                return

    # -- log ------------------------------------------------------------
    def check_log(self, b, s, where, before):
        case, plan = self.case, self.plan
        if s.ex.killed or s.ex.intr:
            return
        log_fault = any(f[2] == "log" for f in s.fired) or (s.fired and any(f[1] == "FULL" for f in s.fired))
        if log_fault:
            return
        if s.line is not None and s.line.fired is not None and not self.strict(s.line):
            return
        if b is None:
            if s.ex.exc_type not in (None, "SystemExit") or any(f[0] in ("unlink", "create") for f in s.fired):
                return
            self.bad("C14", "%s: no spex.log" % where)
            return
        if b"STALE" in b:
            self.bad("C14", "%s: spex.log holds lines of an earlier run" % where)
            if where.startswith("rerun"):
                self.bad("C15", "%s: spex.log holds lines of an earlier run" % where)
            return
        ents, badline = parse_log(b)
        if badline is not None:
            self.bad("C14", "%s: spex.log line is not a JSON object: %r" % (where, badline))
            return
        excs = [e for e in ents if "exception" in e]
        for e in excs:
            x, depth = e["exception"], 0
            while x is not None and depth < 20:
                if not exc_ok(x):
                    self.bad("C14", "%s: exception entry incomplete: %.200r" % (where, x))
                    return
                x = x.get("cause")
                depth += 1
        if s.line is not None and s.line.fired is not None:
            hit = [e["exception"] for e in excs if e["exception"]["type"] == "MemoryError"
                   and e["exception"]["msg"] == "simulated allocation failure"]
            if not hit:
                self.bad("C14", "%s: spex.log has no entry for the allocation failure" % where)
                return
            if s.line.exc.__cause__ is not None:
                if not all(causes_logged(h, s.line.exc) for h in hit):
                    self.bad("C14", "%s: causes of the failure are not in spex.log" % where)
                    return
                self.probe("log-cause")
            if not any(f.startswith(SRC) for f, _ in hit_frames(hit[0])):
                self.bad("C14", "%s: stack frames of the failure are not in spex.log" % where)
                return
            self.probe("log-mem")
        if s.ex.code not in (0, None) and s.ex.exc_type == "SystemExit" and s.disturbed and self.E.ex.code == 0 \
                and s.line is None and s.ex.code == 1:
            if not excs:
                self.bad("C14", "%s: run failed but spex.log has no exception entry" % where)
                return
            self.probe("log-iofail")
        # figures skipped or failed
        calm = not s.disturbed or (s.line is None and all(f[2] == "console" for f in s.fired))
        if calm and plan["skip"]:
            named = {}
            for e in excs:
                ent = e.get("extra", {}).get("entity") if isinstance(e.get("extra"), dict) else None
                if isinstance(ent, dict) and "fig_id" in ent:
                    named[ent["fig_id"]] = named.get(ent["fig_id"], 0) + 1
            stop = len(plan["inputs"]) if self.fail_at is None else self.fail_at
            for i in range(min(stop, len(plan["inputs"]))):
                m = case.models.get(i)
                for x in m.lint if m else ():
                    if x["code"] == "T1000":
                        if not named.get(x["fig"]):
                            self.bad("C14", "%s: figure %s failed but no exception entry names it" % (where, x["fig"]))
                            return
                        self.probe("log-figure")
        if calm and s.ex.code == 1 and self.fail_at is not None:
            k = plan["inputs"][self.fail_at]["kind"]
            if k in ("doc", "baddocx", "badhtml", "nometa"):
                if not excs:
                    self.bad("C14", "%s: run failed but spex.log has no exception entry" % where)
                elif k == "doc":
                    t = [x["fig"] for x in case.models[self.fail_at].lint if x["code"] == "T1000"]
                    if t and not any(isinstance(e.get("extra"), dict) and isinstance(e["extra"].get("entity"), dict)
                                     and e["extra"]["entity"].get("fig_id") == t[-1] for e in excs):
                        self.bad("C14", "%s: no entry names the failing figure %s" % (where, t[-1]))

    def strict(self, line):
        """the injected failure struck while a figure was being extracted"""
        st = line.fired
        if not st:
            return False
        f0 = st[0][0]
        if f0.startswith("spex/jsonspec/document") or f0.startswith("spex/jsonspec/lint") or f0 == "loguru" or \
                f0.startswith("spex/log") or f0.startswith("spex/jsonspec/parse") or f0 == "spex/parse.py":
            return False
        for f, _ in st:
            if f == "loguru" or f.startswith("spex/log"):
                return False
            if "/extractors/" in f:
                return True
        return False

    def history(self, v):
        """run the tool over an earlier revision of the inputs, then put the present ones there"""
        plan, case = self.plan, self.case
        rev = plan["rev"]
        for i, inp in enumerate(plan["inputs"]):
            if inp["kind"] != "doc":
                continue
            if rev["kind"] == "sibling":
                d = docgen.sibling(inp["doc"], rng(plan["seed"], "rev", i))
            elif rev["kind"] == "other":
                d = Gen(rng(plan["seed"], "revdoc", i), "old%d" % i).doc(nfigs=2)
                d["style"] = inp["doc"]["style"]
            else:
                continue
            v.put(case.real[i], docgen.render(d))
        argv = [a for a in case.argv if a != "-s" and not a.startswith("--lint-ignore")]
        if rev["ignore"]:
            argv.insert(0, "--lint-ignore=" + ",".join(rev["ignore"]))
        if rev["skip"]:
            argv.insert(0, "-s")
        faults = []
        if rev["kill"]:
            faults = resolve({"kind": "kill", "err": "KILL", "count": 1, "pick": rev["kill"],
                              "frac": rev["kill"][0], "after": False}, self.prof, None, 0)[0]
        s = run_step(case, v, faults, None, None, 0, argv=argv)
        self.stats["steps"] += 1
        for f in s.fired:
            k = "%s:%s" % (f[0], f[1])
            self.stats["faults"][k] = self.stats["faults"].get(k, 0) + 1
        self.probe("history-" + rev["kind"])
        for i, p in enumerate(case.real):
            v.put(p, case.data[i]).mtime = self.clock.time() - plan.get("age", 0.0)
        lg = case.cwd + "/spex.log"
        if v.find(lg) is not None:
            v.put(lg, b'{"level": "STALE"}\n' + v.get(lg))

    def typo(self, v, what):
        """a command line which is refused"""
        case = self.case
        where = "run refused (%s)" % what
        argv = [self.plan["inputs"][0]["name"] if a == "INPUT" else a for a in TYPOS[what]]
        lg = case.cwd + "/spex.log"
        v.put(lg, b'{"level": "STALE"}\n')
        before = v.snapshot("/")
        s = run_step(case, v, [], None, None, 0, argv=argv)
        self.stats["steps"] += 1
        after = v.snapshot("/")
        self.probe("typo-" + what)
        if what == "help":
            if s.ex.code != 0:
                self.bad("C08", "%s: status %r" % (where, s.ex.code))
        elif s.ex.code == 0:
            self.bad("C08", "%s: status 0" % where)
        for p in sorted(set(before) | set(after)):
            if p != lg and before.get(p, 0) != after.get(p, 0):
                self.bad("C13", "%s: %s %s" % (where, "removed" if p not in after else "changed" if p in before
                                               else "created", p))
                break
        b = after.get(lg, b"")
        if b"STALE" in b:
            self.bad("C14", "%s: spex.log holds lines of an earlier run" % where)
        elif parse_log(b)[1] is not None:
            self.bad("C14", "%s: spex.log line is not a JSON object: %r" % (where, parse_log(b)[1]))
        v.put(lg, b'{"level": "STALE"}\n')

    def collision(self, suf, first, link):
        """a command line which names a file an earlier or later input would be converted to"""
        case = self.case
        docs = [i for i, inp in enumerate(self.plan["inputs"]) if inp["kind"] == "doc"]
        twin = suf == "twin"
        if twin:
            suf = ".json"
        docs = [i for i in docs if suf in case.outputs[i] and case.outputs[i][suf] not in case.paths]
        if not docs:
            return
        i = docs[0]
        self.clock.now += 1000.0
        v = case.disk(self.clock, stale=False)
        p = case.outputs[i][suf]
        body = {".html": OLD_HTML, ".css": b"/* mine */\n", ".json": b'{"mine": 1}\n'}[suf]
        if twin:
            # another specification of the same name elsewhere: both cannot be written
            p = "/other dir/" + stem_of(case.paths[i]) + ".html"
            body = docgen.render(dict(Gen(rng(self.plan["seed"], "twin"), "twin").doc(nfigs=2), style="html"))
        v.mkdirs(p.rsplit("/", 1)[0])
        v.put(p, body)
        name = p
        if link and not twin:
            name = case.cwd + "/elsewhere" + suf
            v.put_link(name, p)
        k = case.argv.index("--")
        both = [case.plan["inputs"][i]["name"], name]
        argv = case.argv[:k + 1] + (both if first else both[::-1])
        where = "run with an output (%s%s) among the inputs" % (suf, ", linked" if link else "") if not twin else \
            "run over two specifications of the same name"
        s = run_step(case, v, [], None, None, 0, argv=argv)
        self.stats["steps"] += 1
        self.probe("collision" + ("-twin" if twin else suf))
        after = v.snapshot("/")
        if after.get(p) != body:
            self.bad("C13", "%s: input %s %s" % (where, p, "removed" if p not in after else "changed"))
        elif after.get(case.real[i]) != case.data[i]:
            self.bad("C13", "%s: input %s changed" % (where, case.real[i]))
        elif s.ex.code == 0:
            self.bad("C08", "%s: status 0" % where)

    # -- steps ----------------------------------------------------------
    def steps(self):
        plan, case = self.plan, self.case
        CTX.rnd = rng(plan["seed"], "rnd1")
        v = case.disk(self.clock, stale=plan["stale"])
        self.v = v
        ever = False
        if plan.get("rev"):
            self.history(v)
            ever = True
        for what in plan.get("typos", ()):
            self.typo(v, what)
        for c in plan.get("collide", ()):
            self.collision(*c)
        for n, st in enumerate(plan["steps"]):
            self.clock.now += 1000.0 * (1 + derive(plan["seed"], "dt", n) % 50)
            faults, line, cap = resolve(st, self.prof, self.lineprof, self.growth)
            before = v.snapshot("/")
            s = run_step(case, v, faults, line, cap, plan["gc"], con=st.get("con", ()))
            st["_resolved"] = {"faults": [{k: x for k, x in f.items() if k != "_seen"} for f in faults],
                               "line": line, "cap": cap}
            after = v.snapshot("/")
            self.stats["steps"] += 1
            for f in s.fired:
                k = "%s:%s" % (f[0], f[1])
                self.stats["faults"][k] = self.stats["faults"].get(k, 0) + 1
            if s.line is not None and s.line.fired is not None:
                k = "alloc" if line["exc"] == "MEM" else "interrupt@line"
                self.stats["faults"][k] = self.stats["faults"].get(k, 0) + 1
            where = ("rerun %d" % n) if ever else "step %d (%s)" % (n, st["kind"])
            self.check_step(n, s, before, after, where, ever, line)
            ever = ever or s.disturbed or s.ex.killed
            if self.done():
                break

    def files_eq(self, i, after):
        for suf, p in self.case.outputs[i].items():
            if p in self.case.paths:
                continue
            if after.get(p) != self.Efiles.get(p):
                return "%s of input %d %s" % (suf, i, "missing" if p not in after else "differs")
        return None

    def check_step(self, n, s, before, after, where, ever, line):
        plan, case, E = self.plan, self.case, self.E
        ex = s.ex
        self.check_footprint(before, after, s, where)
        self.check_log(after.get(case.cwd + "/spex.log"), s, where, before)
        stop = len(plan["inputs"]) if self.fail_at is None else self.fail_at
        if not s.disturbed and not ex.killed:
            diff = None
            if ex.code != E.ex.code:
                diff = "exit status %r instead of %r: %s" % (ex.code, E.ex.code, ex.exc or ex.err[-300:])
            else:
                for i in range(len(plan["inputs"])):
                    if i > stop:
                        d = self.unchanged(i, before, after)
                        if d:
                            self.bad("C11", "%s: %s although an earlier input failed" % (where, d))
                        continue
                    if plan["inputs"][i]["kind"] != "doc" and i == stop:
                        continue
                    d = self.files_eq(i, after)
                    if d:
                        diff = diff or d
            if diff:
                if ever:
                    self.bad("C15", "%s: %s" % (where, diff))
                else:
                    self.bad("C12", "%s: %s" % (where, diff))
                if ex.code == 0:
                    self.bad("C08", "%s: %s" % (where, diff))
                if plan["stale"] and not ever:
                    self.bad("C15", "%s over older outputs: %s" % (where, diff))
            else:
                lg, le = after.get(case.cwd + "/spex.log"), self.Efiles.get(case.cwd + "/spex.log")
                if lg is not None and le is not None and ever:
                    a, b = parse_log(lg)[0], parse_log(le)[0]
                    if [(x.get("level"), x.get("func")) for x in a] != [(x.get("level"), x.get("func")) for x in b]:
                        self.bad("C15", "%s: spex.log differs from that of a clean run" % where)
                    self.probe("rerun-ok")
            return
        # ---- disturbed
        mem = line is not None and line["exc"] == "MEM" and s.line.fired is not None
        logonly = bool(s.fired) and all(f[2] in ("log", "console") and f[0] in ("write", "close", "fsync") and f[1] not in (
            "KILL", "INTR") for f in s.fired) and not mem and line is None
        if ex.killed:
            self.check_partial(s, before, after, where)
            return
        if mem:
            self.check_mem(s, before, after, where)
            return
        if logonly:
            if ex.code != E.ex.code:
                self.bad("C14", "%s: error on the log or console changed the exit status to %r: %s" % (where, ex.code, ex.exc))
            for i in range(min(stop + 1, len(plan["inputs"]))):
                d = self.files_eq(i, after) if plan["inputs"][i]["kind"] == "doc" else None
                if d:
                    self.bad("C14", "%s: error on the log or console changed the outputs: %s" % (where, d))
                    if ex.code == 0:
                        self.bad("C08", "%s: %s" % (where, d))
                    break
            self.probe("logfault-harmless")
            return
        if ex.code == 0:
            if E.ex.code != 0:
                self.bad("C08", "%s: status 0 although the undisturbed run fails" % where)
            for i in range(len(plan["inputs"])):
                d = self.files_eq(i, after)
                if d:
                    self.bad("C08", "%s: status 0 but %s (%r)" % (where, d, s.fired[:3]))
                    if any(f[1] == "INTR" for f in s.fired) or line is not None:
                        # interrupted, and went on
                        self.check_partial(s, before, after, where)
                    break
            self.probe("fault-survived")
        else:
            self.probe("fault-failed")
            if not ex.err.strip() and not ex.con_fired:
                self.bad("C11", "%s: failed run reported nothing" % where)
            self.check_partial(s, before, after, where)

    def unchanged(self, i, before, after):
        for suf, p in self.case.outputs[i].items():
            if before.get(p, 0) != after.get(p, 0) and p not in self.case.paths:
                return "%s of input %d changed" % (suf, i)
        return None

    def partial_input(self, i, before, after, entities):
        """the input being processed when the run ended; -> reason or None"""
        o = self.case.outputs[i]
        for suf in (".html", ".css"):
            p = o.get(suf)
            if p is None or p in self.case.paths:
                continue
            if p not in after:
                if p in before:
                    return "%s was removed" % suf
                continue
            if after[p] != before.get(p, 0) and after[p] != self.Efiles.get(p, 0):
                return "%s of input %d is neither the old nor the complete one (%d bytes)" % (suf, i, len(after[p]))
        p = o[".json"]
        if p in self.case.paths or p not in after or after[p] == before.get(p, 0):
            return None
        j = try_json(after[p])
        if j is None:
            return None
        if after[p] == self.Efiles.get(p, 0):
            return None
        if not isinstance(j, dict):
            return "JSON of input %d parses as %s" % (i, type(j).__name__)
        if "lint" in j.get("meta", {}):
            return "JSON of input %d looks finished but differs from the complete result" % i
        ents = j.get("entities")
        if not isinstance(ents, list) or ents != entities[: len(ents)]:
            return "entities of input %d are not a leading part of the result" % i
        return None

    def check_partial(self, s, before, after, where):
        """killed, interrupted or failed run"""
        n = len(self.plan["inputs"])
        reasons = []
        last = n - 1 if self.fail_at is None else self.fail_at
        for j in range(last + 1):
            why = None
            for i in range(n):
                if i < j:
                    why = self.files_eq(i, after)
                    if why:
                        why = "earlier output: " + why
                elif i == j:
                    ents = (self.jr[i] or {}).get("entities", []) if isinstance(self.jr[i], dict) else []
                    why = self.partial_input(i, before, after, ents)
                else:
                    why = self.unchanged(i, before, after)
                if why:
                    break
            if why is None:
                self.probe("partial-ok")
                return
            reasons.append(why)
        self.bad("C09", "%s: after an unfinished run (%s, %s): %s" % (
            where, "killed" if s.ex.killed else s.ex.code, s.fired[:2], reasons))
        if not s.ex.killed and any("earlier output" not in x and "changed" in x for x in reasons):
            self.probe("partial-later-changed")

    # -- allocation failures ----------------------------------------------
    def check_mem(self, s, before, after, where):
        plan, case = self.plan, self.case
        strict = self.strict(s.line)
        site = "%s in %s" % (s.line.fired[0] if s.line.fired else "?", s.line.site)
        self.probe("mem-strict" if strict else "mem-loose")
        if s.ex.code != 0:
            if strict and plan["skip"] and self.E.ex.code == 0:
                self.bad("C10", "%s: failure while extracting a figure (%s) aborted the run: %s" % (
                    where, site, s.ex.exc or s.ex.err[-200:]))
                return
            if plan["skip"] and self.fail_at is not None:
                # a later input fails anyway; the figure may have been skipped before
                for i in range(self.fail_at):
                    if self.files_eq(i, after) is None:
                        continue
                    m, p = case.models.get(i), case.outputs[i]
                    j = try_json(after.get(p[".json"], b""))
                    r = self.block_rule(j, m, strict) if m is not None else None
                    if r is not None:
                        if not strict:
                            break
                        self.bad(r[0], "%s: %s (failure at %s)" % (where, r[1], site))
                        return
                else:
                    return
            self.check_partial(s, before, after, where)
            if strict and not plan["skip"]:
                self.probe("mem-failfast")
                self.check_failfast_mem(s, before, after, where, site)
            return
        if not plan["skip"]:
            if strict:
                self.bad("C11", "%s: failure while extracting a figure (%s) did not fail the run" % (where, site))
                self.bad("C16", "%s: failure while extracting a figure (%s) was swallowed" % (where, site))
            return
        if self.E.ex.code != 0:
            return
        changed = 0
        for i in range(len(plan["inputs"])):
            d = self.files_eq(i, after)
            if d is None:
                continue
            changed += 1
            j = try_json(after.get(case.outputs[i][".json"], b""))
            m = case.models.get(i)
            if m is None:
                continue
            if d.startswith(".json") is False:
                # html or css differ as well
                if strict:
                    self.bad("C08", "%s: %s" % (where, d))
                    return
                continue
            r = self.block_rule(j, m, strict)
            if r is not None:
                prop, msg = r
                self.bad(prop, "%s: %s (failure at %s)" % (where, msg, site))
                if prop == "C16":
                    self.bad("C10", "%s: %s (failure at %s)" % (where, msg, site))
                return
        if strict:
            if changed == 0 and any(st in ("failed", "skipped") for m in case.models.values() for st, _ in m.figs):
                self.probe("mem-absorbed")
            elif changed == 0:
                self.bad("C16", "%s: failure at %s left no trace in the result" % (where, site))
            elif changed > 1:
                self.bad("C10", "%s: failure at %s changed %d outputs" % (where, site, changed))
            else:
                self.probe("mem-isolated")

    def check_failfast_mem(self, s, before, after, where, site):
        for j in range(len(self.plan["inputs"])):
            p = self.case.outputs[j][".json"]
            if after.get(p) == self.Efiles.get(p):
                continue
            g = try_json(after.get(p, b""))
            if isinstance(g, dict) and "lint" in g.get("meta", {}):
                if after.get(p) != before.get(p):
                    self.bad("C11", "%s: failed conversion has a lint section (%s)" % (where, site))
            elif after.get(p) != before.get(p, 0):
                ents = self.jr[j]["entities"] if isinstance(self.jr[j], dict) else []
                if not isinstance(g, dict) or g.get("entities") != ents[: len(g.get("entities", ()))]:
                    self.bad("C11", "%s: entities are not those preceding the failure (%s)" % (where, site))
            for i in range(j + 1, len(self.plan["inputs"])):
                d = self.unchanged(i, before, after)
                if d:
                    self.bad("C11", "%s: %s although input %d failed (%s)" % (where, d, j, site))
            break

    def block_rule(self, j, m, strict):
        """j: JSON of a run in which the extraction of one figure failed.
        -> None or (property, reason)"""
        ign = self.plan["ignore"]
        if not isinstance(j, dict) or "lint" not in j.get("meta", {}):
            return "C10", "successful run without a finished model"
        ge = j["entities"]
        gl = [lint_key(x) for x in j["meta"]["lint"]]
        me = m.entities
        ml = m.lint
        why = None
        for (fi, e0, e1, l0, l1) in m.blocks:
            f = m.doc["figs"][fi]
            suf_e = me[e1:]
            if ge[:e0] != me[:e0] or len(ge) < e0 + len(suf_e) or ge[len(ge) - len(suf_e):] != suf_e:
                continue
            R = ge[e0: len(ge) - len(suf_e)]
            LP = [x for x in ml[:l0] if x["code"] not in ign]
            LS = [x for x in ml[l1:] if x["code"] not in ign]
            if gl[:len(LP)] != LP or len(gl) < len(LP) + len(LS) or gl[len(gl) - len(LS):] != LS:
                continue
            LR = gl[len(LP): len(gl) - len(LS)]
            blk = me[e0:e1]
            if R != blk[: len(R)]:
                why = ("C16", "figure %s: rows or entities differ without a failure report" % f.get("id"))
                if not R or R[-1].get("fig_id") != f.get("id"):
                    why = ("C16", "figure %s: nested entities differ" % f.get("id"))
                continue
            if not strict:
                return None
            if f.get("quirk") == "two":
                return None
            if R and R[-1].get("fig_id") == f.get("id"):
                why = ("C16", "figure %s is reported although nothing is missing, or its lint findings changed"
                       % f.get("id"))
                continue
            t = [x for x in LR if x["code"] == "T1000"]
            if "T1000" in ign:
                return None
            if len(t) != 1:
                why = ("C16", "figure %s has no entity and %d failure reports" % (f.get("id"), len(t)))
                continue
            fid = t[0]["fig"]
            # ids of nested figures need not be unique: not all figures of that id were emitted
            nem = sum(e["fig_id"] == fid for e in R)
            nall = m.tried.count(fid)
            if not (fid == f.get("id") or fid.startswith(str(f.get("id")) + "_")) or (nem and nem >= nall):
                why = ("C10", "failure report names figure %s" % fid)
                continue
            if LR[-1] is not t[0] and LR[-1] != t[0]:
                why = ("C10", "findings after the failure report of figure %s" % fid)
                continue
            rest = [x for x in LR if x["code"] != "T1000"]
            blkl = [x for x in ml[l0:l1] if x["code"] not in ign and x["code"] != "T1000"]
            if rest != blkl[: len(rest)]:
                why = ("C10", "lint findings of the failing figure %s changed" % f.get("id"))
                continue
            return None
        return why or ("C10", "figures other than the failing one are affected")


def hit_frames(x):
    return [(f.get("file", ""), f.get("lineno")) for f in x.get("frames", ())]


def _tmpish(self, p):
    b = p.rsplit("/", 1)[-1]
    return any(nm in b for nm in TempNames.issued)


Case.tmpish = _tmpish


def run(plan):
    """execute a plan -> {"viol": [...], "stats": {...}, "trace": digest}"""
    plan = copy.deepcopy(plan)
    r = Run(plan)
    r.reference()
    if not r.done():
        r.steps()
    import hashlib
    h = hashlib.sha256()
    h.update(repr([(k, p, c) for k, p, c, _ in r.prof]).encode())
    if hasattr(r, "v"):
        h.update(repr(sorted((p, b) for p, b in r.v.snapshot("/").items() if b is not None)).encode())
    r.stats["sim_s"] = r.clock.now
    res = [st.get("_resolved") for st in plan["steps"]]
    shape = (tuple((i["kind"], os.path.splitext(i["name"])[1]) for i in plan["inputs"]), plan["skip"],
             json.dumps(res, sort_keys=True, default=str))
    return {"viol": r.viol, "stats": r.stats, "trace": h.hexdigest(), "resolved": res,
            "shape": hashlib.sha256(repr(shape).encode()).hexdigest()[:16]}
