"""World "web": the web service (its real Quart application, framework and asyncio
machinery) on a simulated event loop, disk and clock, with several clients uploading
and viewing at seeded times over a simulated connection layer, and per-request disk
errors, disconnects, stalls, cut bodies, hostile names, a full disk, a temporary file
reaper, and kills and restarts of the whole service.
"""
import asyncio
import copy
import gc
import hashlib
import json
import os
import re
import sys

from . import docgen
from .docgen import Gen, Model, diff_json
from .procsim import Budget, Process, SRC
from .rng import derive, rng
from .seams import CTX, Clock, TempNames
from .simloop import OWNER, SimLoop, as_owner, aclose_all
from .vfs import HarnessError, SimCrash, VFS

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]
ERRS = ["EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "EROFS"]
OPS = ["create", "open", "read", "write", "close", "rename", "unlink", "rmdir", "mkdir", "list", "stat", "trunc"]
GOODNAMES = ["spec", "NVM Spec 1.0c", "a.b", "\u00fcber", "x", "R&D <1>", "spec (1)", "o'clock", "tmp", "spec.json"]
HOSTILE = [
    "../{s}", "/work/victim.{e}", "/tmp/planted/{s}", "..\\{s}", "../../work/victim.{e}", "/etc/{s}", "", ".", "..",
    "...", ".{e}", "a/../../{s}", "/", "//", "../", "\x00{s}", "x" * 300 + ".{e}", "C:\\victim.{e}",
    "/work/spex.log", "spex.log", "{b}", "{b}.htm", "{b}.json", "{b}.css", "../../../../../../work/{s}", "%2e%2e/{s}",
    "/tmp/planted", "a/b/{s}", "/tmp/{s}", "~/{s}", " .{e}", "{s}/", "{s}/.", "\u202e{s}", "nul.{e}\n",
    "report.css.{e}", "./{s}", "/proc/self/{s}", "/work/models/{s}", "//work/victim.{e}",
    # names which only some decoding or folding turns into paths
    "..%2f{s}", "..%2F..%2Fwork%2Fvictim.{e}", "%2Fwork%2Fvictim.{e}", "%2ftmp%2fplanted%2f{s}", "..%5c{s}",
    "%252e%252e%252f{s}", "..%252f{s}", "\uff0e\uff0e\uff0f{s}", "..\uff0f{s}", "..\u2215{s}", "\uff0fwork\uff0fvictim.{e}",
    "..&#47;{s}", "..&#x2f;{s}", "..+{s}", "..%c0%af{s}", "$HOME/{s}", "${{TMPDIR}}/{s}", "~u/{s}", "file:///work/victim.{e}",
    "UTF-8''..%2F{s}", "..:{s}", "=?utf-8?q?..=2F{s}?=", "%7e/{s}", "{s}%00.html", "victim.{e}", "-o.{e}", "--output.{e}",
]
UNKNOWN = ["0" * 32, "d41d8cd98f00b204e9800998ecf8427e", "x", "..", "../../../etc/passwd", "..%2f..%2fetc%2fpasswd",
           "victim", "/etc/passwd", "a.json", "None", "%00", "\u00fc", "x" * 4000, "spex.log", "tmp", "*", "?", " ",
           "{id}.json", "{id}.html", "{id}/", "../{id}", "{ID}", "{id}x", "x{id}", "{id8}", "./{id}", "{id}.", "{id}%00",
           "{id} ", " {id}", "{id}%20", "%2e%2f{id}", "{id}\n", "{id}+", "-{id}", "{{{id}}}", "{id}.json.html"]
TWINS = ["crlf", "crlf", "cr", "nl", "nl", "sp", "head", "nonl", "tab"]
SECRET = "Planted Secret"
STALL_LIMIT = 75.0
OTHERS_LIMIT = 30.0
QUICK_OWN_DELAY = 25.0
DRAIN = 240.0
WORK = 3000000      # lines of code run in one go, during which nobody else is served
BLOCKED = 20.0      # seconds during which the event loop is kept from running


# --------------------------------------------------------------------------
# plans


def make_plan(seed, focus=None):
    r = rng(seed, "web")
    ndocs = r.choice([1, 2, 2, 3])
    docs = []
    for i in range(ndocs):
        g = Gen(rng(seed, "doc", i), "tok%d" % i)
        d = g.doc(poison=r.choice([0, 0, 1]), nfigs=r.choice([1, 2, 3, 5]))
        if r.random() < 0.12:
            d["pad"] = r.choice([20000, 200000, 600000])
        docs.append(d)
    if r.random() < (0.4 if focus in ("C01", "C02", "C03") else 0.15):
        # documents which are hard to tell apart: same size, few characters differ
        for i in range(1, max(2, ndocs)):
            d = docgen.sibling(docs[0], rng(seed, "sib", i))
            if i < len(docs):
                docs[i] = d
            else:
                docs.append(d)
        if r.random() < 0.5:
            pad, last = r.choice([20000, 300000, 600000]), r.random() < 0.4
            for d in docs:
                d["pad"], d["padlast"] = pad, last
        ndocs = len(docs)
    crowd = 0
    if r.random() < {"C02": 0.06, "C01": 0.03, "C03": 0.02, "C06": 0.03}.get(focus, 0.006):
        # many small documents within one service run
        crowd = r.choice([20, 20, 20, 40, 40, 70, 140])
        base = Gen(rng(seed, "doc", "c"), "tokc").doc(poison=0, nfigs=1, quirk=False)
        docs = []
        for i in range(crowd):
            d = copy.deepcopy(base)
            d["figs"][0]["title"] += " crowd%04d" % i
            docs.append(d)
        ndocs = crowd
    # many clients at the same time, most of which take their time
    held = 0 if crowd or r.random() > {"C07": 0.05, "C05": 0.02, "C03": 0.02}.get(focus, 0.008) else r.choice([12, 24, 24, 48, 96])
    big = any(d.get("pad", 0) > 20000 for d in docs)
    names = r.sample(GOODNAMES, 2)
    plan = {"world": "web", "seed": seed, "focus": focus, "docs": docs, "blk": r.choice([512, 4096, 8192]),
            "jobs": "fast" if big or crowd or held else r.choice(["fast", "fast", "mixed", "slow"]), "gc": r.choice([0, 0, 5, 23]), "epochs": []}
    rt = rng(seed, "twins")
    if rt.random() < {"C01": 0.2, "C02": 0.1, "C03": 0.1}.get(focus, 0.05):
        # copies of a document which differ in what does not matter to its reader
        plan["twins"] = rt.choice([0.3, 0.6])
    n_ep = r.choice([1, 1, 1, 2, 3]) if focus != "C06" else r.choice([1, 2, 2, 3])
    opid = 0
    for e in range(n_ep):
        span = r.choice([0.5, 4.0, 30.0, 90.0] * 3 + [5000.0, 100000.0, 3e6])
        ops = []
        n = r.choice([2, 3, 4, 6, 8] if focus not in ("C05",) else [2, 3, 4])
        hot = None
        if r.random() < (0.6 if focus in ("C01", "C02", "C03") else 0.35):
            # several clients meet: one document, a short time, often different file names
            hot = (r.random() * span, r.choice([0.02, 0.2, 2.0, 8.0]), r.randrange(ndocs))
            n += r.choice([2, 4, 6])
        if crowd and e == 0:
            span = r.choice([4.0, 30.0])
            hot = None
            for i in range(crowd):
                op = make_op(r, opid, plan, names, span, "crowd")
                if op["kind"] == "upload":
                    op["doc"] = i
                ops.append(op)
                opid += 1
        if held and e == 0:
            hold = r.choice([3.0, 20.0, 1e9])
            for i in range(held):
                ops.append({"id": opid, "at": r.random() * min(span, 2.0), "kind": "upload", "doc": r.randrange(ndocs),
                            "content": "doc", "name": r.choice(GOODNAMES), "chunk": 0, "bdelay": 0.0, "rdelay": 0.0,
                            "stall": {"n": r.choice([1, 1, 2, 3]), "for": hold}})
                opid += 1
        for _ in range(n):
            ops.append(make_op(r, opid, plan, names, span, focus))
            if hot and r.random() < 0.75:
                op = ops[-1]
                op["at"] = hot[0] + r.random() * hot[1]
                if op["kind"] == "upload":
                    op["doc"] = hot[2]
                    if r.random() < 0.5:
                        op["name"] = r.choice(GOODNAMES)
                else:
                    op["ofdoc"] = hot[2]
            opid += 1
        ep = {"ops": ops, "end": r.choice(["graceful", "graceful", "busy", "kill"]) if e < n_ep - 1 else
              r.choice(["graceful", "graceful", "graceful", "busy"])}
        if ep["end"] == "kill":
            ep["kill"] = {"nth": r.randint(1, r.choice([40, 400, 2500])), "after": r.random() < 0.3,
                          "frac": r.choice([0.0, 0.5])}
        if r.random() < (0.12 if focus in ("C02", "C03", "C07", None) else 0.05):
            t = r.random() * span
            ep["full"] = {"at": t, "until": t + r.choice([0.5, 5.0, 40.0]), "room": r.choice([0, 100, 5000, 60000])}
        if r.random() < (0.3 if focus in ("C06", "C02") else 0.08):
            ep["reap"] = [{"at": r.random() * span, "pick": r.random(), "what": r.choice(["all", "json", "html", "one"])}]
        if r.random() < 0.15:
            # a service which runs for long
            ep["idle"] = r.choice([100.0, 4000.0, 90000.0, 7e5, 3e6, 4e7])
        if r.random() < 0.1:
            # the wall clock is set
            ep["wall"] = {"at": r.random() * span, "by": r.choice([-1e5, -3600.0, -1.0, 1.0, 3600.0, 1e5, 4e7])}
        if r.random() < 0.06:
            # the terminal the service was started from is gone
            ep["con"] = {"nth": r.choice([1, 1, 4]), "count": r.choice([1, 10 ** 6, 10 ** 6]),
                         "err": r.choice(["EPIPE", "EIO", "ENOSPC"])}
        plan["epochs"].append(ep)
    if r.random() < 0.15:
        plan["cache"] = r.choice(["n", "false", "0", "true", "Y", ""])
    return plan


def make_op(r, opid, plan, names, span, focus):
    op = {"id": opid, "at": r.random() * span if r.random() < 0.8 else r.choice([0.0, 0.001, span / 2])}
    k = r.random()
    up = {"C06": 0.5, "C04": 0.85, "C05": 0.85, "crowd": 0.94}.get(focus, 0.68)
    if k < up:
        op["kind"] = "upload"
        op["doc"] = r.randrange(len(plan["docs"]))
        op["content"] = r.choice(["doc"] * 9 + ["garbage", "empty", "cutdoc", "badxml", "bomb", "odd"])
        if focus == "C04" and r.random() < 0.3:
            op["content"] = r.choice(["garbage", "empty", "cutdoc", "badxml", "bomb", "doc", "odd"])
        if focus == "C07" and r.random() < 0.08:
            op["content"] = "odd"
        op["name"] = r.choice(names)
        hostile = {"C04": 0.6, "C05": 0.1, "C07": 0.2, "C01": 0.15}.get(focus, 0.08)
        if r.random() < hostile:
            op["hostile"] = r.choice(HOSTILE)
        if r.random() < plan.get("twins", 0.0):
            op["twin"] = r.choice(TWINS)
        op["chunk"] = r.choice([0, 0, 64, 1000, 16384, 65536])
        op["bdelay"] = r.choice([0.0, 0.0, 0.001, 0.05, 2.0])
        op["rdelay"] = r.choice([0.0, 0.0, 0.001, 0.05, 0.4, 3.0])
    elif k < 0.95:
        op["kind"] = "fetch"
        op["what"] = r.choice(["report", "json", "html", "report?bundle=1"])
        op["method"] = r.choice(["GET"] * 6 + ["HEAD"])
        if r.random() < (0.6 if focus == "C06" else 0.25):
            op["raw"] = r.choice(UNKNOWN)
        op["of"] = r.random()
        if op["method"] == "GET" and r.random() < 0.2:
            op["cond"] = r.choice(["have", "have", "range"])
        op["rdelay"] = r.choice([0.0, 0.0, 0.01, 0.5])
    else:
        op["kind"] = "junk"
        op["what"] = r.choice(["nodoc", "noaccept", "notmultipart", "badboundary", "get", "index", "big", "static"])
        op["rdelay"] = 0.0
    x = r.random()
    trouble = {"crowd": 0.08, "C05": 0.6, "C07": 0.45, "C03": 0.45, "C02": 0.45}.get(focus, 0.35)
    if x < trouble:
        t = r.choice(["disc", "disc", "disc-body", "stall", "io", "io", "io", "stall-body"])
        if t in ("disc", "disc-body"):
            op["disc"] = {"when": "body" if t == "disc-body" else r.choice(["msg", "msg", "time"]),
                          "n": r.choice([0, 1, 2, 3, 5, 9]), "t": r.random() * r.choice([0.01, 1.0, 20.0])}
        elif t == "stall":
            op["stall"] = {"n": r.choice([0, 1, 2, 4, 8]), "for": r.choice([5.0, 40.0, 1e9])}
        elif t == "stall-body":
            op["stallb"] = {"n": r.choice([0, 1, 3]), "for": r.choice([5.0, 1e9])}
        else:
            op["faults"] = [{"op": r.choice(OPS), "nth": r.choice([1, 1, 1, 2, 2, 3, 5, 8]),
                             "count": r.choice([1, 1, 2, 10 ** 6]), "err": r.choice(ERRS),
                             "frac": r.choice([0.0, 0.5]), "after": r.random() < 0.3,
                             "cls": r.choice([None, None, "up", "store", "log"])}
                            for _ in range(r.choice([1, 1, 2]))]
            if r.random() < 0.12:
                # the store cannot be written for long
                op["faults"] = [{"op": r.choice(["rename", "rename", "rename", "create", "unlink"]), "nth": 1,
                                 "count": r.choice([2, 4, 10 ** 6]), "err": r.choice(ERRS), "frac": 0.0, "after": False,
                                 "cls": r.choice([None, "store", "store"])}]
        if r.random() < 0.1:
            op["disc"] = {"when": "msg", "n": r.choice([1, 3]), "t": 0}
    return op


# --------------------------------------------------------------------------
# contents and references


def twin_of(b, how):
    """the same document, other bytes"""
    if b[:2] == b"PK":
        # the comment of the archive
        n = {"crlf": b"a", "cr": b"b", "nl": b"\n", "sp": b" ", "head": b"h"}.get(how, how.encode())
        return b[:-2] + len(n).to_bytes(2, "little") + n if b[-2:] == b"\0\0" else b
    if how == "crlf":
        return b.replace(b"\n", b"\r\n")
    if how == "cr":
        return b.replace(b"\n", b"\r\n", 1)
    if how == "nonl":
        return b.rstrip()
    if how == "head":
        return b"\n" + b
    if how == "tab":
        return b.replace(b"\n", b"\n\t", 1)
    return b + {"nl": b"\n", "sp": b" "}[how]


def content_bytes(op, docs, rendered):
    c = op["content"]
    b = rendered[op["doc"]]
    if c == "doc":
        return twin_of(b, op["twin"]) if "twin" in op else b
    if c == "empty":
        return b""
    if c == "cutdoc":
        return b[: len(b) * 2 // 3]
    if c == "garbage":
        return bytes(rng("garbage", op["id"]).randbytes(700))
    if c == "badxml":
        return b"<!DOCTYPE html>\n<html><head><meta data-spec='a' data-revision='b'/></head><body><table><tr></body>"
    if c == "odd":
        return docgen.render_odd(rng("odd", op["id"], len(b)), docs[op["doc"]]["style"])
    if c == "bomb":
        # a document whose entities refer to other files
        r = rng("bomb", op["id"])
        return docgen.render_entity(r.choice([
            "file:///work/victim.html", "/etc/passwd", "file:///tmp/planted/x.html", "/work/models/spec.json",
            "victim.html", "../victim.html", "/work/spex.log", "/home/u/spec.html"]), r.choice(["html", "docx"]),
            r.choice([0, 0, 900, 7000, 40000, 300000]), r.choice(["general", "general", "param", "dtd"]))
    raise AssertionError(c)


def names_of(op, docs):
    e = docs[op["doc"]]["style"]
    base = op["name"]
    good = base + "." + e
    if "hostile" in op:
        return op["hostile"].format(s=good, e=e, b=base)
    return good


def norm_html(h, data):
    """HTML of Word documents carries the uploaded file's name in its title and style sheet link"""
    if h == data:
        return h
    k = h.find(b"</head>")
    head = re.sub(rb"<title>.*?</title>", b"", h[:k], flags=re.S)
    head = re.sub(rb'href="[^"]*"', b"", head, flags=re.S)
    return head + h[k:]


class Refs:
    """what a lone, undisturbed conversion of given bytes gives"""

    def __init__(self, run):
        self.run = run
        self.cache = {}
        self.closed = False

    def get(self, data, ext, odd=False):
        """-> (json bytes, html bytes) or None if such a conversion fails"""
        k = (hashlib.sha256(data).digest(), ext)
        if k not in self.cache:
            if self.closed:
                raise HarnessError("reference conversion inside a run")
            self.cache[k] = self.convert(data, "x." + ext, odd)
        return self.cache[k]

    def all(self, data):
        d = hashlib.sha256(data).digest()
        return [r for (k, _), r in sorted(self.cache.items()) if k == d and r is not None]

    @staticmethod
    def convert(data, name, odd=False):
        keep = CTX.vfs, CTX.rnd
        clock = CTX.clock
        v = VFS(clock, lambda p: "x", "/ref")
        v.mkdirs("/ref/o")
        v.mkdirs("/tmp")
        CTX.vfs, CTX.rnd = v, rng("refs")
        CTX.vfs.put("/ref/in/" + name, data)
        saved = {k: m for k, m in sys.modules.items() if k.partition(".")[0] in ("spex", "spexsrv")}
        p = Process(["spex"])
        p.start()
        out = None
        try:
            from pathlib import Path
            from importlib import import_module
            ps = import_module("spex.parse").parse_spec
            pa = import_module("spex.jsonspec.parserargs").ParserArgs
            try:
                gen = ps(Path("/ref/in/" + name), pa(output_dir=Path("/ref/o"), skip_fig_on_error=True,
                                                     lint_codes_ignore=[]), yield_progress=odd)
                bud = Budget(WORK, lambda at: None) if odd else None
                if bud:
                    bud.on()
                try:
                    for _ in gen:
                        if bud:
                            bud.reset()
                finally:
                    if bud:
                        bud.off()
                stem = name[: name.rindex(".")]
                j = v.get("/ref/o/" + stem + ".json")
                h = v.get("/ref/o/" + stem + ".html") if name.endswith(".docx") else data
                if j is not None and h is not None and not (bud and bud.hit):
                    out = (j, h)
            except (HarnessError, SimCrash):
                raise
            except Exception:
                pass
        finally:
            p.finish(True)
            sys.modules.update(saved)
            CTX.vfs, CTX.rnd = keep
        return out


# --------------------------------------------------------------------------
# simulated connections


class Conn:
    """one HTTP exchange of a client with the service"""

    def __init__(self, run, owner, method, path, query=b"", headers=(), body=b"", op=None):
        self.run, self.owner, self.op = run, owner, op or {}
        self.method, self.path, self.query = method, path, query
        self.headers = list(headers)
        self.body = body
        self.gone = None            # asyncio.Event: client has disconnected
        self.status = None
        self.rheaders = {}
        self.data = bytearray()
        self.complete = False
        self.ended = None           # sim time the service was done with the exchange
        self.started = None
        self.crashed = None         # exception the application raised
        self.own_delay = 0.0
        self.disconnected = False
        self.gave_up = False
        self.nmsg = 0
        self.on_data = None
        self.events = []            # (time, bytes) of body messages handed to send()
        self.body_sent = False
        self.rq = rng(run.plan["seed"], "conn", owner)

    def disconnect(self):
        if not self.disconnected and self.ended is None:
            self.disconnected = True
            self.gone.set()
            self.run.count("disconnect")

    async def _sleep(self, d):
        if d <= 0:
            return
        self.own_delay += d
        if self.disconnected:
            return
        try:
            await asyncio.wait_for(self.gone.wait(), d)
        except asyncio.TimeoutError:
            pass

    async def receive(self):
        op = self.op
        while True:
            if self.disconnected:
                return {"type": "http.disconnect"}
            if self.body_sent:
                await self.gone.wait()
                continue
            i = self.bi
            size = op.get("chunk") or max(1, len(self.body))
            if op.get("chunk") and len(self.body) // size > 400:
                size = len(self.body) // 400
            d = op.get("disc")
            sb = op.get("stallb")
            if sb and i == sb["n"] and not self.stalledb:
                self.stalledb = True
                self.run.count("stall-body")
                await self._sleep(sb["for"])
                continue
            if d and d["when"] == "body" and i >= min(d["n"], max(0, (len(self.body) - 1) // size)):
                self.disconnect()
                continue
            if op.get("bdelay"):
                await self._sleep(self.rq.random() * op["bdelay"] / max(1, min(40, len(self.body) // size)))
                if self.disconnected:
                    continue
            part = self.body[i * size:(i + 1) * size]
            self.bi += 1
            more = self.bi * size < len(self.body)
            if more and len(self.body) - self.bi * size < 8:
                # Werkzeug (not Spex) adds a byte to the content when the very last
                # bytes of the closing boundary arrive separately: keep them together
                part = self.body[i * size:]
                more = False
            self.body_sent = not more
            return {"type": "http.request", "body": part, "more_body": more}

    async def send(self, msg):
        op = self.op
        if self.ended is not None:
            raise HarnessError("send on a finished exchange")
        if self.disconnected:
            self.run.sent_after_disc += 1
            if msg["type"] == "http.response.body" and self.on_data:
                self.on_data(bytes(msg.get("body", b"")), True)
            return
        # the instant the service hands the message over
        if msg["type"] == "http.response.start":
            self.status = msg["status"]
            self.rheaders = {k.lower().decode("latin1"): v.decode("latin1") for k, v in msg["headers"]}
        elif msg["type"] == "http.response.body":
            if msg.get("body"):
                self.data += msg["body"]
                if self.on_data:
                    self.on_data(bytes(msg["body"]), False)
            if not msg.get("more_body", False):
                self.complete = True
        n = self.nmsg
        self.nmsg += 1
        d = op.get("disc")
        if d and d["when"] == "msg" and n == d["n"]:
            self.disconnect()
            return
        st = op.get("stall")
        if st and n == st["n"]:
            self.run.count("stall-read")
            try:
                await self._sleep(st["for"])
            except asyncio.CancelledError:
                self.gave_up = True
                raise
        if op.get("rdelay"):
            await self._sleep(self.rq.random() * op["rdelay"])
        else:
            # the transport takes a moment at times
            if self.rq.random() < 0.3:
                await asyncio.sleep(self.rq.random() * 0.002)

    async def go(self):
        self.gone = asyncio.Event()
        self.bi = 0
        self.stalledb = False
        self.started = CTX.clock.now
        d = self.op.get("disc")
        if d and d["when"] == "time":
            asyncio.get_running_loop().call_later(d["t"], self.disconnect)
        path = self.path
        scope = {
            "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1",
            "method": self.method, "scheme": "http", "path": path, "raw_path": path.encode("utf-8", "replace"),
            "query_string": self.query, "root_path": "", "headers": [(b"host", b"localhost:5050")] + self.headers,
            "client": ("127.0.0.1", 40000), "server": ("127.0.0.1", 5050), "extensions": {},
        }
        try:
            await self.run.app(scope, self.receive, self.send)
        except (SimCrash, HarnessError):
            raise
        except asyncio.CancelledError:
            self.gave_up = True
        except Exception as e:
            # the server closes the connection (and answers 500 if nothing was sent)
            self.crashed = repr(e)
            if self.status is None:
                self.status = 500
        finally:
            self.ended = CTX.clock.now
        return self

    @property
    def own_trouble(self):
        o = self.op
        return bool(self.disconnected or o.get("disc") or self.own_delay > QUICK_OWN_DELAY or o.get("stall") or
                    o.get("stallb") or self.run.faulted(self.owner))


BOUND = b"----simboundary7MA4YWxkTrZu0gW"


def multipart(name, data, field="document"):
    n = name.replace("\\", "\\\\").replace('"', "%22").replace("\r", "%0D").replace("\n", "%0A")
    return (b"--" + BOUND + b'\r\nContent-Disposition: form-data; name="' + field.encode() + b'"; filename="' +
            n.encode("utf-8", "replace") + b'"\r\nContent-Type: application/octet-stream\r\n\r\n' + data +
            b"\r\n--" + BOUND + b"--\r\n")


class Upload:
    def __init__(self, op, data, name):
        self.op, self.data, self.name = op, data, name
        self.conn = None
        self.buf = b""
        self.events = []        # decoded
        self.announced = None   # id
        self.announce_t = None
        self.bad = None
        self.lost_tail = False


class Epoch:
    def __init__(self):
        self.announced = {}     # id -> (bytes, first time)
        self.uploads = []
        self.reaped = []        # [id, suffix, from, to]: removed by the reaper, until announced again
        self.full = None


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.viol = []
        self.stats = {"faults": {}, "steps": 0, "probes": {}, "sim_s": 0.0}
        self.refs = Refs(self)
        self.sent_after_disc = 0
        self.trace = hashlib.sha256()
        self.log = [] if plan.get("debug") else None

    def bad(self, prop, msg):
        self.viol.append([prop, msg])

    def done(self):
        """the property looked at is broken: no need to go on"""
        f = self.plan.get("focus")
        return any(f is None or p == f for p, _ in self.viol)

    def probe(self, n, k=1):
        p = self.stats["probes"]
        p[n] = p.get(n, 0) + k

    def count(self, f, k=1):
        d = self.stats["faults"]
        d[f] = d.get(f, 0) + k

    # ---- disk ---------------------------------------------------------
    def classify(self, p):
        if p == "/work/spex.log":
            return "log"
        if p.startswith("/tmp/"):
            o = self.v.path_owner.get("/tmp/" + p[5:].split("/", 1)[0])
            return "store" if o == "startup" else "up"
        return "other"

    def owner_of(self, path):
        comps = path.split("/", 3)
        if len(comps) > 2 and comps[1] == "tmp":
            o = self.v.path_owner.get("/tmp/" + comps[2])
            if o is not None and o != "startup":
                return o
        return OWNER.get()

    def faulted(self, owner):
        return any(f[3] == owner and f[1] != "KILL" for f in self.v.fired) or (
            self.ep.full is not None and owner in self.full_hit)

    def new_disk(self):
        v = self.v = VFS(self.clock, self.classify, "/work", self.plan["blk"])
        v.owner_of = self.owner_of
        v.owner_fn = OWNER.get
        v.mkdirs("/work/models")
        v.mkdirs("/tmp")
        v.mkdirs("/etc")
        v.mkdirs("/home/u")
        self.planted = {}
        self.browser = {}
        os.environ.pop("SPEX_CACHE", None)
        if self.plan.get("cache") is not None:
            os.environ["SPEX_CACHE"] = self.plan["cache"]
        for p in ("/work/victim.html", "/work/victim.docx", "/work/victim.json", "/tmp/planted/spec.html",
                  "/tmp/planted/spec.docx", "/tmp/planted/x.html", "/etc/passwd", "/work/models/spec.json",
                  "/work/models/spec.html", "/tmp/spec.json", "/tmp/spec.html", "/tmp/x.html", "/tmp/tmpqqqqqqqq/spec.html",
                  "/work/spec.json", "/work/spec.html", "/work/spec.docx", "/work/spec.css", "/work/x.html",
                  "/etc/spec.html", "/home/u/spec.html", "/tmp/spex/cache.json"):
            if p.startswith("/tmp/") and rng(self.plan["seed"], "plant", p).random() < 0.3:
                continue
            v.put(p, (SECRET + " " + p).encode())
        self.planted = {p: b for p, b in v.snapshot("/").items()}
        v.keep_log = False

    # ---- main ---------------------------------------------------------
    def execute(self):
        plan = self.plan
        self.clock = CTX.clock = Clock(1_700_000_000.0 + derive(plan["seed"], "t0") % 10 ** 8)
        CTX.rnd = rng(plan["seed"], "rnd")
        self.rendered = [docgen.render(d) for d in plan["docs"]]
        self.ep = Epoch()
        self.full_hit = set()
        self.new_disk()
        self.dead_dirs = set()      # left by killed service processes
        self.old_ids = set()
        self.sample = 0
        # references of well-formed uploads are computed in pristine processes first
        CTX.vfs = self.v
        for ep in plan["epochs"]:
            for op in ep["ops"]:
                if op["kind"] == "upload":
                    data = content_bytes(op, plan["docs"], self.rendered)
                    for ext in ("docx", "html"):
                        if op["content"] != "doc" or ext == plan["docs"][op["doc"]]["style"]:
                            self.refs.get(data, ext, op["content"] == "odd")
        for d, b in zip(plan["docs"], self.rendered):
            self.refs.get(b, d["style"])
        self.refs.closed = True
        for n, ep in enumerate(plan["epochs"]):
            self.epoch(n, ep)
            if self.done():
                break
        CTX.vfs = None

    def ref_of(self, op, data, name):
        """reference of a well-formed upload; None: no well-formed upload"""
        if op["content"] != "doc" or "hostile" in op:
            return None
        return self.refs.get(data, self.plan["docs"][op["doc"]]["style"])

    def epoch(self, n, ep):
        plan, v = self.plan, self.v
        self.epn = n
        self.old_ids |= set(self.ep.announced)
        self.ep = Epoch()
        self.full_hit = set()
        v.frozen = False
        v.fired = []
        v.faults = []
        v.fds.clear()
        v.counts.clear()
        v.counts_any.clear()
        v.mutations = []
        v.capacity = None
        self.pre_tmp = set(p for p in v.snapshot("/tmp") if p.count("/") == 2)
        for op in ep["ops"]:
            for f in op.get("faults", ()):
                v.faults.append(dict(f, owner=op["id"]))
        if ep["end"] == "kill":
            k = ep["kill"]
            v.faults.append({"op": "*", "nth": k["nth"], "count": 1, "err": "KILL", "frac": k["frac"],
                             "after": k["after"], "any": True})
        cnt = [0]

        def tr(kind, path):
            cnt[0] += 1
            line = "%.9f %s %s\n" % (self.clock.now, kind, path)
            self.trace.update(line.encode("utf-8", "replace"))
            if self.log is not None:
                self.log.append(line[:-1] + " %s" % OWNER.get())
            if kind == "read":
                self.check_read(path)
            if plan["gc"] and cnt[0] % plan["gc"] == 0:
                gc.collect()
        v.trace = tr
        p = self.proc = Process(["spexsrv"])
        p.start()
        loop = bud = None
        killed = False
        graceful = True
        try:
            loop = SimLoop(rng(plan["seed"], "loop", n), plan["jobs"])
            asyncio.set_event_loop(loop)
            self.loop = loop
            try:
                from importlib import import_module
                tok = OWNER.set("startup")
                try:
                    self.app = import_module("spexsrv.application.app").app
                finally:
                    OWNER.reset(tok)
                if any(op.get("content") == "odd" for op in ep["ops"]):
                    bud = loop.budget = Budget(WORK, lambda at: self.bad(
                        "C07", "all clients wait while %s goes on and on (more than %d lines of code) for the upload "
                        "of %r" % (at, WORK, OWNER.get())))
                    bud.on()
                loop.run_until_complete(self.drive(ep))
                aclose_all(loop)
            except SimCrash:
                killed = True
            except SystemExit as e:
                raise HarnessError(str(e))
            if v.frozen:
                killed = True
            if loop.blocked > BLOCKED:
                self.bad("C07", "the service stood still for %.0f s: no client was answered" % loop.blocked)
            if not killed:
                loop.close()
        finally:
            if bud is not None:
                bud.off()
            if p.stdin.asked:
                self.bad("C07", "the service waits for input at its terminal")
            graceful = not killed
            self.app = None
            self.conns = None
            if killed and loop is not None:
                loop._ready.clear()
                loop._scheduled.clear()
                loop._asyncgens.clear()
                try:
                    loop.close()
                except Exception:
                    pass
            self.loop = None
            asyncio.set_event_loop(None)
            del loop
            p.finish(graceful)
        for con in (p.out, p.err):
            if con.fired:
                self.count("console", con.fired)
        if killed:
            self.count("kill")
            v.frozen = False
            self.probe("killed")
        for f in v.fired:
            if f[1] != "KILL":
                self.count("%s:%s" % (f[0], f[1]))
        # after the end of the service
        snap = v.snapshot("/")
        self.check_paths(snap)
        if not killed and not self.done():
            left = [q for q in snap if q.startswith("/tmp/") and q.count("/") == 2 and q not in self.pre_tmp]
            left = [q for q in left if not self.excused(q)]
            if left:
                self.bad("C05", "after shutdown %s of %r remains in temporary storage" % (
                    left[0], self.v.path_owner.get(left[0])))
        for q in snap:
            self.trace.update(q.encode("utf-8", "replace") + (snap[q] or b"-"))

    def excused(self, path):
        """temporary entry whose own clean-up was hit by an injected error"""
        top = "/" + "/".join(path.split("/")[1:3])
        o = self.v.path_owner.get(top)
        if o is None:
            # a file directly below /tmp
            node = self.v.find(top)
            o = node.owner if node is not None else None
        return any(f[3] == o and f[0] in ("unlink", "rmdir", "list", "open", "stat", "chmod", "create")
                   for f in self.v.fired if o != "startup") or (
            o == "startup" and any(f[2] == "store" for f in self.v.fired))

    # ---- containment ----------------------------------------------------
    def check_read(self, p):
        """nothing of the files which are neither the service's nor a client's"""
        if p in self.planted:
            self.bad("C04", "read of %s while handling %r" % (p, OWNER.get()))

    def check_paths(self, snap):
        for kind, p in self.v.mutations:
            if p == "/work/spex.log":
                continue
            if p.startswith("/tmp/"):
                top = p[5:].split("/", 1)[0]
                if "/tmp/" + top not in self.planted and any(nm in top for nm in TempNames.issued):
                    continue
            self.bad("C04", "%s of %s" % (kind, p))
            return
        self.v.mutations = []
        for q, b in self.planted.items():
            if snap.get(q, 0) != b:
                self.bad("C04", "%s was %s" % (q, "removed" if q not in snap else "changed"))
                return

    # ---- one service run --------------------------------------------------
    async def drive(self, ep):
        loop = asyncio.get_running_loop()
        self.tasks = []
        self.watch = []
        self.conns = []
        self.closing = False
        # lifespan
        q = asyncio.Queue()
        up, down = asyncio.Event(), asyncio.Event()
        self.life_fail = None

        async def lsend(m):
            if m["type"].endswith("failed"):
                self.life_fail = m
            if m["type"].startswith("lifespan.startup"):
                up.set()
            else:
                down.set()
        life = as_owner("startup", lambda: self.app(
            {"type": "lifespan", "asgi": {"version": "3.0"}}, q.get, lsend))
        life.add_done_callback(lambda t: (up.set(), down.set()))
        await q.put({"type": "lifespan.startup"})
        await up.wait()
        if life.done() or self.life_fail:
            self.bad("C07", "service does not start: %s" % (self.life_fail or life.exception(),))
            return
        if ep.get("con"):
            self.proc.out.fault, self.proc.err.fault = dict(ep["con"]), dict(ep["con"])
        t0 = CTX.clock.now
        ends = []
        for op in sorted(ep["ops"], key=lambda o: (o["at"], o["id"])):
            ends.append(as_owner(op["id"], lambda op=op: self.do_op(op, t0)))
        extra = []
        if ep.get("full"):
            extra.append(loop.create_task(self.do_full(ep["full"], t0)))
        for rp in ep.get("reap", ()):
            extra.append(loop.create_task(self.do_reap(rp, t0)))
        if ep.get("wall"):
            extra.append(loop.create_task(self.do_wall(ep["wall"], t0)))
        if ep["end"] == "busy":
            await asyncio.sleep(max([o["at"] for o in ep["ops"]] + [0.0]) * 0.8)
        else:
            for t in extra:
                await t
            deadline = max([t0 + o["at"] for o in ep["ops"]] + [CTX.clock.now]) + DRAIN
            while CTX.clock.now < deadline:
                pend = [t for t in ends + self.watch if not t.done()]
                if not pend:
                    break
                await asyncio.wait(pend, timeout=deadline - CTX.clock.now + 0.001)
            self.v.faults = [f for f in self.v.faults if f.get("any")]
            self.v.capacity = None
            if ep.get("idle"):
                await asyncio.sleep(ep["idle"])
            await self.settle_and_check(ends)
        # shutdown as the server does it: wait for exchanges, cancel what is left
        self.closing = True
        rest = [t for t in ends + self.watch if not t.done()]
        if rest:
            await asyncio.wait(rest, timeout=3.0)
        for t in extra + ends + self.watch:
            if not t.done():
                t.cancel()
        await asyncio.gather(*(extra + ends + self.watch), return_exceptions=True)
        for t in ends + self.watch:
            if t.done() and not t.cancelled() and t.exception() is not None:
                raise t.exception()
        await q.put({"type": "lifespan.shutdown"})
        await down.wait()
        if self.life_fail:
            self.bad("C05", "service shutdown failed: %r" % (self.life_fail,))
        await asyncio.wait([life], timeout=1.0)
        self.tasks = self.watch = self.conns = None

    async def do_full(self, f, t0):
        await asyncio.sleep(max(0.0, t0 + f["at"] - CTX.clock.now))
        self.ep.full = f
        self.full_from = CTX.clock.now
        self.v.capacity = self.v.used + f["room"]
        self.count("disk-full")
        for c in self.conns:
            if c.ended is None:
                self.full_hit.add(c.owner)
        await asyncio.sleep(f["until"] - f["at"])
        self.v.capacity = None

    async def do_wall(self, w, t0):
        await asyncio.sleep(max(0.0, t0 + w["at"] - CTX.clock.now))
        CTX.clock.skew += w["by"]
        self.count("clock-set")

    def store_files(self):
        out = []
        for p, b in self.v.snapshot("/tmp").items():
            if b is not None and self.classify(p) == "store":
                out.append(p)
        return out

    async def do_reap(self, rp, t0):
        await asyncio.sleep(max(0.0, t0 + rp["at"] - CTX.clock.now))
        fs = self.store_files()
        if rp["what"] == "one" and fs:
            fs = [fs[int(rp["pick"] * len(fs))]]
        for p in fs:
            suf = "." + p.rsplit(".", 1)[-1]
            if rp["what"] in ("json", "html") and suf != "." + rp["what"]:
                continue
            stem = p.rsplit("/", 1)[-1][: -len(suf)]
            parent = self.v.find(p.rsplit("/", 1)[0])
            del parent.children[p.rsplit("/", 1)[1]]
            for w in self.ep.reaped:
                if w[:2] == [stem, suf]:
                    w[3] = min(w[3], CTX.clock.now)
            self.ep.reaped.append([stem, suf, CTX.clock.now, float("inf")])
            self.count("reaped-file")

    # ---- operations ---------------------------------------------------
    async def do_op(self, op, t0):
        await asyncio.sleep(max(0.0, t0 + op["at"] - CTX.clock.now))
        if self.v.capacity is not None:
            self.full_hit.add(op["id"])
        self.stats["steps"] += 1
        if op["kind"] == "upload":
            await self.do_upload(op)
        elif op["kind"] == "fetch":
            await self.do_fetch(op)
        else:
            await self.do_junk(op)

    def post(self, owner, body, op, accept=b"text/event-stream", ctype=None):
        h = [(b"content-type", ctype or b"multipart/form-data; boundary=" + BOUND),
             (b"content-length", str(len(body)).encode())]
        if accept:
            h.append((b"accept", accept))
        c = Conn(self, owner, "POST", "/parse", headers=h, body=body, op=op)
        self.conns.append(c)
        return c

    async def do_upload(self, op, owner=None):
        data = content_bytes(op, self.plan["docs"], self.rendered)
        name = names_of(op, self.plan["docs"])
        u = Upload(op, data, name)
        u.ref = self.ref_of(op, data, name)
        u.start = CTX.clock.now
        c = u.conn = self.post(op["id"] if owner is None else owner, multipart(name, data), op)
        c.on_data = lambda b, lost: self.on_events(u, b, lost)
        self.ep.uploads.append(u)
        await c.go()
        self.check_upload(u)
        return u

    def on_events(self, u, b, lost):
        """called at the instant the service emits bytes of an upload's stream"""
        if u.conn.status != 200:
            return
        u.buf += b
        while b"\n\n" in u.buf:
            raw, u.buf = u.buf.split(b"\n\n", 1)
            try:
                if not raw.startswith(b"data: "):
                    raise ValueError
                ev = json.loads(raw[6:])
            except ValueError:
                u.bad = "event stream holds %r" % raw[:80]
                continue
            u.events.append(ev)
            if isinstance(ev, dict) and ev.get("type") == "report-completed" and u.announced is None:
                m = re.search(r"/report/([^/?#]+)$", str(ev.get("url")))
                if not m:
                    u.bad = "completion without a report link: %r" % ev
                    continue
                u.announced = m.group(1)
                u.announce_t = CTX.clock.now
                self.announce(u)

    def announce(self, u):
        i = u.announced
        self.probe("announced")
        other = self.ep.announced.get(i)
        if other is not None and other[0] != u.data:
            self.bad("C01", "uploads with different bytes (%r) share report %s" % (u.name, i))
        if other is None:
            self.ep.announced[i] = (u.data, CTX.clock.now)
        else:
            self.probe("same-content-again")
        for w in self.ep.reaped:
            if w[0] == i and w[3] == float("inf"):
                w[3] = CTX.clock.now
        if u.ref is None and u.op["content"] == "doc" and "hostile" in u.op:
            self.probe("hostile-completed")
        # probe the link at this very instant
        if rng(self.plan["seed"], "watch", u.conn.owner).random() < 0.5:
            self.sample += 1
            what = ["report", "json", "html"]
            rng(self.plan["seed"], "watchwhat", u.conn.owner).shuffle(what)
            for w in what[:2]:
                self.watch.append(as_owner("watch%d%s" % (self.sample, w), lambda w=w, n="watch%d%s" % (
                    self.sample, w): self.view(n, w, i, "C03")))

    def check_upload(self, u):
        c, op = u.conn, u.op
        ev = u.events
        where = "upload %s (%r)" % (op["id"], u.name)
        if c.status == 200:
            self.check_events(u, where)
        # response
        trouble = c.own_trouble or c.gave_up
        if not trouble and u.bad is None and u.buf and c.complete:
            self.bad("C03", "%s: event stream ends in the middle of an event" % where)
        if u.ref is not None:
            if not trouble:
                if c.crashed or c.status != 200 or not c.complete or u.announced is None:
                    self.bad("C07", "%s of a valid document by an undisturbed client: status %s, %d events, %s" % (
                        where, c.status, len(ev), c.crashed or ("stream ended without completion" if c.complete else
                                                               "stream cut")))
                else:
                    self.probe("upload-ok")
            elif u.announced is not None:
                self.probe("upload-ok-despite-trouble")
            else:
                self.probe("upload-failed-in-trouble")
        elif op["content"] != "doc" and u.announced is not None:
            # whatever the file name makes the service take the bytes for
            if not self.refs.all(u.data):
                self.bad("C03", "%s: completion announced for content that cannot be converted" % where)
        if c.status is not None and u.ref is None and u.announced is None:
            self.probe("refused-or-failed")
        self.check_prompt(c, where)
        lim = c.own_delay if c.own_delay < 1e6 else STALL_LIMIT * 2
        if c.ended - c.started > lim + STALL_LIMIT * 2:
            self.bad("C07", "%s took %.1f s" % (where, c.ended - c.started))

    def check_prompt(self, c, where):
        """nothing but its own doings keeps a client waiting"""
        t = c.ended - c.started
        own = c.own_delay + self.loop.job_time.get(c.owner, 0.0)
        if not c.own_trouble and not self.closing and t > own + OTHERS_LIMIT:
            self.bad("C07", "%s took %.1f s, of which %.1f s its own" % (where, t, own))

    def check_events(self, u, where):
        if u.bad:
            self.bad("C03", "%s: %s" % (where, u.bad))
            return
        phase, nxt, total, done = None, 0, None, False
        order = {"html": 0, "json": 1}
        for ev in u.events:
            if done:
                self.bad("C03", "%s: event after completion: %r" % (where, ev))
                return
            t = ev.get("type")
            if t == "report-completed":
                done = True
                continue
            if t != "progress-update" or ev.get("phase") not in order:
                self.bad("C03", "%s: unknown event %r" % (where, ev))
                return
            if ev["phase"] != phase:
                if phase is not None and order[ev["phase"]] < order[phase]:
                    self.bad("C03", "%s: HTML phase after JSON phase" % where)
                    return
                phase, nxt, total = ev["phase"], 0, ev["num_figs"]
            if ev["fig_ndx"] != nxt or ev["num_figs"] != total:
                self.bad("C03", "%s: progress %r, expected index %d of %r" % (where, ev, nxt, total))
                return
            nxt += 1

    # ---- views ----------------------------------------------------------
    async def do_fetch(self, op):
        ids = sorted(set(self.ep.announced) | set(u.announced or hashlib.md5(u.data).hexdigest()
                                                  for u in self.ep.uploads) | self.old_ids)
        if "raw" in op:
            base = ids[int(op["of"] * len(ids))] if ids else "0" * 32
            i = op["raw"]
            if "{" in i:
                i = i.format(id=base, ID=base.upper(), id8=base[:8])
        elif "ofdoc" in op:
            data = self.rendered[op["ofdoc"]]
            i = next((k for k, v in sorted(self.ep.announced.items()) if v[0] == data), hashlib.md5(data).hexdigest())
        elif ids:
            i = ids[int(op["of"] * len(ids))]
        else:
            # content not seen by this service run so far
            i = hashlib.md5(self.rendered[int(op["of"] * len(self.rendered))]).hexdigest()
        await self.view(op["id"], op["what"], i, "C02", op)

    async def view(self, owner, what, i, prop, op=None):
        what, _, q = what.partition("?")
        method = (op or {}).get("method", "GET")
        path, hdrs, have, cond = "/%s/%s" % (what, i), [], None, (op or {}).get("cond")
        if cond == "have":
            # kept by the browser from an earlier answer, maybe of an earlier service run
            have = self.browser.get((path, q))
            if have:
                hdrs = [(k, v.encode("latin1")) for k, v in have[1]]
        elif cond == "range":
            a = int(op["of"] * 40)
            hdrs = [(b"range", b"bytes=%d-%d" % (a, a + 30))]
        c = Conn(self, owner, method, path, query=q.encode(), headers=hdrs, op=op)
        self.conns.append(c)
        known0 = i in self.ep.announced
        full0 = self.v.capacity is not None
        if full0:
            self.full_hit.add(owner)
        await c.go()
        if c.status == 304 and have and i in self.ep.announced:
            self.probe("not-modified")
            c.status, c.data, c.complete = 200, bytearray(have[0]), True
            c.rheaders.pop("content-length", None)
        elif c.status == 206 and cond == "range" and what == "json" and i in self.ep.announced:
            self.probe("partial")
            js = self.expected(self.ep.announced[i][0])[0]
            if c.complete and js is not None and bytes(c.data) != js[a:a + 31]:
                self.bad("C02", "%s: wrong part served" % path)
            return c
        elif c.status == 200 and c.complete and method == "GET" and not c.disconnected:
            val = [(k, c.rheaders[h]) for k, h in ((b"if-none-match", "etag"), (b"if-modified-since", "last-modified"))
                   if h in c.rheaders]
            if val:
                self.browser[(path, q)] = (bytes(c.data), val)
        self.check_view(c, what, i, known0, prop, bundle=bool(q))
        return c

    def reaped(self, i, what, t0, t1):
        """were files of the report removed during [t0, t1]? None, "some" or "all" of the time"""
        need = {"report": (".json", ".html"), "json": (".json",), "html": (".html",)}[what]
        res = None
        for j, suf, a, b in self.ep.reaped:
            if j == i and suf in need and a <= t1 and b >= t0:
                # an upload may have put it back without living to announce it
                back = any(p.endswith("/" + i + suf) for p in self.store_files())
                if a < t0 and b > t1 and not back:
                    return "all"
                res = "some"
        return res

    def check_view(self, c, what, i, known0, prop, bundle=False):
        where = "%s of /%s/%s" % (c.method, what, i[:60])
        if self.closing:
            # cut off by the shutdown; what was sent in full must still be right
            if c.status == 200 and c.complete and c.method == "GET" and i in self.ep.announced and (
                    not self.faulted(c.owner)):
                self.check_body(c, what, i, where, prop)
            return
        if c.ended - c.started > min(c.own_delay, 1e6) + STALL_LIMIT * 2:
            self.bad("C07", "%s took %.1f s" % (where, c.ended - c.started))
        self.check_prompt(c, where)
        known = i in self.ep.announced
        own = self.run_faulted(c)
        if c.status == 200 and not known:
            self.bad("C06", "%s answered 200 for a report never announced%s" % (
                where, " in this service run" if i in self.old_ids else ""))
            self.bad("C03", "%s answered 200 although no upload of that content completed" % where)
            return
        if not known:
            if c.status is None and (c.disconnected or own):
                return
            if c.status != 404 and not own:
                self.bad("C06", "%s of an unknown report answered %s %s" % (where, c.status, c.crashed or ""))
            elif c.status == 404:
                self.probe("unknown-404")
            return
        if not known0:
            # announced while the request was under way: either answer will do
            if c.status not in (200, 404) and not own and not c.disconnected and c.status is not None:
                self.bad("C06", "%s answered %s %s" % (where, c.status, c.crashed or ""))
            if c.status != 200:
                return
        gone = self.reaped(i, what, c.started, c.ended)
        if gone == "all":
            if c.status not in (404,) and not own and not (c.disconnected and c.status is None):
                self.bad("C06", "%s of a report whose files were removed answered %s %s" % (
                    where, c.status, c.crashed or ""))
            elif c.status == 404:
                self.probe("removed-404")
        if gone:
            return
        if own or c.disconnected or c.own_delay > QUICK_OWN_DELAY or c.op.get("stall") or c.op.get("disc"):
            if c.status == 200 and c.complete and c.method == "GET" and not own:
                self.check_body(c, what, i, where, prop)
            return
        if c.status != 200 or not c.complete or c.crashed:
            msg = "%s of an announced report answered %s %s" % (where, c.status, c.crashed or
                                                                ("" if c.complete else "(cut)"))
            self.bad(prop, msg)
            if prop == "C03":
                self.bad("C02", msg)
            if self.ep.announced[i][1] == CTX.clock.now and prop != "C03":
                self.bad("C03", msg)
            self.bad("C07", msg)
            return
        cl = c.rheaders.get("content-length")
        if c.method == "GET":
            if cl is not None and int(cl) != len(c.data):
                self.bad("C02", "%s: content-length %s but %d bytes" % (where, cl, len(c.data)))
                self.bad("C07", "%s: content-length %s but %d bytes" % (where, cl, len(c.data)))
                return
            self.check_body(c, what, i, where, prop)
            self.probe("view-ok")

    def run_faulted(self, c):
        return self.faulted(c.owner)

    def expected(self, data):
        """-> (json bytes, {html bytes}) over the file names these bytes came with"""
        rs = self.refs.all(data)
        return (rs[0][0] if rs else None), {r[1] for r in rs}

    def check_body(self, c, what, i, where, prop):
        data = self.ep.announced[i][0]
        js, hs = self.expected(data)
        if js is None:
            return
        body = bytes(c.data)
        cl = c.rheaders.get("content-length")
        msg = None
        if what == "json":
            if body != js:
                msg = "%s is not the model of the uploaded document (%d bytes, expected %d)" % (where, len(body), len(js))
            else:
                d = next((k for k, b in enumerate(self.rendered) if b == data), None)
                if d is not None:
                    df = diff_json(json.loads(body), Model(self.plan["docs"][d]))
                    if df:
                        msg = "%s: %s" % (where, df)
        elif what == "html":
            if norm_html(body, data) not in {norm_html(h, data) for h in hs}:
                msg = "%s is not the HTML of the uploaded document" % where
        else:
            msg = self.check_page(body, js, hs, where)
        if msg:
            self.bad("C01", msg)
            self.bad("C02", msg)
            if prop == "C03":
                self.bad("C03", msg)

    def check_page(self, body, js, hs, where):
        from lxml import etree
        txt = body.decode("utf-8")

        def grab(name):
            k = txt.find("const %s = " % name)
            if k < 0:
                return None
            return json.JSONDecoder().raw_decode(txt, k + len("const %s = " % name))[0]
        rep = grab("report")
        if rep is None:
            return None if "tok" not in txt else None
        want = json.loads(js)
        if rep != want:
            return "%s does not show the model and findings of the uploaded document" % where
        figs = {x["fig"].split("_")[0] for x in want["meta"]["lint"]}
        shown = grab("erroneous_figure_ids")
        if shown is not None and set(shown) != figs:
            return "%s lists figures %r instead of %r" % (where, sorted(shown), sorted(figs))
        html = grab("report_html")
        if html is None:
            return None
        h = etree.fromstring(sorted(hs)[0], etree.XMLParser(resolve_entities=False))
        tabs = {}
        for t in h.iterfind("./body/table"):
            if t.get("id"):
                tabs.setdefault(t.get("id"), t)

        def text(e):
            return re.sub(r"\s+", "", "".join(e.itertext()))
        for f, frag in html.items():
            t = tabs.get(f)
            if t is None:
                return "%s shows figure %s which the document does not have" % (where, f)
            try:
                e = etree.fromstring(frag, etree.XMLParser(resolve_entities=False))
            except etree.XMLSyntaxError:
                continue
            if text(e) != text(t):
                return "%s shows another figure as figure %s" % (where, f)
        for f in figs:
            if f in tabs and f not in html:
                return "%s does not show figure %s" % (where, f)
        self.probe("page-figures", len(html))
        return None

    async def do_junk(self, op):
        w = op["what"]
        o = op["id"]
        if w == "nodoc":
            c = self.post(o, multipart("a.html", b"x", field="other"), op)
        elif w == "noaccept":
            c = self.post(o, multipart("a.html", b"x"), op, accept=b"application/json")
        elif w == "notmultipart":
            c = self.post(o, b"a=1&b=2", op, ctype=b"application/x-www-form-urlencoded")
        elif w == "badboundary":
            c = self.post(o, b"--nope\r\n\r\nxx" * 50, op)
        elif w == "big":
            c = self.post(o, b"", op)
            c.headers = [h for h in c.headers if h[0] != b"content-length"] + [(b"content-length", b"99999999999")]
        else:
            path = {"get": "/parse", "index": "/", "static": "/static/../../../etc/passwd"}[w]
            c = Conn(self, o, "GET", path, op=op)
            self.conns.append(c)
        await c.go()
        if w == "index" and not c.own_trouble and (c.status != 200 or not c.complete):
            self.bad("C07", "index page answered %s %s" % (c.status, c.crashed or ""))
        if w == "static" and c.status == 200:
            self.bad("C06", "file outside the service served")
        self.probe("junk")

    # ---- when faults have stopped -----------------------------------------
    async def settle_and_check(self, ends):
        loop = asyncio.get_running_loop()
        stuck = [c for c in self.conns if c.started is not None and c.ended is None]
        if stuck:
            self.bad("C07", "%s %s still not ended %.0f s after it began" % (
                stuck[0].method, stuck[0].path[:60], CTX.clock.now - stuck[0].started))
            return
        for t in ends + self.watch:
            if t.done() and not t.cancelled() and t.exception() is not None:
                raise t.exception()
        if self.done():
            return
        # pending clean-up work: jobs of executors, generators awaiting finalization
        for _ in range(3):
            await asyncio.sleep(5.0)
            gc.collect()
        await asyncio.sleep(5.0)
        self.check_leaks()
        # every announced report is still there
        for i in sorted(self.ep.announced):
            for w in ("report", "json", "html"):
                self.sample += 1
                n = "late%d" % self.sample
                await as_owner(n, lambda: self.view(n, w, i, "C02"))
                if self.done():
                    return
        # failed ones are not
        for u in self.ep.uploads:
            i = hashlib.md5(u.data).hexdigest()
            if u.announced is None and i not in self.ep.announced:
                self.sample += 1
                n = "late%d" % self.sample
                w = ("report", "json", "html")[self.sample % 3]
                await as_owner(n, lambda: self.view(n, w, i, "C03"))
        for i in sorted(self.old_ids - set(self.ep.announced)):
            self.sample += 1
            n = "late%d" % self.sample
            w = ("report", "json", "html")[self.sample % 3]
            await as_owner(n, lambda: self.view(n, w, i, "C06"))
            self.probe("old-id")
        if self.done():
            return
        # a fresh upload of a valid document works without a restart
        op = {"id": "fresh%d" % self.epn, "kind": "upload", "doc": self.epn % len(self.rendered), "content": "doc",
              "name": "fresh", "chunk": 0}
        u = await as_owner(op["id"], lambda: self.do_upload(op))
        if u.announced is None:
            if not self.done():
                self.bad("C07", "a fresh upload after faults stopped does not complete: %s %s" % (
                    u.conn.status, u.conn.crashed))
            return
        for w in ("report", "json", "html"):
            self.sample += 1
            n = "late%d" % self.sample
            await as_owner(n, lambda: self.view(n, w, u.announced, "C07"))
        for t in self.watch:
            if not t.done():
                await t
        self.probe("fresh-ok")
        await asyncio.sleep(5.0)
        gc.collect()
        await asyncio.sleep(5.0)
        self.check_leaks()

    def check_leaks(self):
        v = self.v
        for p in v.snapshot("/tmp"):
            if p.count("/") != 2 or p in self.pre_tmp:
                continue
            o = v.path_owner.get(p)
            if o == "startup" or self.excused(p):
                continue
            self.bad("C05", "%s of upload %s is still there after the upload ended" % (p, o))
            return
        for fd, of in sorted(v.fds.items()):
            if of.owner in (None, "startup") or of.path == "/work/spex.log":
                continue
            if any(f[3] == of.owner and f[0] == "close" for f in v.fired):
                continue
            self.bad("C05", "file handle on %s opened for %s is still open" % (of.path, of.owner))
            return
        self.probe("no-leaks")


def run(plan):
    plan = copy.deepcopy(plan)
    r = Run(plan)
    try:
        r.execute()
    finally:
        CTX.vfs = None
    r.stats["sim_s"] = r.clock.now
    shape = json.dumps([[[(o["kind"], o.get("what"), o.get("content"), o.get("hostile"), "disc" in o, "stall" in o,
                           "faults" in o) for o in e["ops"]], e["end"]] for e in plan["epochs"]])
    return {"viol": r.viol, "stats": r.stats, "trace": r.trace.hexdigest(), "resolved": None, "log": r.log,
            "shape": hashlib.sha256(shape.encode()).hexdigest()[:16]}
