"""A worker process: loads everything once, then executes each requested run in a fork
of that pristine state. One request per input line, one result per output line."""
import gc
import importlib
import json
import os
import resource
import select
import signal
import sys
import time as _time

REAL_TIME = _time.monotonic
WORLDS = {"cli": "sim.world_cli", "web": "sim.world_web", "mix": "sim.world_mix"}


def drop_privileges():
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass


def child(req, fd):
    try:
        w = importlib.import_module(WORLDS[req["world"]])
        plan = req.get("plan") or w.make_plan(req["seed"], req.get("focus"))
        if req.get("plan_only"):
            res = {"plan": plan}
        else:
            res = w.run(plan)
            if res["viol"] or req.get("want_plan"):
                res["plan"] = plan
    except BaseException:
        import traceback
        from sim.seams import CTX
        CTX.vfs = CTX.clock = None
        res = {"error": traceback.format_exc()[-3000:]}
    from sim.seams import CTX
    CTX.vfs = CTX.clock = None
    data = json.dumps(res, default=str).encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]


def run_forked(req, limit):
    t0 = REAL_TIME()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            child(req, w)
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    while True:
        left = limit - (REAL_TIME() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"timeout": True, "wall": REAL_TIME() - t0}
        ok, _, _ = select.select([r], [], [], left)
        if ok:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        res = json.loads(bytes(buf))
    except ValueError:
        res = {"error": "run ended abnormally (status %d)" % st}
    res["wall"] = REAL_TIME() - t0
    return res


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = os.fdopen(os.dup(1), "wb", buffering=0)
    os.dup2(2, 1)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from sim import seams
    seams.install()
    from sim import procsim
    for m in WORLDS.values():
        importlib.import_module(m)
    procsim.preload()
    importlib.import_module("sim.warm").warm()
    drop_privileges()
    gc.disable()
    procsim.settle()
    out.write(b'{"ready": true}\n')
    for line in sys.stdin.buffer:
        req = json.loads(line)
        res = run_forked(req, req.get("limit", 90))
        res["n"] = req.get("n")
        out.write(json.dumps(res).encode() + b"\n")


if __name__ == "__main__":
    main()
