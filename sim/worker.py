"""One simulated-run server: a process with a fixed PYTHONHASHSEED that forks a pristine child for every run.

stdin: one JSON request per line  {"prop", "op": "gen"|"run"|"genrun", "idx", "tier", "seed", "scen", "timeout", "linebudget"}
stdout: one JSON reply per line.
"""
import importlib
import json
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import boot, core, isolate

TOOL = 3
_hits = {}
_last = [None]


class LineBudget(BaseException):
    pass


def _cover(code, line):
    fn = code.co_filename
    if fn.startswith(boot.OWLRL_DIR):
        _hits.setdefault(fn[len(boot.OWLRL_DIR):], set()).add(line)
    return sys.monitoring.DISABLE


def start_cover():
    m = sys.monitoring
    m.use_tool_id(TOOL, "simcover")
    m.register_callback(TOOL, m.events.LINE, _cover)
    m.set_events(TOOL, m.events.LINE)


def stop_cover():
    sys.monitoring.set_events(TOOL, 0)


def start_budget(n):
    m = sys.monitoring
    left = [n]

    def cb(code, line):
        if not code.co_filename.startswith(boot.OWLRL_DIR):
            return m.DISABLE
        left[0] -= 1
        if left[0] < 0:
            raise LineBudget("more than %d lines of library code" % n)

    m.use_tool_id(TOOL, "simbudget")
    m.register_callback(TOOL, m.events.LINE, cb)
    m.set_events(TOOL, m.events.LINE)


def rng_for(prop, seed, idx):
    return random.Random("%s:%s:%s" % (prop, seed, idx))


def library_failure(e):
    """An exception that came out of the library (and that the property module did not expect) is a finding, not a harness failure."""
    if isinstance(e, isolate.LibraryError):
        return str(e)[:900]
    if isinstance(e, MemoryError) or not isolate.through_library(e):
        return None
    return "uncaught %s: %s%s" % (type(e).__name__, str(e)[:300], isolate.site(e))


def do(req):
    prop = importlib.import_module("sim.props." + req["prop"].lower())
    scen = req.get("scen")
    if scen is None:
        scen = prop.gen(rng_for(req["prop"], req["seed"], req["idx"]), req["idx"], req.get("tier", "quick"))
    scen = json.loads(json.dumps(scen))
    _last[0] = scen
    if req["op"] == "gen":
        return {"scen": scen}
    random.seed("code under test")
    if req.get("linebudget"):
        start_budget(req["linebudget"])
        try:
            res = prop.run(scen)
        except LineBudget as e:
            res = {"viol": [["hang", "the call does not finish: %s" % e]], "stats": {}, "digest": "hang"}
    else:
        start_cover()
        res = prop.run(scen)
        stop_cover()
    if any(v[0] == "budget" for v in res.get("viol", ())) and scen.get("triples") and scen.get("profile") and core.oversized(scen):
        res["viol"] = [v for v in res["viol"] if v[0] != "budget"]
        res["stats"] = dict(res.get("stats") or {}, outside_domain=1)
        res["nontrivial"] = False
    res["lines"] = {k: sorted(v) for k, v in _hits.items()}
    if res.get("viol") or req.get("keep"):
        res["scen"] = scen
    return res


def fork_run(req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            try:
                out = do(req)
            except BaseException as e:
                lib = library_failure(e)
                if lib:
                    out = {"viol": [["exception", lib]], "stats": {}, "digest": "exception", "scen": req.get("scen") or _last[0]}
                else:  # the harness itself failed
                    out = {"harness": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-3000:]}
            data = json.dumps(out, default=str).encode()
            data = struct.pack("<Q", len(data)) + data
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + req.get("timeout", 90)
    out = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            out = {"timeout": True}
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if out is not None:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if out is None:
        if len(buf) >= 8 and len(buf) == 8 + struct.unpack("<Q", buf[:8])[0]:
            out = json.loads(buf[8:])
        else:
            out = {"harness": "child ended with status %d and %d bytes" % (status, len(buf))}
    return out


def main():
    prop = sys.argv[1]
    importlib.import_module("sim.props." + prop.lower())
    import gc

    gc.collect()
    gc.freeze()
    seen = {}
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    real.write(json.dumps({"ready": os.getpid(), "hashseed": os.environ.get("PYTHONHASHSEED")}) + "\n")
    real.flush()
    for line in sys.stdin:
        req = json.loads(line)
        out = fork_run(req)
        if "lines" in out:
            new = {}
            for f, ls in out["lines"].items():
                s = seen.setdefault(f, set())
                d = [x for x in ls if x not in s]
                if d:
                    new[f] = d
                    s.update(d)
            out["nlines"] = sum(len(v) for v in out["lines"].values())
            out["lines"] = new
        real.write(json.dumps(out) + "\n")
        real.flush()


if __name__ == "__main__":
    main()
