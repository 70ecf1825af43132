"""The pool of run servers the driver talks to."""
import json
import os
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = int(os.environ.get("VERIF_WORKERS", 8))
PY = sys.executable


def hashseed(seed, w):
    return (int(seed) * 1000003 + w * 7919 + 17) % 4294967295


class Worker:
    def __init__(self, prop, seed_value):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(seed_value)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["TZ"] = "UTC"
        env["LC_ALL"] = "C.UTF-8"
        self.hashseed = seed_value
        self.lock = threading.Lock()
        self.p = subprocess.Popen([PY, "-B", "-m", "sim.worker", prop], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True)
        hello = self.p.stdout.readline()
        if not hello:
            raise RuntimeError("a simulation worker did not start")
        json.loads(hello)

    def ask(self, req):
        with self.lock:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        if not line:
            return {"harness": "worker died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()


def start(prop, seed, n=NWORK):
    out = [None] * n
    errs = []

    def one(i):
        try:
            out[i] = Worker(prop, hashseed(seed, i))
        except Exception as e:
            errs.append(e)

    ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out
