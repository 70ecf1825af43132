"""Run a function in a pristine forked process and return its JSON result (a process that crashed and restarted)."""
import json
import os
import traceback

from . import boot


class LibraryError(Exception):
    """The isolated function ended with an exception that came out of the library under test."""


def through_library(e):
    """Was the exception raised while library code was executing (by the library or by what it called)?"""
    tb = traceback.extract_tb(e.__traceback__)
    return any(f.filename.startswith(boot.OWLRL_DIR) for f in tb)


def site(e):
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if f.filename.startswith(boot.OWLRL_DIR):
            return " at %s:%s" % (f.filename[len(boot.OWLRL_DIR):], f.name)
    return ""


def in_fork(fn, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = {"ok": fn(*args)}
            except BaseException as e:
                out = {"err": "%s: %s%s" % (type(e).__name__, str(e)[:400], site(e)), "tb": traceback.format_exc()[-2500:],
                       "lib": through_library(e) or isinstance(e, LibraryError)}
            data = json.dumps(out, default=str).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    out = json.loads(buf)
    if "err" in out:
        if out["lib"]:
            raise LibraryError("uncaught " + out["err"])
        raise RuntimeError("isolated run: %s\n%s" % (out["err"], out["tb"]))
    return out["ok"]
