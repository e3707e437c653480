"""C14: downloading the IRFs is atomic and can be repeated."""
import errno
import gzip
import io
import os
import pathlib
import random
import re
import runpy
import shutil
import signal
import struct
import sys
import tarfile
import tempfile
import time
import zipfile
import zlib

import requests
import requests.adapters
import urllib3
from urllib3.response import HTTPResponse

from ..disk import Disk
from ..env import REPO

ID = "C14"
QUICK = {"runs": 100000, "wall": 50}
THOROUGH = {"runs": 10**7, "wall": 1200}
DROPPABLE = ["attempts", "disk", "responses"]
RULE = ("a run counts as distinct and non-trivial if at least one network, archive or disk fault, interruption or kill "
        "fired and the combination of attempts was not seen before")
REAL = ["download_irfs.py", "requests", "urllib3 responses", "zipfile", "tarfile", "file system in a scratch directory"]
STUB = ["server and connection below requests' transport adapter", "write errors, full disk and failing renames",
        "kill and interruption of the process at a chosen line"]
ASSUMPTIONS = ["kills end the process, the operating system survives (no power loss)",
               "the archive has the layout of the documented Zenodo record"]

NAMES = {z: f"Prod5-North-{z}deg-AverageAz-4LSTs.180000s-v0.1.fits.gz" for z in (20, 40, 60)}
TARS = {z: f"fits/CTA-Performance-prod5-v0.1-North-LSTSubArray-{z}deg.FITS.tar.gz" for z in (20, 40, 60)}


# ------------------------------------------------------------------ the archive
def archive(a):
    """(zip bytes, {final name: content})"""
    g = random.Random(a["seed"])
    irf = {}
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_STORED if a["stored"] else zipfile.ZIP_DEFLATED) as z:
        entries = []
        for d in (20, 40, 60):
            t = io.BytesIO()
            with tarfile.open(fileobj=t, mode="w:gz", compresslevel=6) as tar:
                members = [NAMES[d]] + [NAMES[d].replace("180000", s) for s in ("18000", "1800")][:a["more"]] \
                    + [NAMES[d].replace("AverageAz", "NorthAz")][:a["more"]]
                g.shuffle(members)
                for m in members:
                    raw = g.randbytes(g.choice([0, 100, 3000, a["size"]]) if m != NAMES[d] else g.randint(a["size"] // 2, a["size"]))
                    data = gzip.compress(raw, mtime=0) if a["gz"] else raw
                    if m == NAMES[d]:
                        irf[m] = data
                        if a.get("absent") == d:
                            continue
                    info = tarfile.TarInfo(m)
                    info.size = len(data)
                    info.mtime = 1631000000
                    tar.addfile(info, io.BytesIO(data))
            if a.get("absent_tar") != d:
                entries.append((TARS[d], t.getvalue()))
        entries.append((TARS[20].replace("LSTSubArray", "MSTSubArray"), g.randbytes(500)))
        entries.append(("README.md", b"prod5"))
        g.shuffle(entries)
        for n, b in entries:
            zi = zipfile.ZipInfo(n, (2021, 9, 13, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_STORED if a["stored"] else zipfile.ZIP_DEFLATED
            z.writestr(zi, b)
    return out.getvalue(), irf


# ------------------------------------------------------------------ the server
class Body(io.RawIOBase):
    def __init__(self, data, error):
        self.b = io.BytesIO(data)
        self.error = error

    def readable(self):
        return True

    def readinto(self, b):
        n = self.b.readinto(memoryview(b)[:4096])
        if not n and self.error:
            raise self.error
        return n


def server(responses, body, other, log, ranges=True):
    """Replaces HTTPAdapter.send."""
    queue = list(responses)

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        f = queue.pop(0) if queue else {"k": "ok"}
        k = f["k"]
        log.append(k)
        if "zenodo.org" not in request.url or "5499840" not in request.url:
            f, k = {"k": "status", "code": 404}, "status"
        if k == "refused":
            raise requests.ConnectionError("simulated: connection refused", request=request)
        if k == "timeout":
            raise requests.ConnectTimeout("simulated: timed out", request=request)
        if k == "stall" and timeout is not None:
            raise requests.ReadTimeout("simulated: timed out", request=request)
        data, status, err, head = body, 200, None, {"Content-Type": "application/octet-stream"}
        part = re.fullmatch(r"bytes=(\d+)-(\d*)", request.headers.get("Range", ""))
        if part and ranges:
            # resumed or split downloads
            first, last = int(part[1]), min(int(part[2] or len(body) - 1), len(body) - 1)
            if first > last:
                data, status = b"", 416
                head["Content-Range"] = f"bytes */{len(body)}"
            else:
                data, status = body[first:last + 1], 206
                head["Content-Range"] = f"bytes {first}-{last}/{len(body)}"
        if ranges:
            head["Accept-Ranges"] = "bytes"
        full = len(data)
        if k == "status":
            status = f["code"]
            data = {"html": b"<html>error</html>", "archive": other, "empty": b""}[f.get("body", "html")]
            full = len(data)
        elif k == "html":
            data = b"<html>try again later</html>"
            full = len(data)
        elif k == "cut":
            data = data[:int(f["at"] * len(data))]
            if not f["length"]:
                full = None
            elif f["length"] == "wrong":
                full = len(data)
        elif k == "reset":
            data = data[:int(f["at"] * len(data))]
            err = ConnectionResetError(errno.ECONNRESET, "simulated: connection reset")
        elif k == "slow_error":
            data = data[:int(f["at"] * len(data))]
            err = TimeoutError("simulated: read timed out")
        elif k == "flip":
            b = bytearray(data)
            i = min(len(b) - 1, int(f["at"] * len(b)))
            for j in range(i, min(len(b), i + f["n"])):
                b[j] ^= f["mask"]
            data = bytes(b)
        if full is not None:
            head["Content-Length"] = str(full)
        raw = HTTPResponse(body=Body(data, err), headers=head, status=status, reason="simulated", preload_content=False,
                           decode_content=False, request_method="GET")
        return self.build_response(request, raw)

    return send


# ------------------------------------------------------------------ plan
def attempt_plan(r):
    a = {"responses": [], "disk": [], "at": None, "how": None, "space": None}
    k = r.random()
    if k < 0.3:
        f = {"k": r.choice(["refused", "timeout", "stall", "status", "status", "html", "cut", "cut", "reset", "slow_error", "flip", "flip", "flip"])}
        f["at"] = round(r.random(), 5)
        if f["k"] == "status":
            f["code"] = r.choice([400, 403, 404, 429, 500, 503])
            f["body"] = r.choice(["html", "archive", "archive", "empty"])
        if f["k"] == "cut":
            f["length"] = r.choice(["right", "wrong", None])
            f["at"] = r.choice([f["at"], round(1 - 10 ** r.uniform(-4, -1), 6)])
        if f["k"] == "flip":
            f["n"] = r.choice([1, 1, 4, 600])
            f["mask"] = r.choice([1, 0x80, 0xff])
        a["responses"] = [f] * r.choice([1, 1, 1, 1, 6])
    elif k < 0.6:
        a["at"] = round(r.random(), 5)
        a["how"] = r.choice(["kill", "kill", "kill", "KeyboardInterrupt", "MemoryError", "SystemExit"])
        a["phase"] = r.choice(["all", "late", "late", "files", "files"])
    elif k < 0.9:
        m = r.random()
        if m < 0.35:
            a["space"] = int(10 ** r.uniform(0, 5))
        elif m < 0.5:
            a["limit"] = int(10 ** r.uniform(0, 4.8))
        elif m < 0.8:
            for _ in range(r.randint(1, 3)):
                a["disk"].append({"op": int(10 ** r.uniform(0, 1.5)) - 1, "k": r.choice(["eio", "eio", "short"])})
        else:
            a["rename"] = r.randrange(4)
        if r.random() < 0.3:
            a["at"], a["how"], a["phase"] = round(r.random(), 5), "kill", "late"
    return a


def plan(r, tier):
    a = {"seed": r.randrange(1 << 30), "stored": r.random() < 0.4, "more": r.randint(0, 2), "gz": r.random() < 0.7,
         "size": r.choice([600, 5000, 60000])}
    k = r.random()
    if k < 0.05:
        a["absent"] = r.choice([20, 40, 60])
    elif k < 0.1:
        a["absent_tar"] = r.choice([20, 40, 60])
    init = {}
    if r.random() < 0.35:
        for z in (20, 40, 60):
            if r.random() < 0.6:
                init[str(z)] = r.choice(["good", "good", "stale", "torn", "empty"])
    attempts = [attempt_plan(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.4:
        for x in attempts:
            x["tmpfs"] = True
    return {"archive": a, "init": init, "dir": bool(init) or r.random() < 0.3, "attempts": attempts, "cwd": r.random() < 0.5}


# ------------------------------------------------------------------ one process running the script
class Killed(BaseException):
    pass


def child(script, cwd, a, body, other, total, report, root):
    """Runs in a forked process; never returns."""
    import resource

    log, fired = [], []
    code = 99
    n = [0, 0]
    # code which works on files and directories
    handling = {shutil.__file__, tempfile.__file__, pathlib.__file__, os.__file__, script}
    try:
        os.chdir(cwd)
        tempfile.tempdir = os.path.join(root, "tmp")
        g = random.Random(1)
        tempfile._name_sequence = iter(lambda: "".join(g.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8)), None)
        requests.adapters.HTTPAdapter.send = server(a["responses"], body, other, log, a.get("ranges", True))
        time.sleep = lambda s: None

        class C:
            def fault(self, k, n=1):
                fired.append(k)

            def shape(self, *w):
                pass

        disk = Disk(root, C())
        disk.reset(a["disk"])
        disk.space = a["space"]
        with_disk = bool(a["disk"]) or a["space"] is not None
        if with_disk:
            disk.__enter__()
            tarfile.bltn_open = __builtins__["open"] if isinstance(__builtins__, dict) else __builtins__.open
            zipfile.io.open = tarfile.bltn_open
        if a.get("limit"):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (a["limit"], a["limit"]))
        if a.get("rename") is not None:
            left = [a["rename"]]

            def wrap(orig):
                def f(*args, **kw):
                    left[0] -= 1
                    if left[0] == -1:
                        fired.append("rename_fails")
                        raise OSError(errno.EIO, "simulated: input/output error")
                    return orig(*args, **kw)
                return f

            for k in ("replace", "rename", "link"):
                setattr(os, k, wrap(getattr(os, k)))
        if a.get("tmpfs"):
            # the system's temporary directory is on another file system
            def same_fs(orig):
                def f(src, dst, *args, **kw):
                    tmp = [os.path.abspath(os.fspath(x)).startswith(tempfile.tempdir + os.sep) for x in (src, dst)]
                    if tmp[0] != tmp[1]:
                        fired.append("cross_device")
                        raise OSError(errno.EXDEV, "simulated: invalid cross-device link")
                    return orig(src, dst, *args, **kw)
                return f

            for k in ("replace", "rename", "link"):
                setattr(os, k, same_fs(getattr(os, k)))
        at = None
        if a["at"] is not None and total:
            if a["phase"] == "files":
                at = max(1, int(a["at"] * total[2]))
            else:
                x = a["at"] if a["phase"] == "all" else 1 - (1 - total[1]) * (1 - a["at"])
                at = max(1, int(x * total[0]))
        how = a["how"]
        mon = sys.monitoring
        tool = 5
        skip = (REPO + "/pyirf/", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        mark = [None]

        def line(code_, ln):
            if code_.co_filename.startswith(skip):
                return mon.DISABLE
            n[0] += 1
            here = n[0]
            if code_.co_filename in handling:
                n[1] += 1
            if a.get("phase") == "files":
                if code_.co_filename not in handling:
                    return
                here = n[1]
            if mark[0] is None and code_.co_filename == zipfile.__file__:
                mark[0] = n[0]
            if at is not None and here == at:
                if how == "kill":
                    report(dict(log=log, fired=fired + ["kill"], n=n[0], mark=mark[0], where=code_.co_qualname))
                    os._exit(137)
                fired.append(how)
                raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}[how]("simulated")

        mon.use_tool_id(tool, "verif-kill")
        mon.register_callback(tool, mon.events.LINE, line)
        mon.set_events(tool, mon.events.LINE)
        try:
            runpy.run_path(script, run_name="__main__")
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            err = "SystemExit"
        except BaseException as e:  # noqa
            code = 1
            err = f"{type(e).__name__}: {e}"[:200]
        else:
            err = None
        mon.set_events(tool, 0)
        report(dict(log=log, fired=fired, n=n[0], files=n[1], mark=mark[0], err=err))
        os._exit(code)
    except BaseException as e:  # noqa
        try:
            report(dict(log=log, fired=fired, n=n[0], files=n[1], mark=None, err="HARNESS " + repr(e)))
        finally:
            os._exit(98)


def run_script(script, cwd, a, body, other, total, root):
    import pickle

    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        child(script, cwd, a, body, other, total, lambda d: os.write(wfd, pickle.dumps(d)), root)
    os.close(wfd)
    data = b""
    while True:
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        data += b
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), pickle.loads(data)


# ------------------------------------------------------------------ run
def run(plan, ctx):
    root = ctx.scratch
    home = os.path.join(root, "checkout")
    cwd = os.path.join(root, "elsewhere") if plan["cwd"] else home
    for d in {home, cwd, os.path.join(root, "tmp")}:
        os.makedirs(d)
    script = os.path.join(home, "download_irfs.py")
    shutil.copyfile(os.path.join(REPO, "download_irfs.py"), script)
    body, want = archive(plan["archive"])
    stale = archive({**plan["archive"], "seed": plan["archive"]["seed"] + 1, "absent": None, "absent_tar": None})
    other = stale[0]
    old = stale[1]
    out = os.path.join(home, "irfs")
    bad_archive = bool(plan["archive"].get("absent") or plan["archive"].get("absent_tar"))
    none = {"responses": [], "disk": [], "at": None, "how": None, "space": None}
    if any(a.get("tmpfs") for a in plan["attempts"]):
        none["tmpfs"] = True
    # length of an undisturbed run, somewhere else
    calm = os.path.join(root, "calm", "checkout")
    os.makedirs(calm)
    shutil.copyfile(script, os.path.join(calm, "download_irfs.py"))
    rc, info = run_script(os.path.join(calm, "download_irfs.py"), calm, none, stale[0], other, None, root)
    if str(info.get("err")).startswith("HARNESS"):
        raise OSError(info["err"])
    total = (info["n"], (info["mark"] or 1) / max(1, info["n"]), info["files"])
    if plan["dir"]:
        os.mkdir(out)
    initial = {}
    for z, k in sorted(plan["init"].items()):
        name = NAMES[int(z)]
        b = {"good": want[name], "stale": old[name], "torn": want[name][:len(want[name]) // 3], "empty": b""}[k]
        with open(os.path.join(out, name), "wb") as f:
            f.write(b)
        initial[name] = b
        ctx.probe("initial_" + k)
    attempts = list(plan["attempts"]) + [none]
    for i, a in enumerate(attempts):
        rc, info = run_script(script, cwd, a, body, other, total, root)
        if str(info.get("err")).startswith("HARNESS"):
            raise OSError(info["err"])
        faults = [k for k in info["log"] if k not in ("ok", "stall")] + [k for k in info["fired"] if k != "cross_device"]
        for k in info["log"]:
            if k != "ok":
                ctx.fault("network_" + k)
        for k in info["fired"]:
            ctx.fault(k)
        if a.get("limit") and info.get("err") and rc:
            faults.append("limit")
            ctx.fault("file_size_limit")
        ctx.units += 1
        ctx.shape(i, info["log"], info["fired"], rc, info["n"] // 20)
        ctx.note(i, info["log"], info["fired"], rc, info["n"])
        ctx.probe("exit_0" if rc == 0 else "killed" if rc == 137 else "fails")
        present = sorted(os.listdir(out)) if os.path.isdir(out) else []
        for p in (out, home, cwd, os.path.join(root, "tmp")):
            for name in os.listdir(p) if os.path.isdir(p) else ():
                if name in want and p != out:
                    ctx.violate("file_elsewhere", f"attempt {i}: {name} in {os.path.relpath(p, root)}")
        for name in present:
            path = os.path.join(out, name)
            if not os.path.isfile(path):
                continue
            b = open(path, "rb").read()
            if name in want:
                if b != want[name] and b != initial.get(name):
                    ctx.violate("incomplete_file", f"attempt {i} ({faults}, exit {rc}, {info.get('where') or info.get('err')}): {name} has {len(b)} of "
                                f"{len(want[name])} bytes or other content")
                    return
                if b == want[name]:
                    initial.pop(name, None)
            elif rc == 0 and name.startswith("Prod5"):
                ctx.violate("undocumented_file", f"attempt {i}: {name}")
                return
        complete = all(n in present and open(os.path.join(out, n), "rb").read() == want[n] for n in want)
        if rc == 0:
            if not complete:
                ctx.violate("success_without_files", f"attempt {i} ({faults}): exit 0, but present {present}")
                return
            if any(k in ("status",) for k in info["log"]) and info["log"][-1] == "status":
                ctx.violate("success_despite_http_error", f"attempt {i}")
                return
        elif not faults and not bad_archive:
            ctx.violate("fails_without_fault", f"attempt {i}: exit {rc}, {info.get('err')}")
            return
    ctx.sim_time += 0


def describe(plan):
    return {"archive": plan["archive"], "init": plan["init"], "attempts": plan["attempts"]}
