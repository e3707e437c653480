"""C15: a broken version backend never prevents using pyirf."""
import os
import shutil
import subprocess
import sys
import time
import types
import warnings

from ..env import REPO
from ..runner import in_child

ID = "C15"
QUICK = {"runs": 100000, "wall": 45}
THOROUGH = {"runs": 10**7, "wall": 900}
DROPPABLE = ["processes", "imports"]
RULE = ("a run counts as distinct and non-trivial if at least one version source failed, stalled or was interrupted and the "
        "combination of failures was not seen before")
REAL = ["pyirf/__init__.py, version.py and _dev_version of the working tree (copied next to simulated files)",
        "python's import system", "setuptools_scm (in part of the runs)"]
STUB = ["setuptools_scm (in the other runs)", "the git command", "the generated _version.py", "clock"]
ASSUMPTIONS = ["warnings are not turned into errors", "a source ending with KeyboardInterrupt or SystemExit is an interruption"]

ERRORS = ["ImportError", "LookupError", "OSError", "RuntimeError", "AssertionError", "UnicodeDecodeError", "KeyError", "TypeError",
          "TimeoutExpired", "CalledProcessError", "RecursionError", "NotImplementedError", "SyntaxError", "AttributeError", "MemoryError",
          "StopIteration", "FileNotFoundError", "ModuleNotFoundError", "ValueError"]


def error(name):
    if name == "TimeoutExpired":
        return subprocess.TimeoutExpired("git describe", 40)
    if name == "CalledProcessError":
        return subprocess.CalledProcessError(128, "git describe")
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "simulated")
    import builtins

    return getattr(builtins, name)("simulated")


def source_plan(r, dev):
    k = r.random()
    v = r.choice(["1.2.3", "0.14.1.dev3+gabcdef", "0.0.0", "7.0.0rc1", "0.10"])
    if k < 0.3:
        return {"k": "ok", "v": v, "style": r.choice(["scm", "scm", "bare", "typed", "unicode"])}
    if dev:
        m = r.choice(["absent", "scm_missing", "scm_raises", "scm_raises", "scm_import_raises", "scm_noattr", "module_raises", "module_noattr",
                      "module_syntax", "stall_ok", "stall_raise", "interrupt", "real", "real"])
    else:
        m = r.choice(["absent", "raises", "raises", "noattr", "syntax", "nul", "interrupt", "empty", "latin"])
    s = {"k": m, "v": v}
    if "raise" in m:
        s["e"] = r.choice(ERRORS)
    if m == "interrupt":
        s["e"] = r.choice(["KeyboardInterrupt", "SystemExit"])
    if m == "real":
        s["git"] = r.choice(["ok", "ok", "missing", "fails", "garbage", "timeout", "oserror", "no_repo"])
        s["pretend"] = r.choice([None, None, "3.1.4", "no version!"])
    return s


def plan(r, tier):
    procs = []
    for _ in range(r.choice([1, 2, 2, 3])):
        imports = []
        for _ in range(r.choice([1, 1, 2, 3])):
            imports.append({"dev": source_plan(r, True), "ver": source_plan(r, False),
                            "what": r.choice(["pyirf", "pyirf", "pyirf", "pyirf.version", "pyirf.io"]),
                            "at": r.randint(1, 12) if r.random() < 0.2 else None,
                            "how": r.choice(["KeyboardInterrupt", "SystemExit"]), "repeat": r.random() < 0.3})
        for a, b in zip(imports, imports[1:]):
            if r.random() < 0.4 and not a["repeat"]:
                # the installed version does not change between these imports
                b["keep"], b["ver"] = True, dict(a["ver"])
        procs.append({"imports": imports})
        if r.random() < 0.3 and all(x["dev"]["k"] != "real" for x in imports):
            procs[-1]["encoding"] = "ascii"
    return {"processes": procs}


# ------------------------------------------------------------------ the simulated installation
def write(path, text):
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def install(root, s, keep=False):
    """Files of the package for this state; `keep`: the version file stays as the last import left it."""
    pkg = os.path.join(root, "pyirf")
    dev, ver = s["dev"], s["ver"]
    d = os.path.join(pkg, "_dev_version")
    shutil.rmtree(d, ignore_errors=True)
    if dev["k"] != "absent":
        src = os.path.join(REPO, "pyirf", "_dev_version")
        os.mkdir(d)
        for n in os.listdir(src):
            if n.endswith(".py"):
                shutil.copyfile(os.path.join(src, n), os.path.join(d, n))
        init = os.path.join(d, "__init__.py")
        if dev["k"] == "module_raises":
            write(init, f"import sys\nraise sys.modules['verif_c15_error'].error({dev['e']!r})\n")
        elif dev["k"] == "module_noattr":
            write(init, "versoin = '9.9.9'\n")
        elif dev["k"] == "module_syntax":
            write(init, "try:\n    from setuptools_scm import\n")
    if keep:
        return
    path = os.path.join(pkg, "_version.py")
    if os.path.exists(path):
        os.unlink(path)
    k = ver["k"]
    if k == "ok":
        # as the versions of setuptools_scm write it
        write(path, {
            "unicode": f"# Urheber: J. M\u00fcller \u2013 \u03b3-Astronomie\nversion = __version__ = {ver['v']!r}\n",
            "bare": f"version = {ver['v']!r}\n",
            "scm": f"__version__ = version = {ver['v']!r}\n__version_tuple__ = version_tuple = (0,)\n",
            "typed": "# file generated by setuptools-scm\n__all__ = ['version']\nTYPE_CHECKING = False\nif TYPE_CHECKING:\n    VERSION_TUPLE = 1\n"
                     f"version: str\n__version__: str\n__version__ = version = {ver['v']!r}\n"}[ver.get("style", "scm")])
    elif k == "raises":
        write(path, f"import sys\nraise sys.modules['verif_c15_error'].error({ver['e']!r})\n")
    elif k == "noattr":
        write(path, "__version_tuple__ = (1, 2)\n")
    elif k == "syntax":
        write(path, "version = '1.2\n")
    elif k == "nul":
        with open(path, "wb") as f:
            f.write(b"version = '1.2.3'\n\0\0\0\0")
    elif k == "latin":
        with open(path, "wb") as f:
            f.write(b"version = '1.2.\xe4'\n")
    elif k == "empty":
        write(path, "")
    elif k == "interrupt":
        write(path, f"raise {ver['e']}\n")


def simulate_git(kind, base):
    """subprocess as setuptools_scm sees it."""
    real_run, real_popen = subprocess.run, subprocess.Popen

    def run(cmd, *a, **kw):
        if kind == "missing":
            raise FileNotFoundError(2, "simulated: no such file: git")
        if kind == "oserror":
            raise PermissionError(13, "simulated: permission denied")
        if kind == "timeout":
            raise subprocess.TimeoutExpired(cmd, 40)
        args = cmd if isinstance(cmd, (list, tuple)) else str(cmd).split()
        out, rc = "", 0
        if kind in ("fails", "no_repo"):
            rc, out = 128, ""
        elif kind == "garbage":
            out = "??? \x00 not a version"
        elif "--show-toplevel" in args or "--show-prefix" in args:
            out = base if "--show-toplevel" in args else ""
        elif "describe" in args:
            out = "v2.5.0-3-gabc1234"
        elif "--abbrev-ref" in args:
            out = "main"
        elif "status" in args or "ls-files" in args or "archive" in args:
            out = ""
        elif "--is-shallow-repository" in args:
            out = "false"
        text = kw.get("text") or kw.get("encoding") or kw.get("universal_newlines")
        return subprocess.CompletedProcess(cmd, rc, out if text else out.encode(), "" if text else b"")

    def popen(*a, **kw):
        raise OSError(12, "simulated: cannot allocate memory")

    subprocess.run = run
    if kind != "ok":
        subprocess.Popen = popen
    return real_run, real_popen


def environment(root, s, t):
    """What the sources see besides the files; returns the undo function."""
    dev = s["dev"]
    saved = sys.modules.get("setuptools_scm", Ellipsis)
    os.environ.pop("SETUPTOOLS_SCM_PRETEND_VERSION", None)
    k = dev["k"]
    undo = []
    for n in [n for n in sys.modules if n == "setuptools_scm" or n.startswith("setuptools_scm.")]:
        m = sys.modules.pop(n)
        undo.append(lambda n=n, m=m: sys.modules.__setitem__(n, m))
    finder = None
    if k == "real":
        if dev["pretend"]:
            os.environ["SETUPTOOLS_SCM_PRETEND_VERSION"] = dev["pretend"]
        if dev["git"] != "no_repo":
            os.makedirs(os.path.join(root, ".git"), exist_ok=True)
        else:
            shutil.rmtree(os.path.join(root, ".git"), ignore_errors=True)
        r = simulate_git(dev["git"], root)
        undo.append(lambda: (setattr(subprocess, "run", r[0]), setattr(subprocess, "Popen", r[1])))
    elif k == "scm_missing":
        sys.modules["setuptools_scm"] = None
    elif k == "scm_import_raises":
        class Finder:
            @staticmethod
            def find_spec(name, path=None, target=None):
                if name == "setuptools_scm":
                    raise error(dev["e"])
                return None

        finder = Finder
        sys.meta_path.insert(0, finder)
        undo.append(lambda: sys.meta_path.remove(finder))
    else:
        m = types.ModuleType("setuptools_scm")

        def get_version(*a, **kw):
            if k.startswith("stall"):
                t[0] += 3600.0
            if k in ("scm_raises", "stall_raise"):
                raise error(dev["e"])
            if k == "interrupt":
                raise {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[dev["e"]]
            return dev["v"]

        if k != "scm_noattr":
            m.get_version = get_version
        sys.modules["setuptools_scm"] = m

    def restore():
        sys.modules.pop("setuptools_scm", None)
        for n in [n for n in sys.modules if n.startswith("setuptools_scm.")]:
            del sys.modules[n]
        for f in undo:
            f()

    return restore


def works(root, s, side):
    """The version this source provides, or None."""
    x = s[side]
    if x["k"] in ("ok", "stall_ok"):
        return x["v"]
    if x["k"] == "real":
        # what the real backend says in this environment
        def ask():
            restore = environment(root, s, [0.0])
            try:
                from setuptools_scm import get_version

                return get_version(root="../..", relative_to=os.path.join(root, "pyirf", "_dev_version", "__init__.py"))
            except Exception:
                return None
            finally:
                restore()

        kind, v = in_child(ask)
        return v if kind == "ok" else None
    return None


def locale_encoding(name):
    """Text files are read and written in this encoding where none is given."""
    import builtins
    import io
    import locale

    real = builtins.open

    def opened(file, mode="r", buffering=-1, encoding=None, *a, **kw):
        if "b" not in mode and encoding in (None, "locale"):
            encoding = name
        return real(file, mode, buffering, encoding, *a, **kw)

    builtins.open = io.open = opened
    locale.getencoding = lambda: name
    locale.getpreferredencoding = lambda do_setlocale=True: name


def purge():
    for n in [n for n in sys.modules if n == "pyirf" or n.startswith("pyirf.")]:
        del sys.modules[n]
    import importlib

    importlib.invalidate_caches()


def attempt(root, s, interrupt, t, clean=True):
    """One import: (kind, value, version warnings)"""
    import importlib

    if clean:
        purge()
    restore = environment(root, s, t)
    n = [0]

    def line(code, ln):
        if not code.co_filename.startswith(root):
            return sys.monitoring.DISABLE
        n[0] += 1
        if n[0] == s["at"]:
            raise {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[s["how"]]

    mon = sys.monitoring
    if interrupt:
        mon.use_tool_id(5, "verif-c15")
        mon.restart_events()
        mon.register_callback(5, mon.events.LINE, line)
        mon.set_events(5, mon.events.LINE)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                importlib.import_module("pyirf")
                importlib.import_module(s["what"])
                m = sys.modules["pyirf"]
                if interrupt:
                    mon.set_events(5, 0)
                v = m.__version__
                more = [sys.modules["pyirf.version"].__version__, sys.modules["pyirf.version"].version]
                if s["what"] == "pyirf.io":
                    more.append(sys.modules["pyirf.io.gadf"].DEFAULT_HEADER["CREATOR"].split(" v")[-1])
                out = ("ok", v, [str(x) for x in more])
            except BaseException as e:  # noqa
                out = ("raises", type(e).__name__, str(e)[:200])
        told = [str(x.message) for x in w if "version" in str(x.message) and "pyirf" in str(x.message)
                and not issubclass(x.category, DeprecationWarning)]
    finally:
        if interrupt:
            mon.set_events(5, 0)
            mon.free_tool_id(5)
        restore()
    if not os.path.realpath(getattr(sys.modules.get("pyirf"), "__file__", root) or root).startswith(os.path.realpath(root)):
        raise OSError("imported the wrong package")
    return out, len(told)


def judge(out, told, want):
    if out[0] == "raises":
        return "import_fails", f"{out[1]}: {out[2]}"
    v, more = out[1], out[2]
    if not isinstance(v, str):
        return "no_version", repr(v)
    if v != (want or "0.0.0") or any(x != v for x in more):
        return "wrong_version", f"{v!r} {more} instead of {want or '0.0.0'!r}"
    if bool(told) != (want is None):
        return "warning", f"{told} warnings about the version, which is {v}"
    return None


def run(plan, ctx):
    warnings.simplefilter("ignore")
    root = os.path.realpath(ctx.scratch)
    shutil.copytree(os.path.join(REPO, "pyirf"), os.path.join(root, "pyirf"),
                    ignore=lambda d, names: [n for n in names if n in ("tests", "__pycache__", "resources")])
    shutil.copyfile(os.path.join(REPO, "pyproject.toml"), os.path.join(root, "pyproject.toml"))
    for pi, p in enumerate(plan["processes"]):
        wants = []
        for s in p["imports"]:
            install(root, s)
            wants.append([works(root, s, "dev"), works(root, s, "ver")])

        def body():
            # only this installation: no editable install of the working tree
            sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in (getattr(f, "__module__", "") or "")
                                and "editable" not in getattr(f, "__name__", "").lower()]
            sys.path[:] = [root] + [x for x in sys.path if os.path.realpath(x or ".") != os.path.realpath(REPO)]
            os.chdir(root)
            if p.get("encoding") and all(x["dev"]["k"] != "real" for x in p["imports"]):
                locale_encoding(p["encoding"])
            res, t = [], [0.0]
            # the simulated clock: real time does not count, stalls do
            time.sleep = lambda x: t.__setitem__(0, t[0] + x)
            for n, start in (("time", 1.6e9), ("monotonic", 1e3), ("perf_counter", 1e3), ("process_time", 0.0)):
                setattr(time, n, lambda start=start: start + t[0])
                setattr(time, n + "_ns", lambda start=start: int((start + t[0]) * 1e9))
            for i, s in enumerate(p["imports"]):
                keep = s.get("keep") and i and p["imports"][i - 1]["ver"] == s["ver"] and len(res[-1]) == 1
                install(root, s, keep)
                o = [attempt(root, s, s["at"] is not None, t)]
                if o[0][0][0] == "raises" or s["repeat"]:
                    # again, without the interruption, in the same process
                    calm = {**s, "at": None}
                    for side in ("dev", "ver"):
                        if calm[side]["k"] == "interrupt":
                            calm[side] = {"k": "ok", "v": "5.5.5"}
                    install(root, calm)
                    o.append(attempt(root, calm, False, t, clean=not (o[0][0][0] == "raises")))
                res.append(o)
            return res, t[0]

        kind, val = in_child(body)
        if kind != "ok":
            raise OSError(f"child: {kind} {val}")
        res, t = val
        ctx.sim_time += t
        for s, (dv, vv), o in zip(p["imports"], wants, res):
            for side in ("dev", "ver"):
                x = s[side]
                if x["k"] != "ok":
                    ctx.fault(f"{side}_{x['k']}" + (("_" + x["git"]) if x["k"] == "real" else ""))
                    ctx.shape(side, x["k"], x.get("e"), x.get("git"), x.get("pretend"))
            ctx.shape(s["what"], s["at"], s["how"])
            ctx.units += 1
            want = dv if dv is not None else vv
            out, told = o[0]
            ctx.note(pi, out[:2], told)
            ctx.probe(out[0] + (" " + str(out[1]) if out[0] == "raises" else ""))
            interrupts = [s[x]["e"] for x in ("dev", "ver") if s[x]["k"] == "interrupt"] + ([s["how"]] if s["at"] is not None else [])
            if s["dev"]["k"] == "interrupt":
                pass
            if out[0] == "raises" and out[1] in interrupts:
                ctx.fault("import_interrupted")
            elif interrupts and s["dev"]["k"] == "interrupt" or s["ver"]["k"] == "interrupt" and dv is None:
                # somebody swallowed the interruption: nothing promised about this attempt
                pass
            else:
                w = judge(out, told, want)
                if w:
                    ctx.violate(w[0], f"process {pi}: dev {s['dev']}, installed {s['ver']}: {w[1]}")
                    return
            if len(o) > 1:
                out, told = o[1]
                ctx.units += 1
                dv2 = "5.5.5" if s["dev"]["k"] == "interrupt" else dv
                vv2 = "5.5.5" if s["ver"]["k"] == "interrupt" else vv
                w = judge(out, told, dv2 if dv2 is not None else vv2)
                if w:
                    ctx.violate("later_" + w[0], f"process {pi}: after {o[0][0][:2]}, dev {s['dev']}, installed {s['ver']}: {w[1]}")
                    return


def describe(plan):
    return {"processes": [[{"dev": s["dev"]["k"], "installed": s["ver"]["k"], "import": s["what"]} for s in p["imports"]] for p in plan["processes"]]}
