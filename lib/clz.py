"""Driving the real code: plugin, standalone tool and clang-tidy module built from /repo."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import BUILD, LLVM, VERIF, REPO

PLUGIN = os.path.join(BUILD, "lib", "ClazyPlugin.so")
TIDYSO = os.path.join(BUILD, "lib", "ClazyClangTidy.so")
STANDALONE = os.path.join(BUILD, "bin", "clazy-standalone")
WRAPPER = os.path.join(BUILD, "clazy")
CLANG = LLVM + "/bin/clang++"
TIDY = LLVM + "/bin/clang-tidy"
APPLY = LLVM + "/bin/clang-apply-replacements"
STUBS = os.path.join(VERIF, "stubs")

BASE_ENV = {k: v for k, v in build.ENV.items() if not k.startswith("CCACHE")}
BASE_ENV["LD_LIBRARY_PATH"] = os.path.join(BUILD, "lib")
JOBS = 8

DIAG = re.compile(r"^(?P<file>[^\s:][^:\n]*):(?P<line>\d+):(?P<col>\d+): (?P<sev>warning|error|note|fatal error|remark): (?P<msg>.*)$")
TAG = re.compile(r"^(?P<text>.*?) \[(?:-W|-W-)?(?P<check>clazy-[A-Za-z0-9-]+)(?P<rest>[^\]]*)\](?P<tail>.*)$")


class Run:
    __slots__ = ("rc", "out", "err", "diags", "cmd")

    def __init__(self, rc, out, err, cmd):
        self.rc, self.out, self.err, self.cmd = rc, out, err, cmd
        self.diags = parse(err) + parse(out)


class Diag(tuple):
    """(file, line, col, severity, check or '', message)"""
    file = property(lambda s: s[0]); line = property(lambda s: s[1]); col = property(lambda s: s[2])
    sev = property(lambda s: s[3]); check = property(lambda s: s[4]); msg = property(lambda s: s[5])


def parse(text):
    r = []
    for l in text.splitlines():
        m = DIAG.match(l)
        if not m:
            continue
        msg, check = m["msg"], ""
        t = re.search(r"\[(?:-Wclazy-([A-Za-z0-9-]+)|clazy-([A-Za-z0-9-]+)(?:,-warnings-as-errors)?)\]", msg)
        if t:
            check = t.group(1) or t.group(2)
            msg = re.sub(r" $", "", msg[:t.start()]) + msg[t.end():]
        r.append(Diag((m["file"], int(m["line"]), int(m["col"]), m["sev"], check, msg)))
    return r


def _run(cmd, env=None, cwd=None, timeout=120):
    e = {**BASE_ENV, **(env or {})}
    for attempt in (0, 1):
        try:
            p = subprocess.run(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            return Run(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), cmd)
        except subprocess.TimeoutExpired:
            if attempt:
                return Run(-999, "", "TIMEOUT", cmd)


def plugin(src, args=(), flags=(), env=None, cwd=None, std="-std=c++20", stubs=True, after=()):
    cmd = [CLANG, "-fsyntax-only", std, "-fplugin=" + PLUGIN, "-Xclang", "-add-plugin", "-Xclang", "clazy", "-ferror-limit=0"]
    if stubs:
        cmd += ["-isystem", STUBS]
    for a in args:
        cmd += ["-Xclang", "-plugin-arg-clazy", "-Xclang", a]
    srcs = [src] if isinstance(src, str) else list(src)
    return _run(cmd + list(flags) + srcs + list(after), env, cwd)


def standalone(srcs, opts=(), flags=(), env=None, cwd=None, std="-std=c++20", stubs=True):
    if isinstance(srcs, str):
        srcs = [srcs]
    cmd = [STANDALONE] + list(opts) + list(srcs) + ["--", "-x", "c++", std, "-ferror-limit=0"]
    if stubs:
        cmd += ["-isystem", STUBS]
    return _run(cmd + list(flags), env, cwd)


def tidy(srcs, checks, flags=(), env=None, cwd=None, std="-std=c++20", stubs=True, opts=()):
    if isinstance(srcs, str):
        srcs = [srcs]
    cs = ",".join(["-*"] + ["clazy-" + c for c in checks])
    cmd = [TIDY, "-load", TIDYSO, "-checks=" + cs, "-header-filter=.*", "--config={}"] + list(opts) + list(srcs) + ["--", "-x", "c++", std, "-ferror-limit=0"]
    if stubs:
        cmd += ["-isystem", STUBS]
    return _run(cmd + list(flags), env, cwd)


def pmap(fn, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def registry():
    """The documented metadata: name -> (level, [fixits]); manual checks have level 3."""
    j = json.load(open(os.path.join(REPO, "checks.json")))
    r = {}
    for c in j["checks"]:
        lv = c["level"]
        r[c["name"]] = (3 if lv in (-1, 3) else lv, [f["name"] for f in c.get("fixits", [])])
    return r


class Scratch:
    def __enter__(self):
        d = os.path.join(VERIF, "build", "work")
        os.makedirs(d, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix="run.", dir=d)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
