"""Running TLC: model checking, behaviour generation and trace validation."""
import json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA = "/usr/bin/java" if os.path.exists("/usr/bin/java") else "java"


class ModelError(Exception):
    """TLC itself failed or the specification violates one of its own properties: an error of the check, never a verdict."""


class TLCResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.records = []
        self.ok = False
        self.out = ""
        self.violated = None


def run(module, cfg, env=None, workers=8, simulate=None, depth=None, seed=1, timeout=600, want_ok=True,
        deadlock=False, post_ok=None, xmx="6g", cover=False):
    """Runs TLC on spec/<module>.tla with cfg text.  Lines the specification prints with PrintT(ToJson(..)) come
    back as .records.  post_ok=True: a POSTCONDITION/invariant failure is returned in .violated, not raised."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=work())
    try:
        cfgp = os.path.join(meta, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = [JAVA, "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-config", cfgp,
               "-metadir", os.path.join(meta, "states"), "-workers", str(workers), "-noGenerateSpecTE"]
        if not deadlock:
            cmd += ["-deadlock"]
        if cover:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += [module + ".tla"]
        e = {**os.environ, **(env or {})}
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelError("TLC timed out on %s" % module)
        r = TLCResult()
        out = p.stdout.decode("utf-8", "replace")
        keep = []
        for line in out.splitlines():
            if line.startswith('"@'):
                try:
                    s = json.loads(line)
                    r.records.append(json.loads(s[1:]))
                    continue
                except ValueError:
                    raise ModelError("unreadable record from %s: %s" % (module, line[:300]))
            if not line.startswith(("Parsing file", "Semantic processing")):
                keep.append(line)
        r.out = "\n".join(keep)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", r.out)
        if m:
            r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.search(r"The number of states generated: (\d+)", r.out)
        if m and not r.states:
            r.states = r.distinct = int(m.group(1))
        r.ok = p.returncode == 0
        if not r.ok:
            r.violated = "Invariant" if "is violated" in r.out else "other"
            m = re.search(r"Invariant (\S+) is violated", r.out)
            if m:
                r.violated = m.group(1)
            if want_ok:
                raise ModelError("TLC on %s exited %d\n%s" % (module, p.returncode, r.out[-6000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def work():
    d = os.path.join(VERIF, "build", "work")
    os.makedirs(d, exist_ok=True)
    return d


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
