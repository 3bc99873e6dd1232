"""Building the harness, running it on sessions, and running TLC."""
import concurrent.futures as cf, json, os, re, resource, shutil, signal, subprocess, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
VH = os.path.join(BUILD, "harness", "release", "vh")
TLA = "/opt/veriftools/tla"
CPUS = max(2, min(8, os.cpu_count() or 2))


class Broken(Exception):
    """The check itself could not be carried out."""


def build():
    r = subprocess.run(["bash", os.path.join(VERIF, "harness", "build.sh")], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise Broken("the harness does not build against /repo:\n" + r.stdout[-4000:])


class Work:
    """A scratch directory of this run."""

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        self.n, self.lock = 0, threading.Lock()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%d-%s" % (self.n, name))


def _limits():
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (3 * gb, 3 * gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def gen(focus, seed, count, maxlen):
    r = subprocess.run([VH, "gen", focus, str(seed), str(count), str(maxlen)], stdout=subprocess.PIPE, timeout=300)
    if r.returncode != 0:
        raise Broken("the session generator failed")
    return r.stdout.splitlines()


def _chunk(work, lines, cmd):
    """Run the harness on lines; a session that kills it is reported as a crash."""
    out, i = [], 0
    while i < len(lines):
        cur = work.path("cur")
        src, dst = work.path("in"), work.path("out")
        with open(src, "wb") as f:
            f.write(b"\n".join(lines[i:]) + b"\n")
        with open(src, "rb") as fi, open(dst, "wb") as fo:
            p = subprocess.Popen([VH, cmd, cur], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, preexec_fn=_limits)
            p.wait()
        with open(dst, "rb") as f:
            got = f.read().split(b"\n")
        done = got[:-1]
        out.extend(done)
        i += len(done)
        if p.returncode != 0:
            if i >= len(lines):
                raise Broken("the harness failed with %s after its last session" % p.returncode)
            why = "hang" if p.returncode == 9 else "abort"
            x = json.loads(lines[i])
            if isinstance(x, str):
                x = json.loads(x)
            x["crash"] = why
            out.append(json.dumps(x).encode())
            i += 1
            if sum(1 for o in out if b'"crash"' in o) > 2:
                for l in lines[i:]:
                    out.append(b"")
                break
        for f in (src, dst, cur):
            if os.path.exists(f):
                os.unlink(f)
    return out


def harness(work, lines, cmd="run"):
    """What the real code did in each session (same order; b"" if not run)."""
    if not lines:
        return []
    k = min(CPUS, max(1, len(lines) // 50))
    size = (len(lines) + k - 1) // k
    parts = [lines[j:j + size] for j in range(0, len(lines), size)]
    lock_work = work
    with cf.ThreadPoolExecutor(k) as ex:
        res = list(ex.map(lambda p: _chunk(lock_work, p, cmd), parts))
    return [x for r in res for x in r]


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", re.M)
SIM = re.compile(r"The number of states generated: (\d+)")


class Tlc:
    def __init__(self, ok, text, generated, distinct):
        self.ok, self.text, self.generated, self.distinct = ok, text, generated, distinct


def tlc(work, module, cfg, env=None, timeout=600, extra=(), xmx="12g", workers=None, xss="256m"):
    """Run TLC on spec/module.tla with the given configuration text."""
    d = work.path("tlc")
    os.makedirs(d)
    c = os.path.join(d, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss" + xss, "-Xmx" + xmx, "-Dfile.encoding=UTF-8",
           "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers or CPUS), "-metadir", d, "-noGenerateSpecTE", *extra,
           "-config", c, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise Broken("TLC on %s took more than %d s" % (module, timeout))
    text = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))
    shutil.rmtree(d, ignore_errors=True)
    m = STATS.findall(text)
    g, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        s = SIM.findall(text)
        g = dist = int(s[-1]) if s else 0
    return Tlc(r.returncode == 0, text, g, dist)


def read_csv(path):
    """The JSON records that a module wrote with CSVWrite."""
    if not os.path.exists(path):
        return []
    with open(path, "rb") as f:
        out = []
        for l in f:
            if l.strip():
                x = json.loads(l)
                out.append(json.loads(x) if isinstance(x, str) else x)
        return out
