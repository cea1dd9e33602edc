"""
Running TLC: judging recorded executions with spec/TraceATG.tla (and the other
Trace modules) and exploring the models spec/MC_*.tla.
"""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = int(os.environ.get("ATG_CORES", "8"))

OPEN = re.compile(r'^<<"OPEN", (\d+), (\d+)>>')
VIOL = re.compile(r'^<<"VIOL", "(.*?)", "(.*?)", (\d+), (\d+), "(.*)">>\s*$')


def scratch():
    base = os.path.join(ROOT, "work")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(dir=base)


def java(module, cfg, env, meta, workers=1, heap="2g", timeout=800, extra=()):
    cmd = ["java", "-Xss64m", "-Xmx" + heap, *(("-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1") if workers == 1 else ("-XX:+UseParallelGC",)),
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-nowarning", "-metadir", meta, "-deadlock",
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.stdout


def finished(out):
    return "Model checking completed. No error has been found." in out


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Verdict:
    def __init__(self):
        self.viols = []        # (property, clause, trace, line, detail), trace from 0
        self.generated = self.distinct = 0
        self.unjudged = []     # traces the specification could not be evaluated on
        self.late = []         # traces there was no time for
        self.open = []         # (trace, line) whose outcome is not prescribed
        self.wall = 0.0
        self.failing = []


def judge(logs, module="TraceATG", procs=None, deadline=700):
    """every log through the trace specification"""
    t0 = time.time()
    v = Verdict()
    if not logs:
        return v
    procs = procs or CORES
    tmp = scratch()
    order = sorted(range(len(logs)), key=lambda n: -weight(logs[n]))
    bins = [[] for _ in range(min(procs, len(logs)))]
    load = [0] * len(bins)
    for n in order:
        k = load.index(min(load))
        bins[k].append(n)
        load[k] += weight(logs[n])

    def run(tag, idx):
        path = os.path.join(tmp, tag + ".json")
        with open(path, "w") as f:
            json.dump([logs[n] for n in idx], f)
        try:
            out = java(module + ".tla", module + ".cfg", {"ATG_TRACES": path}, os.path.join(tmp, "m" + tag),
                       timeout=max(30, deadline - (time.time() - t0)))
        except subprocess.TimeoutExpired as ex:
            out = (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
            out += "\nTIMEOUT"
        found = []
        for line in out.splitlines():
            m = VIOL.match(line)
            if m:
                found.append((m[1], m[2], idx[int(m[3]) - 1], int(m[4]), m[5]))
                continue
            m = OPEN.match(line)
            if m:
                v.open.append((idx[int(m[1]) - 1], int(m[2])))
        g, d = stats(out)
        if finished(out):
            return found, g, d, []
        if out.endswith("TIMEOUT"):
            v.late += idx
            return found, g, d, []
        if "Parsing or semantic analysis failed" in out:
            raise RuntimeError(module + ": " + out[-1500:])
        if len(idx) == 1 or len(v.failing) > 6:
            v.failing.append(idx[0])
            return found, g, d, [(n, out[-1500:]) for n in idx]
        a = run(tag + "a", idx[:len(idx) // 2])
        b = run(tag + "b", idx[len(idx) // 2:])
        return (a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3])

    try:
        with ThreadPoolExecutor(len(bins)) as ex:
            for found, g, d, un in ex.map(lambda kb: run("c%d" % kb[0], kb[1]), enumerate(bins)):
                v.viols += found
                v.generated += g
                v.distinct += d
                v.unjudged += un
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    v.viols = sorted(set(v.viols), key=lambda x: (x[2], x[3], x[0], x[1], x[4]))
    v.wall = time.time() - t0
    return v


def weight(log):
    return sum(3 + len(l.get("st", {}).get("O", ())) for l in log)


def explore(module, cfg, env=None, workers=None, heap="8g", timeout=800, extra=()):
    """check a model exhaustively; returns (ok, output, generated, distinct)"""
    tmp = scratch()
    try:
        out = java(module + ".tla", cfg, env or {}, os.path.join(tmp, "m"), workers or CORES, heap, timeout, extra)
    except subprocess.TimeoutExpired:
        return False, "TIMEOUT", 0, 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    g, d = stats(out)
    return finished(out), out, g, d
