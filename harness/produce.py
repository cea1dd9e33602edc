"""Produces executions of the real code: random scenarios (gen.py) and given operation histories."""
import importlib, os, sys, time, tempfile, shutil, signal, traceback, resource, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CORES = int(os.environ.get("ATG_CORES", "8"))
_tmp = None


def _init(stop, base):
    global _tmp, _stop
    _tmp, _stop = tempfile.mkdtemp(dir=base), stop
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _one(job):
    import gen
    if time.time() > _stop:
        return None
    kind = job[0]
    try:
        if kind == "gen":
            return gen.generate(job[2], job[1], _tmp, job[3])
        if kind == "last":
            return gen.replay_last(job[1], _tmp)
        if kind == "call":
            return getattr(importlib.import_module(job[1]), job[2])(job[3])
        return gen.replay(job[1], _tmp)
    except Exception:
        return None, traceback.format_exc()


def produce(jobs, seconds=300, procs=None):
    """jobs: ("gen", profile, seed, nops) or ("ops", scenario) or ("last", scenario); -> [(scenario, log)], failures"""
    stop = time.time() + seconds
    out, failed = [], []
    ctx = mp.get_context("fork")
    base = tempfile.mkdtemp(prefix="atgv")
    with ctx.Pool(procs or CORES, _init, (stop, base)) as pool:
        try:
            for r in pool.imap(_one, jobs, chunksize=4):
                if r is None:
                    continue
                if r[0] is None:
                    failed.append(r[1])
                else:
                    out.append(r)
        finally:
            pool.terminate()
            shutil.rmtree(base, ignore_errors=True)
    return out, failed
