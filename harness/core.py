"""Runner: generates cases, executes the real code on them in worker processes, collects what the
monitors saw, and turns that into a verdict (held / violated / inconclusive) and an evidence file."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, random, resource, signal, sys, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Inconclusive(Exception):
    pass


class Mon:
    """What a monitor observed: counts of events, distinct non-trivial situations, samples."""

    def __init__(self):
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []

    def ev(self, name, n=1):
        self.events[name] += n

    def nontrivial(self, *key):
        self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def check(self, cond, kind, msg, *args):
        self.events["oracle_checks"] += 1
        if not cond:
            raise Violation(kind, (msg % args) if args else msg)


def case_rng(prop, seed, i):
    return random.Random("%s/%s/%s" % (prop, seed, i))


def _quiet():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)


def run_one(mod, case, mon):
    """Runs one case; unexpected exceptions of the code under test are violations."""
    try:
        mod.run(case, mon)
    except (Violation, Inconclusive):
        raise
    except MemoryError as e:
        raise Violation("memory-error", repr(e))
    except RecursionError as e:
        raise Violation("recursion-error", repr(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if "/switss/" in f.filename]
        where = "%s:%s" % (os.path.basename(inrepo[-1].filename), inrepo[-1].name) if inrepo else "harness"
        if not inrepo and not (isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError)) and
                               getattr(mod, "API_ERRORS", True)):
            raise
        raise Violation("exception", "%s in %s: %s\n%s" % (
            type(e).__name__, where, str(e)[:600], "".join(traceback.format_exception(e)[-6:])[-2500:]))


def _worker(mod_name, prop, tier, seed, idxs, state, slot, outpath):
    import numpy as np
    _quiet()
    warnings.simplefilter("ignore")
    lim = getattr(sys.modules[mod_name], "MEM", 4 << 30)
    if lim:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    mod = sys.modules[mod_name]
    mon = Mon()
    out = open(outpath, "a")

    def dump(d):
        out.write(json.dumps(d, default=str) + "\n"); out.flush()

    done = 0
    last = time.time()

    def flush():
        nonlocal done, mon
        dump({"t": "sum", "done": done, "events": dict(mon.events), "distinct": sorted(mon.distinct), "samples": mon.samples[:2]})
        done = 0; mon = Mon()

    for i in idxs:
        state[slot] = i
        rng = case_rng(prop, seed, i)
        case = None
        try:
            np.random.seed(rng.randrange(1 << 31)); random.seed(rng.randrange(1 << 31))
            case = mod.gen(rng, i, tier)
            if len(mon.samples) < 1:
                mon.samples.append(case)
            run_one(mod, case, mon)
        except Violation as v:
            dump({"t": "viol", "i": i, "kind": v.kind, "msg": v.msg, "case": case})
        except Inconclusive as e:
            mon.ev("inconclusive:" + str(e)[:60])
            dump({"t": "inc", "i": i, "msg": str(e)})
        except Exception as e:
            dump({"t": "err", "i": i, "msg": traceback.format_exc()[-3000:], "case": case})
        done += 1
        if time.time() - last > 5:
            flush(); last = time.time()
    flush()
    dump({"t": "end"})
    out.close()
    os._exit(0)


def _cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


def kill_children(pid):
    try:
        kids = open("/proc/%d/task/%d/children" % (pid, pid)).read().split()
    except Exception:
        return
    for k in kids:
        kill_children(int(k))
        try:
            os.kill(int(k), signal.SIGKILL)
        except OSError:
            pass


def sweep(mod, prop, tier, seed, n, nproc, wall_cap):
    """Runs cases 0..n-1; returns aggregated results."""
    import tempfile
    d = tempfile.mkdtemp(prefix="swv-")
    ctx = mp.get_context("fork")
    state = ctx.Array("l", [-1] * nproc, lock=False)
    agg = {"done": 0, "events": collections.Counter(), "distinct": set(), "samples": [], "viol": [], "inc": [], "err": []}
    t0 = time.time()
    slots = {}
    cpu_lim = getattr(mod, "CASE_CPU", 90.0)
    wall_lim = getattr(mod, "CASE_WALL", 240.0)

    def start(slot, idxs, gen):
        state[slot] = -1
        path = os.path.join(d, "w%d-%d" % (slot, gen))
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                _worker(mod.__name__, prop, tier, seed, idxs, state, slot, path)
            except BaseException:
                traceback.print_exc()
            os._exit(77)
        slots[slot] = dict(pid=pid, idxs=idxs, path=path, gen=gen, cur=None, since=time.time(), cpu0=0.0)

    nproc = min(nproc, max(1, n))
    for s in range(nproc):
        start(s, list(range(s, n, nproc)), 0)
    paths = []
    stopped = False
    hard = 0
    while slots:
        time.sleep(0.05)
        # repeated hangs or crashes settle the verdict: do not sit through all of them
        over = time.time() - t0 > wall_cap or hard >= 6
        for s in list(slots):
            w = slots[s]
            pid, st = os.waitpid(w["pid"], os.WNOHANG)
            cur = state[s]
            if pid == 0:
                if cur != w["cur"]:
                    w["cur"], w["since"], w["cpu0"] = cur, time.time(), _cpu(w["pid"])
                reason = None
                if over:
                    reason = "cap"
                elif time.time() - w["since"] > 5 and _cpu(w["pid"]) - w["cpu0"] > cpu_lim:
                    reason = "cpu"
                elif time.time() - w["since"] > wall_lim:
                    reason = "wall"
                if reason is None:
                    continue
                kill_children(w["pid"])
                os.kill(w["pid"], signal.SIGKILL)
                os.waitpid(w["pid"], 0)
            else:
                reason = None
                if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
                    reason = "died:%s" % (("signal %d" % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st))
            paths.append(w["path"])
            del slots[s]
            if reason == "cap":
                stopped = True
                continue
            if reason:
                if reason == "wall":
                    agg["inc"].append({"i": cur, "msg": "watchdog (wall clock)"})
                elif cur >= 0:
                    hard += 1
                    case = None
                    try:
                        case = mod.gen(case_rng_prime(prop, seed, cur), cur, tier)
                    except Exception:
                        pass
                    agg["viol"].append({"i": cur, "kind": "nontermination" if reason == "cpu" else "crash",
                                        "msg": "case consumed more than %.0f s of CPU time" % cpu_lim if reason == "cpu" else
                                        "the process running the code %s" % reason, "case": case})
                else:
                    agg["err"].append({"i": -1, "msg": "worker could not start: " + reason})
                    continue
                # a worker that keeps dying is restarted a few times only
                if w["gen"] < 6:
                    rest = w["idxs"][w["idxs"].index(cur) + 1:]
                    if rest:
                        start(s, rest, w["gen"] + 1)
    agg["stopped"] = stopped
    for p in paths:
        if not os.path.exists(p):
            continue
        for line in open(p):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r["t"] == "sum":
                agg["done"] += r["done"]
                agg["events"].update(r["events"]); agg["distinct"].update(r["distinct"])
                if len(agg["samples"]) < 3:
                    agg["samples"] += r["samples"]
            elif r["t"] == "viol":
                agg["viol"].append(r)
            elif r["t"] == "inc":
                agg["inc"].append(r)
            elif r["t"] == "err":
                agg["err"].append(r)
        os.unlink(p)
    os.rmdir(d)
    return agg


def case_rng_prime(prop, seed, i):
    r = case_rng(prop, seed, i)
    r.randrange(1 << 31); r.randrange(1 << 31)
    return r


def isolated(fn, timeout=60, mem=4 << 30):
    """Runs fn() in a forked child; returns ("ok", value) | ("exc", text) | ("died", signal) | ("timeout", None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _quiet()
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("exc", "%s: %s" % (type(e).__name__, e))
            os.write(w, json.dumps(res, default=str).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    t0 = time.time(); buf = b""
    import select
    while True:
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
            return ("timeout", None)
        if select.select([r], [], [], 0.5)[0]:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("died", os.WTERMSIG(st))
    return tuple(json.loads(buf)) if buf else ("died", st)
