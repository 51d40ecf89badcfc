"""Runs one property check: seeded search, minimisation, replay, evidence.

    python -m dst check C01          the check (VERIF_SEED, VERIF_TIER)
    python -m dst replay FILE        execute a replay file again
    python -m dst show C01 INDEX     print a generated scenario and its result

One seed is one execution: every run is made in a fork of the same pristine process, from a
scenario that is a function of (VERIF_SEED, property, index) alone.
"""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import resource
import select
import signal
import sys
import time
import traceback

from . import env, sched

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "out")
EVIDENCE = os.path.join(OUT if os.environ.get("VERIF_OUT") else VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
WALL = float(os.environ.get("VERIF_RUN_WALL", "60"))
MINIMISE = float(os.environ.get("VERIF_MINIMISE", "0"))   # seconds, 0: by tier
MEMORY = 3 << 30
DIGESTS = os.environ.get("VERIF_DIGESTS")   # file for the digest of every run
STEP_LIMIT = 30_000_000  # executed lines of a run repeated after a wall time-out


class HarnessError(Exception):
    pass


def stable(text):
    """Text without memory addresses, which differ between executions."""
    return re.sub(r"0x[0-9a-f]{6,}|\b1[34][0-9]{13}\b", "0x..", text)


def digest_of(*x):
    return hashlib.blake2b(stable(repr(x)).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()


def fail(cls, detail, *dig, key=None):
    """The result of a run that broke the property."""
    detail = stable(detail)
    v = {"class": cls, "detail": detail}
    if key:
        v["key"] = key
    return {"violation": v, "digest": digest_of(cls, detail, *dig)}


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def rng_for(seed, pid, idx):
    h = hashlib.blake2b(f"{seed}/{pid}/{idx}".encode(), digest_size=16).digest()
    return random.Random(int.from_bytes(h, "big"))


# -- one run --------------------------------------------------------------------------

class StepLimit(BaseException):
    pass


def _limit_steps(limit):
    """Make the run fail after `limit` executed lines of code under test."""
    count = [0]

    def local(frame, event, arg):
        count[0] += 1
        if count[0] > limit:
            raise StepLimit(f"{limit} lines executed without an end")
        return local

    def glob(frame, event, arg):
        if sched._kind_of(frame.f_code.co_filename):
            return local(frame, event, arg) and local

    sys.settrace(glob)


def execute(prop, scenario, limited=False):
    """Execute a scenario in this process. -> result dict"""
    if limited:
        sched.FULL = True
        _limit_steps(getattr(prop, "STEPS", STEP_LIMIT))
    try:
        res = prop.execute(scenario)
    except StepLimit as e:
        res = {"violation": {"class": "hang", "detail": str(e)}}
    except sched.Deadlock as e:
        res = {"violation": {"class": "deadlock", "detail": str(e)}}
    finally:
        sys.settrace(None)
    res.setdefault("violation", None)
    res.setdefault("stats", {})
    res.setdefault("digest", "")
    return res


def run_forked(prop, make, wall=WALL, limited=False):
    """Fork, execute the scenario made by make() in the child. -> result dict"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                sc = make()
                res = execute(prop, sc, limited)
            except BaseException:
                res = {"harness": traceback.format_exc()[-4000:]}
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf.append(chunk)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": True}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return {"harness": f"run ended with status {status} and {len(b''.join(buf))} bytes"}


def run(prop, make):
    """One run, with the wall time-out handled."""
    wall = getattr(prop, "WALL", WALL)
    res = run_forked(prop, make, wall)
    if res.get("timeout"):
        # Is it the machine or the code?  Repeat with a limit in steps instead of seconds.
        res = run_forked(prop, make, 240, limited=True)
        if res.get("timeout"):
            res = {"harness": "no end within 240 s of wall time"}
        elif res.get("violation") and res["violation"]["class"] == "hang":
            res["limited"] = True
    return res


# -- the search -----------------------------------------------------------------------

def add_stats(total, stats):
    for k, v in stats.items():
        if isinstance(v, dict):
            add_stats(total.setdefault(k, {}), v)
        elif isinstance(v, list):
            total.setdefault(k, set()).update(map(str, v))
        else:
            total[k] = total.get(k, 0) + v


def worker(prop, seed, tier, start, w, n, total, fd, stop_r, t_end):
    out = os.fdopen(fd, "wb")
    agg = {"runs": 0, "nontrivial": 0, "stats": {}, "sigs": set(), "samples": [],
           "determinism_pairs": 0, "determinism_mismatch": [], "findings": []}
    known = load_known(prop.ID)
    idx = start + w
    while idx < total:
        if select.select([stop_r], [], [], 0)[0] or time.monotonic() > t_end:
            break

        def make(idx=idx):
            return prop.generate(rng_for(seed, prop.ID, idx), idx, tier)

        res = run(prop, make)
        if "harness" in res:
            pickle.dump(("harness", idx, res["harness"]), out)
            out.flush()
            break
        agg["runs"] += 1
        if DIGESTS:
            agg.setdefault("digests", []).append((idx, res["digest"], bool(res["violation"])))
        add_stats(agg["stats"], res["stats"])
        if res.get("nontrivial", True):
            agg["nontrivial"] += 1
            agg["sigs"].add(res.get("sig") or res["digest"])
        if res.get("sample") and len(agg["samples"]) < 2:
            agg["samples"].append({"index": idx, **res["sample"]})
        v = res["violation"]
        if v:
            f = match_known(known, v)
            if f:
                agg["findings"].append((f["what"], idx))
            else:
                pickle.dump(("violation", idx, res), out)
                out.flush()
                break
        elif idx % 53 == 7:
            again = run(prop, make)
            agg["determinism_pairs"] += 1
            if again.get("violation"):
                pickle.dump(("violation", idx, again), out)
                out.flush()
                break
            if "harness" in again or again.get("digest") != res.get("digest"):
                agg["determinism_mismatch"].append(idx)
        idx += n
    pickle.dump(("done", w, agg), out)
    out.close()


def search(prop, seed, tier, start, total, budget):
    gc.collect()
    gc.freeze()
    stop_r, stop_w = os.pipe()
    pids, fds = [], {}
    t_end = time.monotonic() + budget
    n = max(1, min(WORKERS, total - start))
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(prop, seed, tier, start, w, n, total, wr, stop_r, t_end)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        pids.append(pid)
        fds[r] = b""
    stopped = False
    open_fds = set(fds)
    while open_fds:
        for r in select.select(list(open_fds), [], [])[0]:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                open_fds.discard(r)
                continue
            fds[r] += chunk
            if not stopped and (b"violation" in fds[r][:200] or b"harness" in fds[r][:200]):
                stopped = True
                os.write(stop_w, b"x")
    for pid in pids:
        os.waitpid(pid, 0)
    import io
    events, aggs = [], []
    for data in fds.values():
        f = io.BytesIO(data)
        done = False
        while True:
            try:
                kind, idx, payload = pickle.load(f)
            except EOFError:
                break
            if kind == "done":
                aggs.append(payload)
                done = True
            else:
                events.append((idx, kind, payload))
        if not done:
            events.append((-1, "harness", "a worker died"))
    return sorted(events, key=lambda e: e[0]), aggs


# -- known findings -------------------------------------------------------------------

def load_known(pid):
    try:
        with open(KNOWN) as f:
            entries = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e["property"] == pid and e["status"] == "known"]


def match_known(known, violation):
    """A finding is identified by the key the oracle computes from the failing input."""
    for e in known:
        if e["key"] == violation.get("key"):
            return e
    return None


# -- minimisation ---------------------------------------------------------------------

def minimise(prop, scenario, violation, limited, seconds):
    t_end = time.monotonic() + seconds
    tried = 0
    if limited or not hasattr(prop, "shrink"):
        return scenario, violation, tried
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        for cand in prop.shrink(scenario):
            if time.monotonic() > t_end:
                break
            if cand == scenario:
                continue
            tried += 1
            res = run_forked(prop, lambda: cand, min(20, getattr(prop, "WALL", WALL)))
            v = res.get("violation")
            if v and v["class"] == violation["class"] and v.get("key") == violation.get("key"):
                scenario, violation = cand, v
                improved = True
                break
    return scenario, violation, tried


def shrink_list(lst, lo=0):
    """Candidates for a shorter list: drop halves, quarters, ... single elements."""
    n = len(lst)
    if n <= lo:
        return
    size = n
    while size >= 1:
        for i in range(0, n, size):
            cand = lst[:i] + lst[i + size:]
            if len(cand) >= lo:
                yield cand
        size //= 2


def shrinker(*paths):
    """shrink() for scenarios whose listed (dotted) members are lists to shorten."""
    def shrink(sc):
        for path in paths:
            lo = 1 if path.endswith("+") else 0   # "+": keep at least one element
            keys = path.rstrip("+").split(".")

            def walk(node, keys):
                # yields (container, key) for all matches; '*' means every element
                if len(keys) == 1:
                    if keys[0] == "*":
                        for i in range(len(node)):
                            yield node, i
                    elif isinstance(node, dict) and keys[0] in node:
                        yield node, keys[0]
                    return
                if keys[0] == "*":
                    for x in (node if isinstance(node, list) else list(node.values())):
                        yield from walk(x, keys[1:])
                elif isinstance(node, dict) and keys[0] in node:
                    yield from walk(node[keys[0]], keys[1:])

            for k, (cont, key) in enumerate(list(walk(sc, keys))):
                val = cont[key]
                if isinstance(val, dict):
                    cands = ({x: val[x] for x in ks} for ks in shrink_list(list(val), lo))
                elif isinstance(val, list):
                    cands = shrink_list(val, lo)
                else:
                    continue
                for cand in cands:
                    new = json.loads(json.dumps(sc))
                    c2, k2 = list(walk(new, keys))[k]
                    c2[k2] = cand
                    yield new
    return shrink


# -- replay ---------------------------------------------------------------------------

def replay_path(pid, seed, idx):
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    return os.path.join(OUT, "replays", f"{pid}-{seed}-{idx}.json")


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = load_prop(rec["property"])
    res = run_forked(prop, lambda: rec["scenario"], 600, limited=rec.get("limited", False))
    return rec, res


def confirm(path):
    """Replay in a fresh process; True if it shows the same violation and digest."""
    import subprocess
    p = subprocess.run([sys.executable, "-m", "dst", "replay", path, "--json"], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, DST_REEXEC=""))
    lines = p.stdout.decode("utf-8", "replace").splitlines()
    try:
        return json.loads(lines[-1])
    except (ValueError, IndexError):
        return {"same": False, "output": lines[-5:]}


# -- the check ------------------------------------------------------------------------

def report(prop, pid, seed, tier, idx, res):
    """Print a violation found at idx if a fresh process repeats it, minimised if possible. -> 1 if so"""
    scenario = prop.generate(rng_for(seed, pid, idx), idx, tier)
    limited = res.get("limited", False)
    path = replay_path(pid, seed, idx)

    def confirmed(cand, tried):
        rec = make_record(prop, pid, seed, tier, idx, cand, limited, tried)
        if not rec:
            return None
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        conf = confirm(path)
        if conf.get("same"):
            return rec, ""
        again = conf.get("violation") and confirm(path).get("violation")
        if again and again["class"] == conf["violation"]["class"] == rec["violation"]["class"]:
            # The code under test depends on memory addresses or the like, which no seam covers.
            return rec, "NOTE: repeating the run shows the same kind of violation, but not the same trace"
        return None

    got = confirmed(scenario, 0)
    if not got:
        return 0
    small, _, tried = minimise(prop, scenario, res["violation"], limited,
                               MINIMISE or (60 if tier == "quick" else 180))
    if small != scenario:
        got = confirmed(small, tried) or confirmed(scenario, tried) or got
    rec, note = got
    if note:
        print(note)
    print(f"index {idx}: {rec['violation']['class']}: {str(rec['violation']['detail'])[:1500]}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def check(pid):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    prop = load_prop(pid)
    total = int(os.environ.get("VERIF_RUNS") or prop.RUNS[tier])
    budget = float(os.environ.get("VERIF_BUDGET") or (400 if tier == "quick" else 3000))
    print(f"property={pid} seed={seed} tier={tier} runs={total} workers={WORKERS} "
          f"repo={env.REPO}", flush=True)
    env.preload()
    if hasattr(prop, "prepare"):
        prop.prepare(tier)
    t_end = time.monotonic() + budget
    status = reported = start = 0
    aggs, unconfirmed = [], []
    while True:
        events, more = search(prop, seed, tier, start, total, max(1, t_end - time.monotonic()))
        aggs += more
        broken = False
        for idx, kind, payload in events:
            if kind == "harness":
                print(f"HARNESS-ERROR index={idx}\n{payload}", flush=True)
                broken = True
            elif not reported:
                reported = report(prop, pid, seed, tier, idx, payload)
                if not reported:
                    unconfirmed.append((idx, payload["violation"]))
        if broken:
            status = 2
        if reported or broken or not events or len(unconfirmed) > 40 or time.monotonic() > t_end:
            break
        # The code under test depends on something no seam covers, so look for a case that can be repeated.
        start = max(e[0] for e in events) + 1
    measured = [x for x in unconfirmed if x[1]["class"] in getattr(prop, "MEASURED", ())]
    for idx, v in measured:
        # A measurement, not a simulated event: the machine was busy.
        print(f"not confirmed: index={idx} {v}", flush=True)
        unconfirmed.remove((idx, v))
    if unconfirmed and not reported:
        for idx, v in unconfirmed[:5]:
            print(f"HARNESS-ERROR index={idx}: violation not reproduced by its replay: {v}", flush=True)
        status = 2
    if reported:
        status = 1
    if DIGESTS:
        with open(DIGESTS, "w") as f:
            f.writelines(f"{i} {d} {v}\n" for i, d, v in sorted(x for a in aggs for x in a.get("digests", [])))
    ev = evidence(prop, pid, seed, tier, aggs, reported, time.monotonic() - t0)
    mism = ev["coverage"]["determinism"]["mismatches"]
    if mism and not reported:
        # No verdict rests on these: they held both times, and violations are replayed before they count.
        print(f"NOTE: runs that took another course when repeated: {mism}")
    found = {}
    for a in aggs:
        for what, idx in a["findings"]:
            found.setdefault(what, idx)
    for e in load_known(pid):
        print(f"KNOWN-FINDING: property={pid} {e['what']}" +
              (f" (met at index {found[e['what']]})" if e["what"] in found else ""))
    done = sum(a["runs"] for a in aggs)
    if not reported and status == 0 and done == 0:
        print("HARNESS-ERROR no run was made")
        status = 2
    print(f"{pid}: {done} runs, {ev['coverage']['distinct_nontrivial']} distinct, "
          f"{ev['wall_s']:.1f} s, exit {status}", flush=True)
    return status


def make_record(prop, pid, seed, tier, idx, scenario, limited, tried):
    res = run_forked(prop, lambda: scenario, 300, limited=limited)
    v = res.get("violation")
    if not v:
        return None
    return {
        "property": pid, "seed": seed, "tier": tier, "index": idx, "limited": limited,
        "violation": v, "digest": res.get("digest"), "trace": res.get("trace"),
        "scenario": scenario, "minimisation_runs": tried,
        "replay_with": "cd /verif && /opt/venv/bin/python -m dst replay FILE",
    }


def _plain(x):
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in sorted(x.items())}
    if isinstance(x, (set, frozenset)):
        return len(x)
    return x


def evidence(prop, pid, seed, tier, aggs, violations, wall):
    stats, sigs, samples = {}, set(), []
    runs = nontriv = pairs = 0
    mism = []
    for a in aggs:
        runs += a["runs"]
        nontriv += a["nontrivial"]
        pairs += a["determinism_pairs"]
        mism += a["determinism_mismatch"]
        sigs |= a["sigs"]
        samples += a["samples"]
        for k, v in a["stats"].items():
            if isinstance(v, set):
                stats.setdefault(k, set()).update(v)
            elif isinstance(v, dict):
                add_stats(stats.setdefault(k, {}), v)
            else:
                stats[k] = stats.get(k, 0) + v
    samples.sort(key=lambda s: s["index"])
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sigs),
        "rule": prop.RULE,
        "samples": samples[:3] or [{"note": "no run finished"}],
        "runs_per_hour": round(runs / wall * 3600) if wall else 0,
        "determinism": {"pairs_run_twice": pairs, "mismatches": mism},
        "components_real": prop.REAL,
        "components_stubbed": prop.STUB,
        "measured": _plain(stats),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))
    return ev


def clock_library():
    """Build the simulated wall clock (once). -> its path, or None without a compiler"""
    import subprocess
    src = os.path.join(VERIF, "dst", "simclock.c")
    with open(src, "rb") as f:
        h = hashlib.blake2b(f.read(), digest_size=6).hexdigest()
    lib = os.path.join(OUT, f"simclock-{h}.so")
    if not os.path.exists(lib):
        os.makedirs(OUT, exist_ok=True)
        tmp = f"{lib}.{os.getpid()}"
        r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"])
        if r.returncode:
            return None
        os.replace(tmp, lib)
    return lib


def main(argv):
    if os.environ.get("DST_REEXEC") != "1":
        e = dict(os.environ, DST_REEXEC="1", PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"),
                 PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", TZ="UTC", LC_ALL="C.UTF-8", LANG="C.UTF-8",
                 PYTHONPATH=VERIF)
        for k in ("LANGUAGE", "LC_NUMERIC", "LC_TIME", "LC_CTYPE", "LC_MESSAGES", "PYTHONWARNINGS"):
            e.pop(k, None)
        lib = clock_library()
        if lib:
            e["LD_PRELOAD"] = lib
        os.execve(sys.executable, [sys.executable, "-m", "dst"] + argv, e)
    cmd = argv[0]
    if cmd == "setup":
        env.preload()
        print("clock library:", clock_library())
        return 0
    if cmd == "check":
        return check(argv[1])
    if cmd == "replay":
        env.preload()
        rec, res = replay(argv[1])
        v = res.get("violation")
        same = bool(v) and v["class"] == rec["violation"]["class"] and \
            res.get("digest") == rec.get("digest")
        if "--json" in argv:
            print(json.dumps({"same": same, "violation": v, "harness": res.get("harness")}))
        else:
            print(json.dumps(rec["scenario"], indent=1, ensure_ascii=False))
            print(json.dumps(res, indent=1, ensure_ascii=False))
            print("REPRODUCED" if same else "NOT REPRODUCED")
            if same:
                print(f"VIOLATION property={rec['property']} replay={argv[1]}")
        return 1 if same else 0
    if cmd == "show":
        env.preload()
        prop = load_prop(argv[1])
        if hasattr(prop, "prepare"):
            prop.prepare("quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        idx = int(argv[2])
        sc = prop.generate(rng_for(seed, argv[1], idx), idx, os.environ.get("VERIF_TIER", "quick"))
        print(json.dumps(sc, indent=1, ensure_ascii=False))
        res = run_forked(prop, lambda: sc, 300)
        if "harness" in res:
            print(res["harness"])
        print(json.dumps(res, indent=1, ensure_ascii=False)[:8000])
        return 0
    raise SystemExit("unknown command " + cmd)
