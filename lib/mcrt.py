"""Runtime of the checks: exhaustive case enumeration, recording, verdict, evidence.

A check module defines
    LEVEL, TECHNIQUE-free metadata: RULE (str), ASSUMPTIONS (list)
    cases(tier) -> list of JSON-able case descriptors (the enumerated space, complete and finite)
    run(case, rec) -> None     explores everything below that case
and reports through `rec`:
    rec.state(...)   a (distinct) model/implementation state was reached; arguments identify it
    rec.step(n)      n transitions were taken
    rec.trace()      one complete model trace was compared with the implementation
    rec.fail(key, text)  the property does not hold; `key` identifies the failing input or history
    rec.check(cond, key, text)
    rec.expect(exc types)...
Any exception that escapes run() is a failure of the property as well: the enumerated programs are
all legal uses of the library.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import struct
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAILS = 12
CASE_CPU_S = 120.0


class Skip(Exception):
    """The configuration of this case is rejected by the library as unsupported."""


def _digest(parts):
    import numpy as np
    import torch
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, torch.Tensor):
            a = p.detach().cpu().contiguous().numpy()
            h.update(str(a.shape).encode())
            h.update(a.tobytes())
        elif isinstance(p, np.ndarray):
            h.update(str(p.shape).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return struct.unpack("<q", h.digest())[0]


class Rec:
    def __init__(self, case):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self.skipped = 0
        self.sample = None
        self._keys = set()

    def state(self, *parts):
        self.states.add(_digest(parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def note(self, text):
        if self.sample is None:
            self.sample = text

    def fail(self, key, text):
        if key in self._keys:
            return
        self._keys.add(key)
        if len(self.fails) < MAX_FAILS:
            self.fails.append((key, str(text)[:4000]))

    def check(self, cond, key, text=""):
        if not cond:
            self.fail(key, text() if callable(text) else text)
        return bool(cond)


def close(a, b, rtol=1e-4, atol=1e-6):
    import torch
    a = torch.as_tensor(a, dtype=torch.float64)
    b = torch.as_tensor(b, dtype=torch.float64)
    return a.shape == b.shape and torch.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def same(a, b):
    import torch
    if a is None or b is None:
        return a is b
    return a.shape == b.shape and bool(torch.equal(a, b) or torch.equal(
        torch.nan_to_num(a), torch.nan_to_num(b)))


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def _one(mod, case):
    import mcrng
    rec = Rec(case)
    mcrng.reset(1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            mod.run(case, rec)
        except Skip as e:
            rec.skipped = 1
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/aihwkit/" in f.filename] or tb
            # the site of the exception, without line numbers: stable under edits
            key = "exception:%s@%s" % (type(e).__name__, where[-1].name)
            rec.fail(key, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
    return rec


def _worker(mod, jobs, counter, lock, current, slot, out):
    import torch
    torch.set_num_threads(1)
    res = []
    states = set()
    trans = traces = skipped = 0
    n = 0
    try:
        while True:
            with lock:
                i = counter.value
                counter.value += 1
            if i >= len(jobs):
                break
            current[slot] = i
            # a case that never comes back is a failure of that case: SIGPROF (CPU time) ends it
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
            rec = _one(mod, jobs[i])
            signal.setitimer(signal.ITIMER_PROF, 0)
            n += 1
            states |= rec.states
            trans += rec.transitions
            traces += rec.traces
            skipped += rec.skipped
            if rec.fails or rec.sample is not None or n <= 1:
                res.append((i, rec.fails, rec.sample, len(rec.states), rec.transitions))
                if len(res) > 400:
                    res = [r for r in res if r[1]][:200] + [r for r in res if not r[1]][:50]
        current[slot] = -1
        out.send((res, states, trans, traces, skipped, n))
    except BaseException:  # noqa
        out.send(("error", traceback.format_exc()))
    out.close()


def explore(mod, jobs, njobs):
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0, lock=False)
    lock = ctx.Lock()
    current = ctx.Array("l", [-1] * njobs, lock=False)
    procs = []
    for s in range(njobs):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(mod, jobs, counter, lock, current, s, b))
        p.start()
        b.close()
        procs.append((p, a, s))
    results, states, trans, traces, skipped, done, crashes = [], set(), 0, 0, 0, 0, []
    todo = list(procs)
    while todo:
        ready = mp.connection.wait([a for _, a, _ in todo])
        for p, a, s in list(todo):
            if a not in ready:
                continue
            todo.remove((p, a, s))
            try:
                msg = a.recv()
            except EOFError:
                p.join()
                i = current[s]
                crashes.append((i, p.exitcode))
                # the rest of the space is still explored, by a fresh worker in the same slot
                if len(crashes) < 6:
                    x, y = ctx.Pipe(duplex=False)
                    q = ctx.Process(target=_worker,
                                    args=(mod, jobs, counter, lock, current, s, y))
                    q.start()
                    y.close()
                    todo.append((q, x, s))
                continue
            p.join()
            if msg[0] == "error":
                raise RuntimeError(msg[1])
            r, st, t, tr, sk, n = msg
            results += r
            states |= st
            trans += t
            traces += tr
            skipped += sk
            done += n
    return results, states, trans, traces, skipped, done, crashes


def _evidence(prop, doc):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def _replay_file(prop, key, case, text):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha256((key + repr(case)).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop, "key": key, "case": case, "what": text,
                   "rerun": "bash run.sh %s --replay %s" % (prop, path)}, f, indent=1, default=str)
    return path


def import_failure(prop, tier, text):
    path = _replay_file(prop, "import", None, text)
    _evidence(prop, {"property": prop, "tier": tier, "seed": _seed(), "level": "other",
                     "coverage": {"explanation": "library could not be imported: " + text[-500:]},
                     "violations": 1, "wall_s": 0.0})
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  import failure: " + text[-1500:])
    sys.exit(1)


def _seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def drive(prop, mod, tier, replay):
    import mcrng
    t0 = time.time()
    if not mcrng.self_test():
        print("the random-number shim is not in effect", file=sys.stderr)
        return 2
    if replay:
        with open(replay) as f:
            doc = json.load(f)
        rec = _one(mod, doc["case"])
        for k, t in rec.fails:
            print("FAIL %s\n%s" % (k, t))
        print("states=%d transitions=%d traces=%d skipped=%d" % (
            len(rec.states), rec.transitions, rec.traces, rec.skipped))
        return 1 if rec.fails else 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        jobs = list(mod.cases(tier))
    only = os.environ.get("MC_ONLY")
    if only:
        jobs = [j for j in jobs if only in repr(j)]
    njobs = int(os.environ.get("MC_JOBS", "8"))
    # a fixed, seed-independent permutation spreads expensive neighbours over the workers
    order = sorted(range(len(jobs)), key=lambda i: hashlib.md5(str(i).encode()).digest())
    if not os.environ.get("MC_INORDER"):
        jobs = [jobs[i] for i in order]
    sys.stdout.flush()
    results, states, trans, traces, skipped, done, crashes = explore(mod, jobs, njobs)
    fails = {}
    for i, fl, _, _, _ in results:
        for k, t in fl:
            fails.setdefault(k, []).append((jobs[i], t))
    for i, code in crashes:
        k = "crash:%s" % code
        fails.setdefault(k, []).append((jobs[i] if i >= 0 else None,
                                        "worker process died with exit code %s" % code))
    known = {f["key"]: f for f in known_findings(prop)}
    seen_known, new = [], []
    for k, lst in sorted(fails.items()):
        if k in known:
            seen_known.append(k)
        else:
            new.append((k, lst))
    if not jobs or (trans == 0 and not new):
        new.append(("vacuous", [(None, "no transition was explored")]))
    wall = time.time() - t0
    samples = []
    for i, fl, s, ns, nt in results:
        if s is not None and len(samples) < 6:
            samples.append({"case": jobs[i], "observed": s})
    for i, fl, s, ns, nt in results:
        if len(samples) < 3:
            samples.append({"case": jobs[i], "states": ns, "transitions": nt})
    cov = {
        "states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
        "cases": done, "cases_rejected_by_library": skipped, "exhaustive": not crashes,
        "evaluations": trans, "distinct_nontrivial": len(states),
        "rule": getattr(mod, "RULE", ""), "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "samples": samples, "known_findings_seen": seen_known,
    }
    _evidence(prop, {"property": prop, "tier": tier, "seed": _seed(),
                     "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
                     "assumptions": getattr(mod, "ASSUMPTIONS", []),
                     "violations": len(new), "wall_s": round(wall, 2)})
    print("%s %s: cases=%d states=%d transitions=%d traces=%d skipped=%d wall=%.1fs" % (
        prop, tier, done, len(states), trans, traces, skipped, wall))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    if os.environ.get("MC_KEYS"):
        for k, lst in new:
            print("%5d %s" % (len(lst), k))
        return 1 if new else 0
    for k, lst in new[:20]:
        case, text = min(lst, key=lambda ct: len(repr(ct[0])))
        path = _replay_file(prop, k, case, text)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s  cases=%d  first=%s" % (k, len(lst), json.dumps(case, default=str)[:600]))
        for line in text.strip().splitlines()[-14:]:
            print("    " + line[:300])
    return 1 if new else 0
