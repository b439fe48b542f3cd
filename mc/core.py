"""Shared explorer: runs every case of a bounded space on the real code, records what was covered.

A check module defines
    PROPERTY           property id
    cases(tier)        list of JSON-serialisable cases, simplest first (the complete bounded space)
    run(case, rec)     drives the real code for one case; raises Violation when the property fails
    ASSUMPTIONS, BOUNDS (texts for the evidence)
`run` counts what it does in `rec`: rec.state(canonical bytes/obj), rec.step(n), rec.trace(n).
"""
import hashlib
import json
import multiprocessing as mp
import os
import queue
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "300"))


class Violation(Exception):
    """The property does not hold; key identifies the failing input/call site/history."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


def digest(obj):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, obj)
    return int.from_bytes(h.digest(), "little")


def _feed(h, obj):
    import torch

    if isinstance(obj, bytes):
        h.update(b"b" + obj)
    elif isinstance(obj, torch.Tensor):
        t = obj.detach().cpu()
        h.update(("t%s" % (tuple(t.shape),)).encode())
        if t.is_floating_point():
            t = torch.nan_to_num(t.double(), nan=-12345.5, posinf=1e30, neginf=-1e30)
            t = (t * 1e4).round() + 0.0
        h.update(t.contiguous().numpy().tobytes())
    elif isinstance(obj, (list, tuple)):
        h.update(b"[")
        for o in obj:
            _feed(h, o)
        h.update(b"]")
    elif isinstance(obj, dict):
        h.update(b"{")
        for k in sorted(obj, key=repr):
            h.update(repr(k).encode())
            _feed(h, obj[k])
        h.update(b"}")
    elif isinstance(obj, float):
        h.update(("f%.4f" % obj).encode())
    else:
        h.update(repr(obj).encode())
    h.update(b";")


class Recorder:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.counters = {}

    def state(self, obj):
        d = digest(obj)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)


# ---------------------------------------------------------------- comparisons
def expect(cond, msg, key=None):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg, key)


def expect_close(name, got, want, atol=1e-5, rtol=1e-5, key=None, dtype=False):
    import torch

    if want is None or got is None:
        if want is not None or got is not None:
            raise Violation("%s: got %r, want %r" % (name, got, want), key)
        return
    if not torch.is_tensor(got):
        got = torch.as_tensor(got)
    if not torch.is_tensor(want):
        want = torch.as_tensor(want)
    if tuple(got.shape) != tuple(want.shape):
        raise Violation("%s: shape %s, want %s" % (name, tuple(got.shape), tuple(want.shape)), key)
    if dtype and got.dtype != want.dtype:
        raise Violation("%s: dtype %s, want %s" % (name, got.dtype, want.dtype), key)
    if got.numel() == 0:
        return
    got, want = got.detach(), want.detach()
    if got.dtype == want.dtype:
        if torch.equal(got, want):
            return
        if got.is_floating_point() and torch.allclose(got, want, rtol, atol, equal_nan=True):
            return
    g, w = got.double(), want.double()
    nan_g, nan_w = torch.isnan(g), torch.isnan(w)
    ok = (nan_g == nan_w) & (nan_g | (g == w) | ((g - w).abs() <= atol + rtol * w.abs()))
    if not bool(ok.all()):
        bad = (~ok).nonzero()
        i = tuple(bad[0].tolist()) if bad.numel() else ()
        raise Violation("%s: %d of %d values differ, first at %s: got %r, want %r" % (
            name, int((~ok).sum()), ok.numel(), i, float(g[i]) if i or g.ndim == 0 else float(g),
            float(w[i]) if i or w.ndim == 0 else float(w)), key)


def expect_raises(fn, msg, kinds=(Exception,), key=None):
    try:
        fn()
    except kinds:
        return
    raise Violation(msg, key)


# ---------------------------------------------------------------- driver
def _worker(module, cases, counter, chunk, cur, started, slot, out, deadline):
    import torch

    torch.set_num_threads(1)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if os.environ.get("VERIF_WORKER_TRACEBACK"):
        import faulthandler

        faulthandler.enable()
    rec = Recorder()
    done = 0
    nviol = 0
    while True:
        with counter.get_lock():
            a = counter.value
            counter.value = min(len(cases), a + chunk)
        if a >= len(cases) or (deadline and time.time() > deadline):
            break
        for i in range(a, min(len(cases), a + chunk)):
            cur[slot] = i
            started[slot] = time.time()
            try:
                module.run(cases[i], rec)
            except HarnessError:
                out.put(("error", i, traceback.format_exc()))
                return
            except Violation as e:
                nviol += 1
                if nviol <= 50:
                    out.put(("violation", i, str(e), e.key, getattr(e, "case", None)))
            except Exception as e:  # the code under test failed where the property says it works
                nviol += 1
                if nviol <= 50:
                    out.put(("violation", i, "unexpected %s: %s\n%s" % (
                        type(e).__name__, e, traceback.format_exc()[-1500:]), getattr(e, "key", None), getattr(e, "case", None)))
            done += 1
    cur[slot] = -1
    out.put(("done", slot, done, rec.states, rec.transitions, rec.traces, rec.samples, rec.counters))


def load_known(pid):
    """-> {key: text} of known findings of this property (fixed: lines suppress nothing)."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding: property=%s " % pid):
                continue
            rest = line.split(" ", 2)[2]
            assert rest.startswith("key="), line
            key, _, text = rest[4:].partition(" ")
            known[key] = text
    return known


def _write_replay(pid, n, case, msg, key):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(path, "w") as fh:
        json.dump({"property": pid, "case": case, "message": msg, "key": key,
                   "replay_cmd": "/verif/run.sh %s --replay %s" % (pid, path)}, fh, indent=1)
    return path


def main(module, argv):
    t0 = time.time()
    pid = module.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as fh:
            r = json.load(fh)
        try:
            module.run(r["case"], Recorder())
        except Violation as e:
            print("replayed: %s" % e)
            return 1
        print("replay: no violation")
        return 0
    replay_dir = os.path.join(VERIF, "replays")
    if os.path.isdir(replay_dir):
        for f in os.listdir(replay_dir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(replay_dir, f))
    cases = list(module.cases(tier))
    # round trip through JSON, so that a replay sees exactly what the run saw
    cases = json.loads(json.dumps(cases))
    budget = getattr(module, "BUDGET", {"quick": 420, "thorough": 0})[tier]
    deadline = t0 + budget if budget else 0
    nw = min(int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 8), max(1, len(cases)))
    chunk = max(1, min(getattr(module, "CHUNK", 64), len(cases) // (nw * 4) or 1))
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0)
    cur = ctx.Array("l", [-1] * 64, lock=False)
    started = ctx.Array("d", [0.0] * 64, lock=False)
    out = ctx.Queue()
    procs = {}

    def spawn(slot):
        cur[slot] = -2
        p = ctx.Process(target=_worker, args=(module, cases, counter, chunk, cur, started, slot, out, deadline))
        p.start()
        procs[slot] = p

    for s in range(nw):
        spawn(s)
    rec = Recorder()
    ndone = 0
    violations = []
    errors = []
    finished = set()
    nslot = nw
    gone = {}
    while len(finished) < len(procs):
        try:
            m = out.get(timeout=0.5)
        except queue.Empty:
            m = None
        if m is not None:
            if m[0] == "done":
                _, slot, done, st, tr, tc, sm, cn = m
                finished.add(slot)
                ndone += done
                rec.states |= st
                rec.transitions += tr
                rec.traces += tc
                rec.samples += sm
                for k, v in cn.items():
                    rec.counters[k] = rec.counters.get(k, 0) + v
            elif m[0] == "violation":
                violations.append(m[1:])
            else:
                errors.append(m[1:])
                break
            continue
        for slot, p in list(procs.items()):
            if slot in finished:
                continue
            if not p.is_alive():
                gone[slot] = gone.get(slot, 0) + 1
                if gone[slot] < 4:
                    continue  # its last messages may still be in the pipe
                i = cur[slot]
                finished.add(slot)
                if p.exitcode == 0 and i == -1:
                    errors.append((i, "worker result lost"))
                elif i >= 0:
                    violations.append((i, "the process running this case died (exit code %s)" % p.exitcode, None, None))
                    if nslot < 60:
                        spawn(nslot)
                        nslot += 1
                else:
                    errors.append((i, "worker died before its first case, exit code %s" % p.exitcode))
            elif cur[slot] >= 0 and time.time() - started[slot] > CASE_TIMEOUT:
                violations.append((cur[slot], "no result within %.0f s" % CASE_TIMEOUT, None, None))
                p.kill()
                p.join()
                finished.add(slot)
                if nslot < 60:
                    spawn(nslot)
                    nslot += 1
    for p in procs.values():
        if errors:
            p.kill()
        p.join(5)
    if errors:
        print("check %s: harness error in case %s:\n%s" % (pid, errors[0][0], errors[0][1]), file=sys.stderr)
        return 2
    known = load_known(pid)
    violations.sort(key=lambda v: v[0])
    new = [v for v in violations if not (v[2] and v[2] in known)]
    seen_known = {v[2] for v in violations if v[2] and v[2] in known}
    wall = time.time() - t0
    coverage = {
        "states": len(rec.states),
        "transitions": rec.transitions,
        "traces_validated_against_impl": rec.traces,
        "samples": rec.samples[:6],
        "cases": len(cases),
        "cases_completed": ndone,
        "exhaustive": ndone >= len(cases) and not violations,
        "bounds": module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
        "counters": rec.counters,
    }
    if ndone < len(cases) and not violations:
        coverage["cap"] = "time budget of %d s reached; %d of %d cases were not started" % (
            budget, len(cases) - ndone, len(cases))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": coverage, "assumptions": list(module.ASSUMPTIONS),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s%s" % (pid, known[k], "" if k in seen_known else " (not met in this tier)"))
    print("%s %s: cases %d/%d states %d transitions %d traces %d %s wall %.1fs" % (
        pid, tier, ndone, len(cases), len(rec.states), rec.transitions, rec.traces, rec.counters, wall))
    if new:
        sigs, first = set(), []
        for v in new:  # one violation of each kind first
            sig = re.sub(r"[-\d.]+", "#", v[1].split("]: ")[-1])[:90]
            if sig not in sigs:
                sigs.add(sig)
                first.append(v)
        for n, (i, msg, key, case) in enumerate(first[:10]):
            case = cases[i] if case is None else case
            path = _write_replay(pid, n, case, msg, key)
            print("  case %d %s: %s" % (i, json.dumps(case)[:300], msg[:1500]), file=sys.stderr)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
