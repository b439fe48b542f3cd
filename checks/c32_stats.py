"""C32: training statistics always report the average of what was logged.

Every history (up to a depth) of updates of several stat sets, epoch starts, resets, saves and loads, added variables
and synchronisations runs on the real Stats object next to a model that only keeps lists of logged values; after every
operation all reports (averages per epoch, status text, drawn curves) are compared with the lists.
"""
import copy
import logging
import math
import os
import re
import shutil
import tempfile

import torch

from mc.core import expect

PROPERTY = "C32"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
BOUNDS = {
    "quick": "all histories of 4 operations over an alphabet of 14 and of 5 over 9 of them (updates of two stat sets with all / some / no "
             "values, frozen iterations, epoch starts, reset, save+load, add_log_vars, synchronize_logged_vars, with "
             "block with and without error)",
    "thorough": "all histories of 5 operations over the 14 and of 6 over the 9",
}
ASSUMPTIONS = [
    "values are logged once each (n=1, as Stats does); a variable without value in a stat set since the last reset may "
    "be left out of a report, but what is reported must be right",
    "after synchronisation, NaN stands for epochs in which nothing was logged",
]
NAN = float("nan")

SMALL = ["u0", "u1", "v1", "ne", "rs", "sl", "ad", "sy", "wi"]
OPS = ["u0", "u1", "u2", "v0", "v1", "fz", "ne", "rs", "sl", "ad", "sy", "sz", "wi", "we"]
PREDS = {
    "u0": ("train", {"a": 1.0, "b": 3}),
    "u1": ("train", {"a": "t2.5", "c": 0.0}),
    "u2": ("train", {"x": 1.0}),
    "v0": ("val", {"a": "v1,4", "b": -2.0}),
    "v1": ("val", {"b": 0.0, "c": -1.0, "val": 4.0}),
    "fz": ("train", {"a": 7.0}),
}


def value(v):
    if v == "t2.5":
        return torch.tensor(2.5, requires_grad=True)
    if v == "v1,4":
        return torch.tensor([1.0, 4.0])
    return v


def number(v):
    return {"t2.5": 2.5, "v1,4": 5.0}.get(v, v) if isinstance(v, str) else float(v)


class Model:
    def __init__(self, log_vars):
        self.vars = list(log_vars)
        self.epoch = -1
        self.sets = {}  # set -> var -> {epoch: [values]}
        self.now = {}   # set -> var -> values since the last reset
        self.it = {}
        self.filled = set()  # (set, var): filled with NaN in `fill_epoch` by a synchronisation in mid-epoch
        self.fill_epochs = set()

    def copy(self):
        return copy.deepcopy(self)

    def reset(self):
        for s in self.sets:
            self.it[s] = -1
            self.now[s] = {}
        self.filled = set()

    def new_epoch(self):
        self.epoch += 1
        self.reset()

    def update(self, s, preds, freeze):
        if self.epoch == -1:
            self.new_epoch()
        if s not in self.sets:
            self.sets[s], self.it[s], self.now[s] = {}, -1, {}
        if not freeze:
            self.it[s] += 1
        for v in self.vars:
            h = self.sets[s].setdefault(v, {})
            if v in preds:
                h.setdefault(self.epoch, []).append(number(preds[v]))
                self.now[s].setdefault(v, []).append(number(preds[v]))

    def synchronize(self, log_vars):
        for s in self.sets:
            self.sets[s] = {v: h for v, h in self.sets[s].items() if v in log_vars}
            self.now[s] = {v: h for v, h in self.now[s].items() if v in log_vars}
            for v in log_vars:
                self.sets[s].setdefault(v, {})
                if self.epoch not in self.sets[s][v]:
                    self.filled.add((s, v))
                    self.fill_epochs.add((s, v, self.epoch))
        self.vars = list(log_vars)


class Viz:
    def __init__(self):
        self.lines = []

    def check_connection(self):
        return True

    def close(self, **k):
        self.lines = []

    def line(self, Y=None, X=None, name=None, win=None, opts=None, **k):
        self.lines.append((win, name, list(map(float, X)), list(map(float, Y)), opts["title"]))


VIZ = Viz()
DIR = None


def mean(x):
    return sum(x) / len(x) if x else NAN


def same(a, b, nan_ok=False):
    return (a != a and (nan_ok or b != b)) or abs(a - b) <= 1e-9 * max(1.0, abs(b))


def apply(st, m, op, tag):
    from pytorch3d.implicitron.tools.stats import Stats

    if op in PREDS:
        s, preds = PREDS[op]
        st.update({k: value(v) for k, v in preds.items()}, stat_set=s, freeze_iter=op == "fz")
        m.update(s, preds, op == "fz")
    elif op == "ne":
        st.new_epoch()
        m.new_epoch()
    elif op == "rs":
        st.reset()
        m.reset()
    elif op == "sl":
        p = os.path.join(DIR, "s%d" % os.getpid())
        st.save(p)
        st = Stats.load(p)
    elif op == "ad":
        st.add_log_vars(["c", "val"])
        m.vars += [v for v in ("c", "val") if v not in m.vars]
    elif op == "sy":
        st.synchronize_logged_vars(["a", "c"])
        m.synchronize(["a", "c"])
    elif op == "sz":
        st.synchronize_logged_vars(["b", "a"])
        m.synchronize(["b", "a"])
    elif op in ("wi", "we"):
        m.new_epoch()
        try:
            with st:
                check(st, m, tag + " inside with")
                st.update({"a": 10.0, "b": 20.0}, stat_set="train")
                m.update("train", {"a": 10.0, "b": 20.0}, False)
                if op == "we":
                    raise RuntimeError("in the block")
        except RuntimeError as e:
            expect(op == "we" and str(e) == "in the block", "%s: error %s" % (tag, e))
        else:
            expect(op == "wi", "%s: the error of the with block is swallowed" % tag)
    return st


def check(st, m, tag):
    expect(st.epoch == m.epoch, "%s: epoch %r, want %r" % (tag, st.epoch, m.epoch))
    expect(list(st.log_vars) == m.vars, "%s: log_vars %s, want %s" % (tag, list(st.log_vars), m.vars))
    expect(sorted(st.stats) == sorted(m.sets), "%s: stat sets %s, want %s" % (tag, sorted(st.stats), sorted(m.sets)))
    for e in [None, -1] + list(range(m.epoch + 1)):
        try:
            got = st.get_epoch_averages(epoch=e)
        except Exception as exc:
            expect(False, "%s: get_epoch_averages(%s) fails: %s: %s" % (tag, e, type(exc).__name__, exc))
        expect(sorted(got) == sorted(m.sets), "%s: averages of sets %s" % (tag, sorted(got)))
        for s, d in got.items():
            expect(d["it"] == m.it[s], "%s: it of %s is %s, want %s" % (tag, s, d["it"], m.it[s]))
            expect(d["epoch_max"] == m.epoch, "%s: epoch_max %s" % (tag, d["epoch_max"]))
            # variables with values since the reset must be reported
            for v, now in m.now[s].items():
                expect(not now or v in d, "%s: get_epoch_averages(%s) leaves out %s:%s" % (tag, e, s, v))
            for v, val in d.items():
                if v in ("it", "epoch", "epoch_max"):
                    continue
                h = m.sets[s].get(v)
                expect(h is not None, "%s: unknown variable %s:%s reported" % (tag, s, v))
                if e == -1:
                    want = [mean(h.get(i, [])) for i in range(m.epoch)]
                    expect(len(val) == len(want) and all(same(x, y, (s, v, i) in m.fill_epochs)
                                                         for i, (x, y) in enumerate(zip(val, want))),
                           "%s: averages of %s:%s are %s, want %s" % (tag, s, v, val, want))
                else:
                    i = m.epoch if e is None else e
                    want = mean(h.get(i, []))
                    expect(same(val, want, (s, v, i) in m.fill_epochs), "%s: average of %s:%s in epoch %s is %r, want %r" % (tag, s, v, e, val, want))
    for s in m.sets:
        txt = st.get_status_string(stat_set=s, max_it=9)
        head = re.match(r"\[(.*?)\] \| epoch +(-?\d+) \| it +(-?\d+)/ 9 \|(.*)$", txt)
        expect(head and head.group(1) == s and int(head.group(2)) == m.epoch and int(head.group(3)) == m.it[s],
               "%s: status %r" % (tag, txt))
        shown = {k.strip(): float(x) for k, x in re.findall(r" ([^|:]+): *(-?[\d.]+|nan) \|", head.group(4))}
        for v, now in m.now[s].items():
            if now:
                expect(v in shown and (abs(shown[v] - mean(now)) <= 6e-4 or (s, v) in m.filled),
                       "%s: status %r, want %s:%s = %.3f" % (tag, txt, s, v, mean(now)))
        for v, x in shown.items():
            expect(m.now[s].get(v) or x != x, "%s: status %r reports %s, not logged since the reset" % (tag, txt, v))
    if m.epoch >= 0:
        st.plot_stats()
        drawn = {}
        for win, name, X, Y, title in VIZ.lines:
            expect((title, name) not in drawn, "%s: the curve %s:%s is drawn twice" % (tag, name, title))
            drawn[(title, name)] = (X, Y)
        for s in m.sets:
            for v in m.vars:
                h = m.sets[s].get(v, {})
                want = [(float(e), mean(x)) for e, x in sorted(h.items()) if x and (s, v, e) not in m.fill_epochs]
                got = list(zip(*drawn.pop((v, s), ([], []))))
                got = [g for g in got if (s, v, int(g[0])) not in m.fill_epochs]
                expect(len(got) == len(want) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(got, want)),
                       "%s: curve of %s:%s is %s, want %s" % (tag, s, v, got, want))
        expect(not drawn, "%s: curves of variables that are not logged: %s" % (tag, sorted(drawn)))


def snapshot(st):
    from pytorch3d.implicitron.tools.stats import Stats

    return copy.deepcopy(st)


def walk(st, m, hist, depth, rec, ops):
    if depth == 0:
        return
    for op in ops:
        s2, m2 = snapshot(st), m.copy()
        h = hist + [op]
        tag = "after %s" % " ".join(h)
        try:
            s2 = apply(s2, m2, op, tag)
            rec.step()
            new = rec.state((m2.epoch, m2.vars, m2.it, m2.sets, m2.now))
            check(s2, m2, tag)
        except Exception as e:
            if not hasattr(e, "key"):
                e.args = ("%s: %s" % (tag, e),)
            raise
        rec.trace()
        walk(s2, m2, h, depth - 1, rec, ops)


def run(case, rec):
    global DIR
    import warnings

    from pytorch3d.implicitron.tools import stats as mod

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    mod.get_visdom_connection = lambda *a, **k: VIZ
    DIR = tempfile.mkdtemp(prefix="c32_")
    try:
        init, prefix, depth, small = case
        lv = {"list": ["a", "b"], "tuple": ("a", "b")}[init]
        keep = list(lv)
        st, m = mod.Stats(lv, plot_file=None), Model(lv)
        for i, op in enumerate(prefix):
            tag = "after %s" % " ".join(prefix[:i + 1])
            st = apply(st, m, op, tag)
            check(st, m, tag)
            rec.step()
        walk(st, m, list(prefix), depth - len(prefix), rec, SMALL if small else OPS)
        expect(list(lv) == keep, "the list of variables given by the caller was changed to %s" % (lv,))
        rec.sample({"prefix": prefix, "states": len(rec.states)})
    finally:
        shutil.rmtree(DIR, ignore_errors=True)


def cases(tier):
    d = 4 if tier == "quick" else 5
    out = [["tuple", [], 3, False]]
    for small, ops in ((False, OPS), (True, SMALL)):
        for a in ops:
            for b in ops:
                out.append(["list", [a, b], d + small, small])
    return out
