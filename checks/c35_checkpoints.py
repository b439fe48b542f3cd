"""C35: resuming training always picks the newest complete checkpoint.

Explicit-state exploration of the real checkpoint code.  A state is the content of the experiment folder.  Saves,
purges and whole training runs execute on the real file system inside a scratch folder; every file operation is
observed through a Python audit hook (and around torch.save, whose writer is not audited), and the folder is
captured before it, so each captured folder is what a process killed at that point leaves behind.  Where a file was
written in place (it did not arrive by a rename within one file system), the torn variants are crash states too.
Every crash state is resumed with the code the trainer uses (model factory, load_stats, optimizer factory, run) and
its own crash states are explored in turn until no new state appears, so any number of successive crashes is covered.
"""
import copy
import gzip
import itertools
import json
import logging
import os
import shutil
import sys
import tempfile

import torch

from mc.core import Violation, expect

PROPERTY = "C35"
BUDGET = {"quick": 400, "thorough": 850}
CHUNK = 1
BOUNDS = {
    "quick": "model_io: all save/purge histories of up to 4 operations over 3 epochs, with and without optimizer, "
             "temporary folder on the same and on another file system, a crash before/after every file operation and "
             "torn variants of files written in place; training loop: 4 epochs, purge in {0,1,2,3}, 3 optimizers, "
             "4 learning-rate policies, all crash states closed under any number of further crashes",
    "thorough": "histories of up to 5 operations over 4 epochs; 5 epochs of training, all optimizer x policy x purge",
}
ASSUMPTIONS = [
    "a crash is the death of the process (what the kernel accepted stays on disk; no power loss), a rename inside one "
    "file system is atomic, and a file written in place may be cut at its start, middle or last byte",
    "a training run is deterministic given its seed (the loop re-seeds every epoch); log_vars has no wall-clock entry",
    "when several checkpoints share an epoch number the later one has replaced the earlier one completely; epochs are "
    "re-written only if they were not complete",
]

logging.disable(logging.CRITICAL)
_ACTIVE = None
_HOOKED = False


def _hook(event, args):
    rec = _ACTIVE
    if rec is None or rec.busy:
        return
    if event == "open" or event.startswith("os.") or event.startswith("shutil."):
        for a in args[:2]:
            if isinstance(a, bytes):
                a = os.fsdecode(a)
            if isinstance(a, str) and a.startswith(rec.root):
                rec.capture(event)
                return


class Capture:
    """Folder contents before every file operation of a block."""

    def __init__(self, exp, temp, mark=None):
        self.exp, self.temp = exp, temp
        self.root = os.path.dirname(exp)
        self.temp_root = temp
        self.busy = False
        self.snaps = []      # list of {name: bytes}, consecutive duplicates removed
        self.torn = []       # further crash states
        self.known = {}      # (dev, inode) -> bytes, for files seen anywhere
        self.tags = []
        self.mark = mark

    def capture(self, event="end"):
        self.busy = True
        try:
            files, fresh = {}, []
            for base, _, names in itertools.chain(os.walk(self.exp), os.walk(self.temp)):
                for n in names:
                    p = os.path.join(base, n)
                    try:
                        st = os.stat(p)
                        data = open(p, "rb").read()
                    except OSError:
                        continue
                    ino = (st.st_dev, st.st_ino)
                    inside = base.startswith(self.exp)
                    if inside:
                        rel = os.path.relpath(p, self.exp)
                        files[rel] = data
                        if self.known.get(ino) != data:
                            fresh.append(rel)
                    self.known[ino] = data
            if not self.snaps or files != self.snaps[-1]:
                prev = self.snaps[-1] if self.snaps else {}
                if self.snaps:
                    for rel in fresh:
                        if prev.get(rel) == files[rel]:
                            continue
                        data = files[rel]
                        for cut in sorted({0, len(data) // 2, max(0, len(data) - 1)}):
                            for rest in (prev, files):
                                t = dict(rest)
                                t[rel] = data[:cut]
                                self.torn.append((t, self.mark))
                self.snaps.append(files)
                self.tags.append(self.mark)
        finally:
            self.busy = False

    def __enter__(self):
        global _ACTIVE, _HOOKED
        if not _HOOKED:
            sys.addaudithook(_hook)
            _HOOKED = True
        self.capture("start")
        self.old_save = torch.save

        def save(*a, **k):
            self.capture("torch.save")
            out = self.old_save(*a, **k)
            self.capture("torch.save done")
            return out

        torch.save = save
        self.old_tmp = tempfile.tempdir
        tempfile.tempdir = self.temp
        _ACTIVE = self
        return self

    def __exit__(self, *a):
        global _ACTIVE
        _ACTIVE = None
        torch.save = self.old_save
        tempfile.tempdir = self.old_tmp
        self.capture("end")

    def states(self):
        return list(zip(self.snaps, self.tags)) + self.torn


def norm(name, data):
    if name.endswith(".jgz"):
        try:
            return ("gz", gzip.decompress(data))
        except Exception:
            return ("torn", data)
    return ("raw", data)


def key_of(files):
    return tuple(sorted((n, norm(n, d)) for n, d in files.items() if os.sep not in n))


class Scratch:
    def __init__(self, other_fs=False, exp="exp"):
        self.dir = tempfile.mkdtemp(prefix="c35_", dir="/tmp")
        self.exp = os.path.join(self.dir, "o", exp)
        os.makedirs(self.exp)
        self.other = tempfile.mkdtemp(prefix="c35_", dir="/dev/shm") if other_fs else None
        self.temp = self.other or os.path.join(self.dir, "o", "tmp")
        os.makedirs(self.temp, exist_ok=True)

    def restore(self, files):
        for p in (self.exp, self.temp):
            shutil.rmtree(p)
            os.makedirs(p)
        for n, d in files.items():
            p = os.path.join(self.exp, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.other:
            shutil.rmtree(self.other, ignore_errors=True)


# ---------------------------------------------------------------- level 1: model_io histories
def plain(x):
    if torch.is_tensor(x):
        return (tuple(x.shape), str(x.dtype), x.double().flatten().tolist())
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def make_job(epoch, with_opt, gen=0):
    from pytorch3d.implicitron.tools.stats import Stats

    torch.manual_seed(epoch + 100 * gen)
    model = torch.nn.Linear(3, 2)
    opt = torch.optim.SGD(model.parameters(), lr=0.5 / (epoch + 1), momentum=0.9) if with_opt else None
    model(torch.ones(1, 3)).sum().backward()
    if opt:
        opt.step()
    stats = Stats(["objective"], do_plot=False)
    for e in range(epoch + 1):
        stats.new_epoch()
        stats.update({"objective": float(e + 0.5 + 10 * gen)})
    return model, stats, opt


def want_of(model, stats, opt):
    return (plain(model.state_dict()), json.dumps(stat_view(stats), sort_keys=True),
            plain(opt.state_dict()) if opt else None)


def stat_view(stats):
    return {"epoch": stats.epoch, "it": stats.it, "log_vars": list(stats.log_vars),
            "history": {s: {v: logged(m.history, stats.epoch) for v, m in d.items()} for s, d in stats.stats.items()}}


def logged(history, epoch):
    """Per epoch the logged values; NaN stands for "nothing logged"."""
    return [[x for x in (history[e] if e < len(history) else []) if x == x] for e in range(epoch + 1)]


def got_of(loaded):
    m, s, o = loaded
    return (plain(m), json.dumps(stat_view(s), sort_keys=True) if s is not None else None,
            plain(o) if o is not None else None)


def run_io(case, rec):
    from pytorch3d.implicitron.tools import model_io

    _, ops, with_opt, other, name = case
    with Scratch(other, name) as sc:
        reached = {key_of({}): {}}
        states = [({}, {}, frozenset())]  # (files, complete {epoch: content}, in doubt {epoch...})
        # breadth-first over the operations: after each, the finished state and every crash state go on
        frontier = [({}, {}, {})]
        for i, (op, epoch) in enumerate(ops):
            nxt, seen = [], set()
            for files, complete, doubt in frontier:
                sc.restore(files)
                path = model_io.get_checkpoint(sc.exp, epoch)
                if op == "save" and (epoch in complete):
                    continue  # re-writing a complete epoch is outside the bounds
                want = None
                with Capture(sc.exp, sc.temp) as cap:
                    if op == "save":
                        model, stats, opt = make_job(epoch, with_opt, i)
                        want = want_of(model, stats, opt)
                        model_io.safe_save_model(model, stats, path, optimizer=opt)
                    else:
                        model_io.purge_epoch(sc.exp, epoch)
                rec.step()
                after = dict(complete)
                if op == "save":
                    after[epoch] = want
                else:
                    after.pop(epoch, None)
                final = cap.snaps[-1]
                for snap, _ in cap.states():
                    done = snap is final
                    k = (key_of(snap), done)
                    if k in seen:
                        continue
                    seen.add(k)
                    rec.state(repr(key_of(snap)).encode())
                    sc.restore(snap)
                    must = after if done else {e: w for e, w in complete.items() if not (op == "purge" and e == epoch)}
                    may = dict(must)
                    if not done:
                        may.update(after if op == "save" else complete)
                    check_io(model_io, sc, must, may, "after %s with %s" % (
                        ops[:i + 1], "no crash" if done else "a crash during the last one"), with_opt)
                    rec.trace()
                    if done or i + 1 < len(ops):
                        # in a crash state, an epoch whose checkpoint is found and whole counts as complete
                        comp = dict(must)
                        for e, w in may.items():
                            if e not in comp and os.path.isfile(model_io.get_checkpoint(sc.exp, e)):
                                comp[e] = w
                        nxt.append((snap, comp, {}))
            frontier = nxt


def check_io(model_io, sc, must, may, where, with_opt):
    last = model_io.find_last_checkpoint(sc.exp)
    if last is None:
        expect(not must, "%s: no checkpoint is found although epochs %s were completely written" % (where, sorted(must)))
    else:
        expect(os.path.dirname(last) == sc.exp, "%s: checkpoint outside the experiment folder: %s" % (where, last))
        e = model_io.parse_epoch_from_model_path(last)
        expect(e in may, "%s: epoch %d is picked although it was never completely written" % (where, e))
        expect(not must or e >= max(must), "%s: epoch %d is picked, newest complete is %s" % (where, e, sorted(must)))
        check_load(model_io, last, may[e], where, e)
    every = model_io.find_last_checkpoint(sc.exp, all_checkpoints=True)
    every = every or []
    epochs = [model_io.parse_epoch_from_model_path(p) for p in every]
    expect(epochs == sorted(set(epochs)), "%s: all_checkpoints not in order: %s" % (where, epochs))
    expect(set(must) <= set(epochs) <= set(may), "%s: all_checkpoints lists %s, complete are %s" % (
        where, epochs, sorted(must)))
    for e, p in zip(epochs, every):
        check_load(model_io, p, may[e], where, e)
    anyp = model_io.find_last_checkpoint(sc.exp, any_path=True)
    if last is not None:
        expect(anyp == last, "%s: any_path=True finds %s, not %s" % (where, anyp, last))


def check_load(model_io, path, want, where, e):
    try:
        got = got_of(model_io.load_model(path, map_location=None))
    except Exception as exc:
        raise Violation("%s: loading the picked epoch %d fails: %s: %s" % (where, e, type(exc).__name__, exc))
    for name, g, w in zip(("weights", "statistics", "optimizer state"), got, want):
        expect(g == w, "%s: the %s loaded for epoch %d are not those of that epoch (%s)" % (
            where, name, e, "missing" if g is None else "different"))


# ---------------------------------------------------------------- level 2: the training loop
_STUB = None


def trainer():
    """The trainer's own classes with a two-parameter model."""
    global _STUB
    if _STUB is not None:
        return _STUB
    sys.path.insert(0, "/repo")
    from pytorch3d.implicitron.models.base_model import ImplicitronModelBase
    from pytorch3d.implicitron.tools import vis_utils
    from pytorch3d.implicitron.tools.config import get_default_args, registry
    from projects.implicitron_trainer.impl import model_factory, optimizer_factory, training_loop

    vis_utils.get_visdom_connection = lambda *a, **k: None

    @registry.register
    class McTinyModel(ImplicitronModelBase):
        def __post_init__(self):
            self.w = torch.nn.Parameter(torch.tensor([1.0, -2.0]))
            self.register_buffer("steps", torch.zeros(1))

        def forward(self, *, x, evaluation_mode, **kw):
            if self.training:
                self.steps += 1
            obj = ((self.w - x.sum() * torch.rand(2)) ** 2).sum()
            return {"objective": obj, "extra": obj * 2}

    _STUB = (McTinyModel, model_factory, optimizer_factory, training_loop)
    return _STUB


class Batch(dict):
    def to(self, device):
        return self


LRS = []


def train(sc, epochs, purge, breed, policy, cap, with_val, log_vars, resume_epoch=-1):
    McTiny, mf, of, tl = trainer()
    from pytorch3d.implicitron.tools.config import get_default_args

    factory = mf.ImplicitronModelFactory.__new__(mf.ImplicitronModelFactory)
    factory.model = McTiny(log_vars=list(log_vars))
    factory.resume, factory.resume_epoch, factory.force_resume = True, resume_epoch, False
    opts = dict(breed=breed, lr=0.1)
    if policy == "multi":
        opts.update(lr_policy="MultiStepLR", multistep_lr_milestones=(1, 3), gamma=0.1)
    elif policy == "exp":
        opts.update(lr_policy="Exponential", exponential_lr_step_size=2, gamma=0.5)
    elif policy == "linexp":
        opts.update(lr_policy="LinearExponential", linear_exponential_lr_milestone=2, exponential_lr_step_size=2,
                    gamma=0.5)
    ofac = of.ImplicitronOptimizerFactory(**opts)
    loop = tl.ImplicitronTrainingLoop.__new__(tl.ImplicitronTrainingLoop)
    for k, v in dict(eval_only=False, max_epochs=epochs, store_checkpoints=True, store_checkpoints_purge=purge,
                     test_interval=-1, test_when_finished=False, validation_interval=2, clip_grad=0.0,
                     metric_print_interval=1000, visualize_interval=0, visdom_env="", visdom_port=1,
                     visdom_server="http://127.0.0.1", evaluator=None).items():
        setattr(loop, k, v)
    model = factory(exp_dir=sc.exp, accelerator=None)
    stats = loop.load_stats(log_vars=model.log_vars, exp_dir=sc.exp, resume=True, resume_epoch=resume_epoch)
    stats.do_plot = False
    start = stats.epoch + 1
    optimizer, scheduler = ofac(accelerator=None, exp_dir=sc.exp, last_epoch=start, model=model, resume=True,
                                resume_epoch=resume_epoch)
    lrs = {}
    base_step = optimizer.step

    def step(*a, **k):
        lrs.setdefault(stats.epoch, []).append([g["lr"] for g in optimizer.param_groups])
        return base_step(*a, **k)

    optimizer.step = step
    data = [Batch(x=torch.tensor([0.5, 0.25])), Batch(x=torch.tensor([1.0, -0.5]))]
    old = loop._checkpoint

    def checkpoint(accelerator, epoch, *a, **k):
        out = old(accelerator, epoch, *a, **k)
        cap.mark = epoch
        cap.capture("checkpoint done")
        return out

    loop._checkpoint = checkpoint
    loop.run(train_loader=data, val_loader=data[:1] if with_val else None, test_loader=None, train_dataset=None,
             model=model, optimizer=optimizer, scheduler=scheduler, accelerator=None, device=torch.device("cpu"),
             exp_dir=sc.exp, stats=stats, seed=3)
    return {"start": start, "lrs": lrs, "weights": plain(model.state_dict()), "stats": stat_view(stats),
            "opt": plain(optimizer.state_dict())}


def run_train(case, rec):
    from pytorch3d.implicitron.tools import model_io

    _, epochs, purge, breed, policy, with_val, other = case
    log_vars = ["objective", "extra"]
    torch.manual_seed(0)
    with Scratch(other) as sc:
        what = "%d epochs, purge=%d, %s, %s" % (epochs, purge, breed, policy)
        # what every epoch's checkpoint holds when nothing is interrupted or purged
        with Capture(sc.exp, sc.temp) as cap:
            ref = train(sc, epochs, -1, breed, policy, cap, with_val, log_vars)
        expect(ref["start"] == 0, "%s: a fresh run starts at epoch %d" % (what, ref["start"]))
        contents = {}
        for e in range(epochs):
            contents[e] = got_of(model_io.load_model(model_io.get_checkpoint(sc.exp, e), None))
            h = json.loads(contents[e][1])
            expect(h["epoch"] == e and len(h["history"]["train"]["objective"]) == e + 1,
                   "%s: checkpoint of epoch %d holds the statistics of epoch %s" % (what, e, h["epoch"]))
        queue, seen = [({}, -1)], set()
        n = 0
        while queue:
            files, newest = queue.pop(0)
            sc.restore(files)
            where = "%s, resumed from a crash leaving %s" % (what, sorted(f for f in files)) if files else what
            # the newest checkpoint is that of the last finished save, or the one being saved if it is whole
            last = model_io.find_last_checkpoint(sc.exp)
            got = -1 if last is None else model_io.parse_epoch_from_model_path(last)
            expect(got in (newest, newest + 1), "%s: epoch %d is picked, newest complete is %d" % (where, got, newest))
            if last is not None:
                check_load(model_io, last, contents[got], where, got)
            try:
                with Capture(sc.exp, sc.temp, got) as cap:
                    res = train(sc, epochs, purge, breed, policy, cap, with_val, log_vars)
            except Violation:
                raise
            except Exception as exc:
                raise Violation("%s: resuming fails: %s: %s" % (where, type(exc).__name__, exc))
            rec.step(epochs - got - 1)
            rec.trace()
            n += 1
            expect(res["start"] == got + 1, "%s: training restarts at epoch %d, newest checkpoint is %d" % (
                where, res["start"], got))
            for e, v in res["lrs"].items():
                expect(v == ref["lrs"][e], "%s: learning rates %s in epoch %d, %s without interruption" % (
                    where, v, e, ref["lrs"][e]))
            for k in ("weights", "stats", "opt"):
                if res["start"] >= epochs and k == "opt":
                    continue
                expect(res[k] == ref[k], "%s: final %s %s differ from the uninterrupted run's %s" % (
                    where, k, json.dumps(res[k])[:200], json.dumps(ref[k])[:200]))
            # finished: the last checkpoints are there
            kept = model_io.find_last_checkpoint(sc.exp, all_checkpoints=True) or []
            kept = [model_io.parse_epoch_from_model_path(p) for p in kept]
            lo = 0 if purge <= 0 else epochs - 1 - purge
            needed = [e for e in range(max(0, lo + 1), epochs)] if purge > 0 else list(range(epochs))
            expect(set(needed) <= set(kept), "%s: kept checkpoints %s, last %d must stay" % (where, kept, purge))
            if purge > 0 and res["start"] < epochs:
                left = sorted({int(f[12:20]) for f in os.listdir(sc.exp) if f.startswith("model_epoch_")})
                expect(all(e >= lo for e in left), "%s: files of epochs %s remain, older than %d epochs" % (
                    where, left, purge))
            for e, p in zip(kept, [model_io.get_checkpoint(sc.exp, e) for e in kept]):
                check_load(model_io, p, contents[e], where, e)
            for snap, mark in cap.states():
                k = (key_of(snap), mark)
                if k in seen:
                    continue
                seen.add(k)
                rec.state(repr(key_of(snap)).encode())
                queue.append((snap, mark))
        rec.count("crash states resumed", n)
        # resuming from an explicitly chosen stored epoch
        for e in range(1, epochs):
            with Scratch(other) as s2, Capture(s2.exp, s2.temp) as cap:
                train(s2, epochs, -1, breed, policy, cap, with_val, log_vars)
                res = train(s2, epochs, -1, breed, policy, cap, with_val, log_vars, resume_epoch=e)
                expect(res["start"] == e + 1, "%s: resume_epoch=%d restarts at %d" % (what, e, res["start"]))
                for k in ("weights", "stats", "opt"):
                    if e + 1 < epochs or k != "opt":
                        expect(res[k] == ref[k], "%s: after resume_epoch=%d the final %s differ" % (what, e, k))
                rec.trace()


# ---------------------------------------------------------------- level 3: names
def run_names(case, rec):
    """Which file of a folder is the last checkpoint, for every subset of files."""
    from pytorch3d.implicitron.tools import model_io

    _, epochs, exp = case
    with Scratch(False, exp) as sc:
        junk = ["model_epoch_best.pth", "model_epoch_0000007.pth", "model_epoch_000000099.pth", "other_00000099.pth",
                "train_stats.pdf", "model_epoch_00000098.pth.tmp"]
        names = [("model_epoch_%08d" % e, ext) for e in epochs for ext in (".pth", "_opt.pth", "_stats.jgz")]
        for r in range(len(names) + 1):
            for sub in itertools.combinations(names, r):
                sc.restore({n: b"" for n in junk})
                for n, ext in sub:
                    open(os.path.join(sc.exp, n + ext), "w").close()
                have = {ext: sorted(int(n[12:]) for n, x in sub if x == ext) for ext in (".pth", "_stats.jgz", "_opt.pth")}
                want = have[".pth"][-1] if have[".pth"] else None
                wanta = next((have[x][-1] for x in (".pth", "_stats.jgz", "_opt.pth") if have[x]), None)
                for kw, w in ((dict(), want), (dict(any_path=True), wanta)):
                    got = model_io.find_last_checkpoint(sc.exp, **kw)
                    expect(got == (None if w is None else model_io.get_checkpoint(sc.exp, w)),
                           "files %s: find_last_checkpoint(%s) = %s" % (sub, kw, got))
                got = model_io.find_last_checkpoint(sc.exp, all_checkpoints=True) or []
                expect(got == [model_io.get_checkpoint(sc.exp, e) for e in have[".pth"]],
                       "files %s: all_checkpoints = %s" % (sub, got))
                rec.state(repr((exp, sub)).encode())
                rec.step(3)
                rec.trace()
        for e in epochs:
            p = model_io.get_checkpoint(sc.exp, e)
            expect(model_io.parse_epoch_from_model_path(p) == e, "epoch of %s" % p)
            paths = [model_io.get_model_path(p), model_io.get_optimizer_path(p), model_io.get_stats_path(p)]
            expect(len(set(paths)) == 3 and paths[0] == p, "paths of a checkpoint: %s" % paths)


def io_histories(epochs, depth):
    """Histories over save/purge; saves in increasing order of epoch as training makes them, or again."""
    alphabet = [("save", e) for e in epochs] + [("purge", e) for e in epochs]
    for n in range(1, depth + 1):
        for h in itertools.product(alphabet, repeat=n):
            if h[0][0] != "save":
                continue
            yield [list(x) for x in h]


def cases(tier):
    out = []
    for exp in ("exp", "e[0-9]x", "v1.2 *"):
        out.append(["names", [0, 1], exp])
        out.append(["names", [9, 10, 100] if tier == "thorough" else [9, 100], exp])
    quick = tier == "quick"
    E = 4 if quick else 5
    combos = [(p, b, pol, v) for p in (0, 1, 2, 3) for b in ("Adam", "SGD", "Adagrad")
              for pol in ("multi", "exp", "linexp", "none") for v in (False, True)]
    for i, (p, b, pol, v) in enumerate(combos):
        if quick and not ((b == "SGD" and not v) or (pol == "multi" and p == 1)):
            continue
        out.append(["train", E, p, b, pol, v, False])
        if not quick or p == 1:
            out.append(["train", E, p, b, pol, v, True])
    hist = list(io_histories([0, 9, 10], 3 if quick else 4))
    if quick:
        hist += [h for h in io_histories([0, 10], 4) if len(h) == 4]
    for h in hist:
        for with_opt in (True, False):
            for other in (False, True):
                if quick and other != with_opt and len(h) > 2:
                    continue
                out.append(["io", h, with_opt, other, "exp"])
    return out


def run(case, rec):
    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)
    import warnings

    warnings.simplefilter("ignore")
    {"io": run_io, "train": run_train, "names": run_names}[case[0]](case, rec)
    rec.sample({"case": case})
