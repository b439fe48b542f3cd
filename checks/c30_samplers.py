"""C30: batch samplers deliver exactly the frames and sequences they promise.

Every random choice a sampler makes (numpy and torch generators) is intercepted and becomes a branch point of a
depth-first exploration, so a sampler runs once for every outcome its randomness can have: all batches it could ever
deliver are checked, and what can never be delivered is noticed too.
"""
import copy
import itertools
import math
import random
import warnings

import numpy as np
import torch

from mc.core import Violation, expect

PROPERTY = "C30"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
BOUNDS = {
    "quick": "SceneBatchSampler: 13 layouts (up to 4 sequences of up to 4 frames, up to 3 categories) x batch sizes "
             "1..4 x 5 sets of images per sequence x category awareness, and sequences of up to 5 frames with every "
             "pattern of number/time gaps x 3 number limits x 3 time limits x 4 sizes in consecutive mode; all outcomes "
             "of every random choice. DoublePool: pools of up to 3 and 4 x batch sizes x epoch lengths x replacement, "
             "all outcomes. Providers: all splits, conditioning types, lengths, missing data sets",
    "thorough": "batch sizes up to 6, sequences of up to 6 frames, epochs of up to 4 batches",
}
ASSUMPTIONS = [
    "random choices go through numpy.random.{choice,randint,permutation} or torch.{randint,randperm}; when a generator "
    "is consumed in another way, legality of the delivered batches is still checked but reachability is not",
    "where a random call has more than 20000 outcomes (sampling with replacement by torch's own RandomSampler draws 32 "
    "values at once) only one outcome is followed; this is counted in the evidence",
]
LIMIT = 20000


# ---------------------------------------------------------------- choices as branch points
class Chooser:
    """Depth-first enumeration of all outcome sequences."""

    def __init__(self):
        self.path = []  # [chosen, n]
        self.i = 0
        self.skipped = 0

    def pick(self, n):
        if n > LIMIT:
            self.skipped += 1
            return 0
        if self.i < len(self.path):
            expect(self.path[self.i][1] == n, "the number of outcomes changes between identical runs")
            k = self.path[self.i][0]
        else:
            self.path.append([0, n])
            k = 0
        self.i += 1
        return k

    def next(self):
        self.i = 0
        while self.path and self.path[-1][0] + 1 >= self.path[-1][1]:
            self.path.pop()
        if not self.path:
            return False
        self.path[-1][0] += 1
        return True


def nth_perm(n, k, idx):
    """idx-th ordered selection of k out of n."""
    pool, out = list(range(n)), []
    for j in range(k):
        m = math.perm(n - j - 1, k - j - 1)
        out.append(pool.pop(idx // m))
        idx %= m
    return out


def nth_tuple(n, k, idx):
    out = []
    for _ in range(k):
        out.append(idx % n)
        idx //= n
    return out


class Intercept:
    def __init__(self, ch):
        self.ch = ch

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if arr.ndim != 1 or len(arr) == 0 or p is not None:
            return self.o_choice(a, size, replace, p)
        if size is None:
            return arr[self.ch.pick(len(arr))]
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        k = int(np.prod(shape))
        if replace:
            idx = nth_tuple(len(arr), k, self.ch.pick(len(arr) ** k))
        else:
            if k > len(arr):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            idx = nth_perm(len(arr), k, self.ch.pick(math.perm(len(arr), k)))
        return arr[np.array(idx, dtype=int)].reshape(shape)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError("low >= high")
        n = int(high - low)
        if size is None:
            return int(low + self.ch.pick(n))
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        k = int(np.prod(shape))
        return (low + np.array(nth_tuple(n, k, self.ch.pick(n ** k)), dtype=int)).reshape(shape)

    def permutation(self, x):
        arr = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        n = len(arr)
        return arr[np.array(nth_perm(n, n, self.ch.pick(math.factorial(n))), dtype=int)]

    def randperm(self, n, *, generator=None, dtype=torch.int64, **k):
        return torch.tensor(nth_perm(n, n, self.ch.pick(math.factorial(n))), dtype=dtype)

    def t_randint(self, *args, size=None, generator=None, dtype=torch.int64, low=None, high=None, **k):
        args = list(args)
        if size is None and args and not isinstance(args[-1], int):
            size = args.pop()
        if high is None:
            high = args.pop()
        low = args.pop() if args else (low or 0)
        if high <= low:
            raise RuntimeError("random_ expects 'from' to be less than 'to'")
        shape = tuple(size)
        n, m = int(high - low), int(np.prod(shape)) if shape else 1
        return (low + torch.tensor(nth_tuple(n, m, self.ch.pick(n ** m)), dtype=dtype)).reshape(shape)

    def __enter__(self):
        self.o_choice = np.random.choice
        self.saved = (np.random.choice, np.random.randint, np.random.permutation, torch.randperm, torch.randint)
        np.random.choice, np.random.randint, np.random.permutation = self.choice, self.np_randint, self.permutation
        torch.randperm, torch.randint = self.randperm, self.t_randint
        return self

    def __exit__(self, *a):
        np.random.choice, np.random.randint, np.random.permutation, torch.randperm, torch.randint = self.saved


def generators(*gens):
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], random.getstate(), torch.get_rng_state().numpy().tobytes(),
            tuple(g.get_state().numpy().tobytes() for g in gens))


def explore(fn, rec, gen=lambda: ()):
    """-> list of results of fn over all outcomes, and whether all randomness was intercepted."""
    ch, out = Chooser(), []
    before = generators(*gen())
    while True:
        with Intercept(ch):
            out.append(fn())
        rec.step()
        if len(out) > 60000:
            raise Violation("more than 60000 outcomes of %s random choices" % len(ch.path))
        if not ch.next():
            break
    rec.count("random outcomes explored", len(out))
    if ch.skipped:
        rec.count("random calls with too many outcomes", ch.skipped)
    return out, generators(*gen()) == before and not ch.skipped


# ---------------------------------------------------------------- data sets
_CLS = None


def dataset_class():
    global _CLS
    if _CLS is None:
        from pytorch3d.implicitron.dataset.dataset_base import DatasetBase

        class Frame:
            def __init__(self, name, idx, seq, cat, ftype):
                self.key, self.sequence_name, self.sequence_category, self.frame_type = (name, idx), seq, cat, ftype

            @classmethod
            def collate(cls, batch):
                return [f.key for f in batch]

        class Stub(DatasetBase):
            frame_data_type = Frame

            def __init__(self, seqs, name="d", types=None, evals=None):
                """seqs: {name: (category, [(frame number, timestamp, index)])}"""
                self.name, self.evals = name, evals
                self.frames = {}
                self._seq_to_idx = {}
                for s, (cat, fr) in seqs.items():
                    self._seq_to_idx[s] = [i for _, _, i in fr]
                    for no, ts, i in fr:
                        self.frames[i] = (s, cat, no, ts)
                self.types = types

            def __len__(self):
                return len(self.frames)

            def __getitem__(self, i):
                s, cat, _, _ = self.frames[i]
                return Frame(self.name, i, s, cat, self.types[i] if self.types else "train_known")

            def get_frame_numbers_and_timestamps(self, idxs, subset_filter=None):
                return [(self.frames[i][2], self.frames[i][3]) for i in idxs]

            def get_eval_batches(self):
                return self.evals

        _CLS = Stub
    return _CLS


def layout(lengths, cats):
    """Sequences of the given lengths; indices are dealt round robin, in reverse, so that they do not follow the order."""
    n = sum(lengths)
    seqs = {"s%d" % i: ("c%s" % c, []) for i, c in enumerate(cats)}
    left = list(lengths)
    idx = n
    no = [0] * len(lengths)
    while any(left):
        for i in range(len(lengths)):
            if left[i]:
                idx -= 1
                seqs["s%d" % i][1].append((no[i], 0.05 * no[i], idx))
                no[i] += 1
                left[i] -= 1
    for s in seqs.values():
        s[1].sort(key=lambda t: t[2])
    return seqs


LAYOUTS = [
    ([3], "A"), ([1], "A"), ([4], "A"), ([2, 2], "AA"), ([2, 2], "AB"), ([3, 1], "AB"), ([1, 1, 1], "AAA"),
    ([1, 1, 1], "ABC"), ([2, 1, 2], "AAB"), ([2, 2, 1], "ABB"), ([1, 2, 1, 1], "AABB"), ([3, 3], "AB"), ([1, 3, 2], "ABC"),
]


def legal(batch, seqs, B, options, aware, warned, segments=None):
    """None or why the batch cannot be delivered.  segments: {seq: [lists of indices in order]} in consecutive mode"""
    if not all(type(i) is int for i in batch):
        return "indices are not plain integers: %s" % [type(i).__name__ for i in batch]
    owner = {i: s for s, (_, fr) in seqs.items() for _, _, i in fr}
    if not all(i in owner for i in batch):
        return "unknown frame"
    if len(set(batch)) != len(batch):
        return "repeated frame"
    if not batch or len(batch) > B:
        return "%d frames" % len(batch)
    groups = []
    for i in batch:
        if groups and groups[-1][0] == owner[i]:
            groups[-1][1].append(i)
        else:
            groups.append((owner[i], [i]))
    if len({s for s, _ in groups}) != len(groups):
        return "a sequence is split or repeated"
    why = "?"
    for n in options:
        why = legal_n(groups, seqs, B, n, aware, warned, segments)
        if why is None:
            return None
    return why


def legal_n(groups, seqs, B, n, aware, warned, segments):
    want_seqs = -(-B // n)
    total = 0
    for k, (s, g) in enumerate(groups):
        avail = len(seqs[s][1])
        room = B - total
        total += len(g)
        if segments is None:
            if len(g) != min(n, avail, room):
                return "%d frames of %s, want %d" % (len(g), s, min(n, avail, room))
            continue
        longest = max(map(len, segments[s]))
        size = min(n, longest, room)
        if len(g) != size:
            return "%d frames of %s, want %d" % (len(g), s, size)
        full = min(n, longest)
        ok = any(g == seg[a:a + full][:size] for seg in segments[s] for a in range(len(seg) - full + 1)
                 if len(seg) >= min(n, longest))
        if not ok:
            return "frames %s of %s are not consecutive, segments %s" % (g, s, segments[s])
    # number of sequences
    cats = {}
    for s, (c, _) in seqs.items():
        cats.setdefault(c, []).append(s)
    short = total < B
    if aware:
        used = {}
        for s, _ in groups:
            used[seqs[s][0]] = used.get(seqs[s][0], 0) + 1
        if want_seqs <= len(cats):
            # all categories different, nothing capped
            if any(v > 1 for v in used.values()):
                return "category used twice although there are %d for %d sequences" % (len(cats), want_seqs)
            if short and len(groups) != want_seqs:
                return "%d sequences, want %d" % (len(groups), want_seqs)
        else:
            capped = any(used[c] == len(cats[c]) for c in used)
            if short and len(groups) != want_seqs and not capped:
                return "%d sequences, want %d" % (len(groups), want_seqs)
        if len(groups) > want_seqs:
            return "%d sequences, want %d" % (len(groups), want_seqs)
    else:
        w = min(want_seqs, len(seqs))
        if len(groups) > w or (short and len(groups) != w):
            return "%d sequences, want %d" % (len(groups), w)
    if short != warned:
        return "%d of %d frames, %s" % (total, B, "warned" if warned else "no warning")
    return None


def sample(sampler, batches):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = []
        it = iter(sampler)
        for _ in range(batches):
            n0 = len(w)
            b = next(it)
            out.append((b, any("atch size" in str(x.message) for x in w[n0:])))
    return out


def run_scene(case, rec):
    from pytorch3d.implicitron.dataset.scene_batch_sampler import SceneBatchSampler

    _, (lengths, cats), B, options, aware, consecutive = case
    seqs = layout(lengths, cats)
    ds = dataset_class()(seqs)
    kw = dict(consecutive_frames_max_gap_seconds=0.0) if consecutive else {}
    s = SceneBatchSampler(ds, B, 3, tuple(options), category_aware=aware, sample_consecutive_frames=consecutive, **kw)
    expect(len(s) == 3, "len of a 3-batch sampler: %d" % len(s))
    expect(len(sample(s, 3)) == 3 and len(list(iter_quiet(s))) == 3, "an epoch is not 3 batches")
    segs = {q: [[i for _, _, i in sorted((ts, no, i) for no, ts, i in fr)]] for q, (_, fr) in seqs.items()} if consecutive else None
    results, full = explore(lambda: sample(s, 1)[0], rec)
    seen = set()
    for b, warned in results:
        why = legal(b, seqs, B, options, aware, warned, segs)
        expect(why is None, "layout %s %s, batch_size=%d, options %s, category_aware=%s, consecutive=%s: batch %s: %s" % (
            lengths, cats, B, options, aware, consecutive, b, why))
        seen.add(tuple(b))
        rec.trace()
    if full:
        frames = {i for b in seen for i in b}
        # a window cut to a smaller batch shows its first frames only
        expect(frames == set(ds.frames) or (consecutive and max(options) > B), "%s: frames %s can never be delivered" % (case, sorted(set(ds.frames) - frames)))
        for n in options:
            expect(any(legal(list(b), seqs, B, [n], aware, w, segs) is None for b, w in results),
                   "%s: %d images per sequence never happens" % (case, n))
        if not consecutive and not aware:
            # every batch that is legal can come: count unordered sets of frames against a direct enumeration
            want = set()
            for n in options:
                k = min(-(-B // n), len(seqs))
                for ss in itertools.permutations(seqs, k):
                    for pick in itertools.product(*[itertools.permutations([i for _, _, i in seqs[q][1]],
                                                    min(n, len(seqs[q][1]))) for q in ss]):
                        want.add(tuple([i for p in pick for i in p][:B]))
            expect(seen == want, "%s: %d different batches can be delivered, %d exist; missing %s" % (
                case, len(seen), len(want), sorted(want - seen)[:2]))
    for b in seen:
        rec.state((lengths, cats, B, options, aware, consecutive, b))


def iter_quiet(s):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield from s


def run_segments(case, rec):
    """Consecutive mode over one sequence with every pattern of gaps."""
    from pytorch3d.implicitron.dataset.scene_batch_sampler import SceneBatchSampler

    _, n, timed, B, option = case
    perm = list(range(n))
    perm = perm[1::2] + perm[0::2]  # index of the k-th frame in time
    for gaps in itertools.product(*[[(1, 0.05), (2, 0.05), (2, 0.3), (3, 0.3)] if timed else [(1, 0), (2, 0), (3, 0)]] * (n - 1)):
        no, ts = [4], [0.0]
        for a, b in gaps:
            no.append(no[-1] + a)
            ts.append(ts[-1] + b)
        fr = sorted(((no[k], ts[k] if timed else 0.0, perm[k]) for k in range(n)), key=lambda t: t[2])
        seqs = {"s": ("A", fr)}
        ds = dataset_class()(seqs)
        for max_gap in (0, 1, 2):
            for max_s in (0.0, 0.1, 0.5):
                cut = [k for k, (a, b) in enumerate(gaps) if (max_gap > 0 and a > max_gap) or (timed and max_s > 0 and b > max_s)]
                segs, start = [], 0
                for k in cut + [n - 1]:
                    segs.append([perm[j] for j in range(start, k + 1)])
                    start = k + 1
                s = SceneBatchSampler(ds, B, 1, (option,), sample_consecutive_frames=True,
                                      consecutive_frames_max_gap=max_gap, consecutive_frames_max_gap_seconds=max_s)
                what = "gaps %s, max_gap=%d, max_gap_seconds=%g, batch_size=%d, %d per sequence" % (gaps, max_gap, max_s, B, option)
                results, full = explore(lambda: sample(s, 1)[0], rec)
                for b, warned in results:
                    why = legal(b, seqs, B, [option], True, warned, {"s": segs})
                    expect(why is None, "%s: batch %s: %s" % (what, b, why))
                    rec.trace()
                    rec.state((gaps, timed, max_gap, max_s, B, option, b))
                if full:
                    longest = max(map(len, segs))
                    size = min(option, longest)
                    want = {tuple(seg[a:a + size][:B]) for seg in segs if len(seg) >= size for a in range(len(seg) - size + 1)}
                    got = {tuple(b) for b, _ in results}
                    if longest >= option:
                        expect(got == want, "%s: windows delivered %s, existing %s" % (what, sorted(got), sorted(want)))


def run_pool(case, rec):
    from pytorch3d.implicitron.dataset.data_loader_map_provider import DoublePoolBatchSampler

    _, nf, nr, B, replacement, num = case
    first, rest = [10 + 3 * i for i in range(nf)], [50 + 2 * i for i in range(nr)]
    what = "first %d, rest %d, batch_size=%d, replacement=%s, num_batches=%s" % (nf, nr, B, replacement, num)
    if B - 1 > nr:
        try:
            DoublePoolBatchSampler(first, rest, B, replacement, num)
        except ValueError:
            rec.trace()
            return
        raise Violation("%s: too few frames are accepted" % what)
    s = DoublePoolBatchSampler(first, rest, B, replacement, num)
    length = num or nf
    expect(len(s) == length, "%s: len %d" % (what, len(s)))
    expect(len(list(s)) == length, "%s: an epoch has %d batches" % (what, len(list(s))))
    gens = [g for g in vars(s).values() if isinstance(g, torch.Generator)]
    results, full = explore(lambda: [list(b) for b in s], rec, lambda: gens)
    seen_first, seen_rest = set(), set()
    for ep in results:
        expect(len(ep) == length, "%s: an epoch of %d batches" % (what, len(ep)))
        for b in ep:
            expect(len(b) == B and b[0] in first and all(type(i) is int for i in b) and set(b[1:]) <= set(rest)
                   and len(set(b[1:])) == B - 1, "%s: batch %s" % (what, b))
            seen_rest.add(tuple(b[1:]))
        fs = tuple(b[0] for b in ep)
        if not replacement:
            cnt = [fs.count(f) for f in first]
            expect(all(c in (length // nf, -(-length // nf)) for c in cnt), "%s: first frames %s repeat" % (what, fs))
            if length >= nf:
                expect(set(fs[:nf]) == set(first), "%s: a frame repeats before all were used: %s" % (what, fs))
        seen_first.add(fs)
        rec.trace()
        rec.state((what, ep))
    if full:
        if replacement:
            want = set(itertools.product(first, repeat=length))
        else:
            want = {()}
            while len(next(iter(want))) < length:
                want = {w + p for w in want for p in itertools.permutations(first)}
            want = {w[:length] for w in want}
        expect(seen_first == want, "%s: %d different orders of first frames, want %d" % (what, len(seen_first), len(want)))
        expect(seen_rest == set(itertools.permutations(rest, B - 1)), "%s: conditioning sets %s" % (what, seen_rest))


def providers():
    from pytorch3d.implicitron.dataset import data_loader_map_provider as a
    from pytorch3d.implicitron.dataset import train_eval_data_loader_provider as b
    from pytorch3d.implicitron.tools.config import expand_args_fields

    return {"simple": expand_args_fields(a.SimpleDataLoaderMapProvider),
            "sequence": expand_args_fields(a.SequenceDataLoaderMapProvider),
            "traineval": expand_args_fields(b.TrainEvalDataLoaderMapProvider)}, a.BatchConditioningType


def run_provcons(case, rec):
    """providers hand the settings of consecutive sampling to the sampler of every split"""
    _, kind, split, max_gap, max_s, timed = case
    provs, Cond = providers()
    gaps = [(1, 0.05), (1, 0.3), (3, 0.05), (1, 0.05), (2, 0.05), (1, 0.2)]
    fr, no, ts = [(4, 0.0, 6)], 4, 0.0
    for k, (a, b) in enumerate(gaps):
        no, ts = no + a, ts + b
        fr.append((no, ts if timed else 0.0, 5 - k))
    order = [f[2] for f in fr]
    cut = [k for k, (a, b) in enumerate(gaps) if (max_gap > 0 and a > max_gap) or (timed and max_s > 0 and b > max_s)]
    segs, start = [], 0
    for k in cut + [len(gaps)]:
        segs.append(order[start:k + 1])
        start = k + 1
    seqs = {"s": ("A", sorted(fr, key=lambda t: t[2]))}
    ds = dataset_class()(seqs)
    what = "%s provider, %s, consecutive frames with gaps up to %s and %s s%s" % (kind, split, max_gap, max_s, "" if timed else " (no time stamps)")
    for B in (2, 3):
        prov = provs[kind](batch_size=B, images_per_seq_options=(B,), sample_consecutive_frames=True, consecutive_frames_max_gap=max_gap,
                           consecutive_frames_max_gap_seconds=max_s, num_workers=0, **{"dataset_length_" + split: 3},
                           **({sp + "_conditioning_type": Cond("same") for sp in TYPES} if kind == "sequence" else {}))
        solo = Datasets(None, None, None)
        setattr(solo, split, ds)
        loader = prov.get_data_loader_map(solo)[split]
        seen = set()
        for seed in range(12):
            np.random.seed(seed)
            torch.manual_seed(seed)
            random.seed(seed)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ep = [[key[1] for key in b] for b in loader]
            expect(len(ep) == 3, "%s: %d batches, want 3" % (what, len(ep)))
            for b in ep:
                why = legal(b, seqs, B, [B], True, max(map(len, segs)) < B, {"s": segs})
                expect(why is None, lambda: "%s: batch %s: %s" % (what, b, why))
                seen.add(tuple(b))
                rec.step()
        rec.state((kind, split, max_gap, max_s, timed, B, sorted(seen)))
    rec.trace()


class Datasets:
    def __init__(self, train, val, test):
        self.train, self.val, self.test = train, val, test


TYPES = {"train": ["train_known"] * 3, "val": ["val_known", "val_unseen", "val_unseen", "val_known"],
         "test": ["test_unseen", "test_known", "test_known", "test_unseen", "test_known"]}


def run_provider(case, rec):
    _, kind, split, B, length, cond, options, evals, missing, workers = case
    provs, Cond = providers()
    Stub = dataset_class()
    data = {}
    for sp, types in TYPES.items():
        n = len(types)
        seqs = layout([n - n // 2, n // 2], "AB")
        data[sp] = Stub(seqs, sp, types, [[1, 0], [2]] if evals and sp == split else None)
    if missing:
        data[missing] = None
    kw = {"batch_size": B, "dataset_length_" + split: length, "num_workers": workers}
    if kind != "simple":
        kw["images_per_seq_options"] = tuple(options)
    if kind == "sequence":
        kw[split + "_conditioning_type"] = Cond(cond)
        for other in TYPES:
            if other != split:
                kw[other + "_conditioning_type"] = Cond("same")
    what = "%s %s of %s" % (kind, kw, {k: v is not None for k, v in data.items()})
    ds = data[split]
    # what must come out
    scenes = len(options) > 0 and kind != "simple"
    known = [i for i, t in enumerate(TYPES[split]) if t.endswith("known")]
    unseen = [i for i, t in enumerate(TYPES[split]) if not t.endswith("known")]
    N = len(TYPES[split])
    use_eval = evals and (kind != "traineval" or split == "test")
    # the other splits must not be affected by the settings of this one: they use what is left
    if ds is None:
        mode = "none"
    elif use_eval:
        mode = "eval"
    elif kind == "simple":
        mode = "simple"
    elif kind == "sequence":
        if scenes and cond != "same":
            mode = "error"
        elif B == 1 or (not scenes and cond == "same"):
            mode = "simple"
        else:
            mode = "scene" if scenes else cond
    else:
        mode = "scene" if scenes else ("simple" if B == 1 else "train")
    if mode == "train" and data["train"] is None:
        mode = "error"
    if mode == "known" and B - 1 > len(known):
        mode = "error"
    if mode == "train" and B - 1 > len(TYPES["train"]):
        mode = "error"
    if mode == "known" and not unseen:
        return
    prov = provs[kind](**kw)
    solo = Datasets(None, None, None)
    setattr(solo, split, ds)
    if solo.train is None and mode in ("train", "error"):
        solo.train = data["train"]
    if mode == "error":
        try:
            prov.get_data_loader_map(solo)
        except ValueError:
            rec.trace()
            return
        raise Violation("%s: accepted, want an error" % what)
    m = prov.get_data_loader_map(solo)
    for sp in TYPES:
        expect((m[sp] is None) == (getattr(solo, sp) is None) and m[sp] is getattr(m, sp), "%s: loader of %s" % (what, sp))
    try:
        m["trian"]
    except ValueError:
        pass
    else:
        raise Violation("%s: unknown split accepted" % what)
    if mode == "none":
        expect(m[split] is None, "%s: loader for a missing data set" % what)
        return
    loader = m[split]

    def epoch():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return [b for b in loader]

    rec.trace()
    for round_ in range(2):
        eps = [epoch()]
        small = mode == "simple" and length <= 0 and N <= 4 or mode in ("train", "known") and length == 1
        if round_ == 1 and small and not workers:
            eps, _ = explore(epoch, rec)
        for ep in eps:
            rec.state((what, ep))
            check_epoch(ep, mode, split, B, length, N, known, unseen, what, options)
    # the same state of the generators gives the same batches
    if not workers:
        runs = []
        for _ in range(2):
            torch.manual_seed(5)
            np.random.seed(5)
            random.seed(5)
            l2 = prov.get_data_loader_map(solo)[split]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runs.append([list(l2), list(l2)])
        expect(runs[0] == runs[1], "%s: two loaders with the same random state deliver %s and %s" % (what, runs[0], runs[1]))


def check_epoch(ep, mode, split, B, length, N, known, unseen, what, options):
    what = "%s: epoch %s" % (what, ep)
    if mode == "eval":
        expect(ep == [[(split, 1), (split, 0)], [(split, 2)]], "%s: not the evaluation batches" % what)
        return
    flat = [x for b in ep for x in b]
    if mode == "simple":
        want = length if length > 0 else N // B
        expect(len(ep) == want, "%s: %d batches, want %d" % (what, len(ep), want))
        expect(all(len(b) == B for b in ep), "%s: batch sizes" % what)
        expect(all(s == split and 0 <= i < N for s, i in flat), "%s: frames" % what)
        if length <= 0:
            expect(len(set(flat)) == len(flat), "%s: a frame comes twice" % what)
            if N % B == 0:
                expect(len(flat) == N, "%s: frames missing" % what)
        return
    if mode == "scene":
        want = length if length > 0 else N
        expect(len(ep) == want, "%s: %d batches, want %d" % (what, len(ep), want))
        seqs = layout([N - N // 2, N // 2], "AB")
        for b in ep:
            ids = [i for _, i in b]
            why = legal(ids, seqs, B, options, True, len(ids) < B)
            expect(why is None and all(s == split for s, _ in b), "%s: batch %s: %s" % (what, ids, why))
        return
    first = [(split, i) for i in (range(N) if mode == "train" else unseen)]
    rest = [("train", i) for i in range(3)] if mode == "train" else [(split, i) for i in known]
    want = length if length > 0 else len(first)
    expect(len(ep) == want, "%s: %d batches, want %d" % (what, len(ep), want))
    for b in ep:
        expect(len(b) == B and b[0] in first and set(b[1:]) <= set(rest) and len(set(b[1:])) == B - 1,
               "%s: batch %s, first frame must be one of %s and the others distinct ones of %s" % (what, b, first, rest))


def cases(tier):
    quick = tier == "quick"
    out = []
    for lay in LAYOUTS:
        for B in range(1, 5 if quick else 7):
            for options in ([1], [2], [1, 2], [3], [5, 2]):
                for aware in (True, False):
                    cost = estimate(lay, B, options, aware)
                    if cost > (6000 if quick else 50000):
                        continue
                    out.append(["scene", lay, B, options, aware, False])
                    out.append(["scene", lay, B, options, aware, True])
    for n in range(1, 6 if quick else 7):
        for timed in (True, False):
            for B in (1, 2, 3, 5):
                for option in (1, 2, 3, 4):
                    if B > option or (B < option and B not in (1, 2)):
                        continue
                    if n == 6 and timed and option > 3:
                        continue
                    out.append(["segments", n, timed, B, option])
    for nf in (1, 2, 3):
        for nr in (0, 1, 2, 3, 4):
            for B in (1, 2, 3, 4):
                for repl in (True, False):
                    for num in (None, 0, 1, 2, 3, 4) if quick else (None, 0, 1, 2, 3, 4, 5):
                        L = num or nf
                        cost = (nf ** L if repl else math.factorial(nf) ** (-(-L // nf))) * (
                            math.factorial(nr) ** L if B > 1 else 1)
                        if cost > (4000 if quick else 50000):
                            continue
                        out.append(["pool", nf, nr, B, repl, num])
    for split in TYPES:
        for B in (1, 2, 3, 4, 5):
            for length in (0, 1, 3):
                for evals in (False, True):
                    for missing in (None, split):
                        out.append(["provider", "simple", split, B, length, "same", [], evals, missing, 0])
                        for options in ([], [2], [1, 3]):
                            out.append(["provider", "traineval", split, B, length, "same", options, evals, missing, 0])
                            for cond in ("same", "train", "known"):
                                out.append(["provider", "sequence", split, B, length, cond, options, evals, missing, 0])
    for cond in ("train", "known"):
        out.append(["provider", "sequence", "test", 2, 0, cond, [], False, "train", 0])
    out.append(["provider", "traineval", "test", 2, 0, "same", [], False, "train", 0])
    out += [["provcons", k, sp, g, sec, timed] for k in ("sequence", "traineval") for sp in ("train", "val", "test") for g in (0, 1, 2) for sec in (0.0, 0.1, 0.25) for timed in (True, False)]
    out.append(["provider", "sequence", "test", 2, 2, "known", [], False, None, 2])
    return out


def estimate(lay, B, options, aware):
    lengths, cats = lay
    total = 0
    for n in options:
        k = -(-B // n)
        m = len(lengths)
        per = max(math.perm(l, min(n, l)) for l in lengths)
        seqs = (len(set(cats)) ** k if len(set(cats)) < k else math.perm(len(set(cats)), k)) * 6 if aware else math.perm(m, min(k, m))
        total += seqs * per ** min(k, m)
    return total


def run(case, rec):
    {"scene": run_scene, "segments": run_segments, "pool": run_pool, "provider": run_provider, "provcons": run_provcons}[case[0]](case, rec)
    rec.sample({"case": case})
