"""C16: farthest point sampling: every selection is checked against the definition on complete spaces of point sets."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.ops import sample_farthest_points
from pytorch3d.ops.sample_farthest_points import sample_farthest_points_naive
from pytorch3d.ops.utils import masked_gather

PROPERTY = "C16"
ASSUMPTIONS = ["CPU, float32, dyadic coordinates (exact distances; among equal distances any point is accepted)",
               "random starts: only that the start lies in the cloud and the rest follows from it"]
BOUNDS = {
    "quick": "every list of <= 6 points over 5 positions in dimensions 1, 2 and 3 (all in one batch, the padding being the farthest position), "
             "K scalar 1..7, per-cloud tensors and lists, lengths given or not, fixed and random start; compiled and Python implementation",
    "thorough": "every list of <= 7 points over 5 positions, dimensions 1, 2 and 3",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
POS = torch.tensor([[0.0, 0, 0], [0.5, 0.25, -0.5], [-1.0, 0.75, 0.25], [1.0, 0.25, 0.75], [0.25, -0.5, 0.0]])
FAR = 9.0


def cases(tier):
    t = tier == "thorough"
    npos, nmax = (5, 7) if t else (5, 6)
    out = []
    for D in (1, 2, 3):
        for n in range(0, nmax + 1):
            for first in (range(npos) if n > 1 else [0]):
                for mode in ("k1", "k2", "k3", "k5", "k7", "tensor", "list", "nolen", "random"):
                    out.append([D, npos, n, first, mode])
    out.append(["starts"])
    return out


def sets(npos, n, first):
    if n < 2:
        return list(itertools.product(range(npos), repeat=n))
    return [(first,) + r for r in itertools.product(range(npos), repeat=n - 1)]


def check(pts, lens, K, idx, sel, start0, w):
    B, P, D = pts.shape
    maxk = max(K)
    expect(tuple(idx.shape) == (B, maxk), w + ": index shape %s" % (tuple(idx.shape),))
    kn = torch.minimum(lens, torch.tensor(K))
    cols = torch.arange(maxk)[None] < kn[:, None]
    bad = (idx >= 0) != cols
    if bool(bad.any()):
        b = int(bad.nonzero()[0, 0])
        raise Violation("%s: cloud %d of %d points, %d requested: indices %s" % (w, b, int(lens[b]), K[b], idx[b].tolist()))
    bad = cols & (idx >= lens[:, None])
    if bool(bad.any()):
        b = int(bad.nonzero()[0, 0])
        raise Violation("%s: cloud %d of %d points: padding selected, %s" % (w, b, int(lens[b]), idx[b].tolist()))
    if start0:
        expect(not bool((idx[:, 0][cols[:, 0]] != 0).any()), w + ": does not start at the first point")
    expect_close(w + ": returned points", sel, masked_gather(pts, idx) * cols[..., None])
    vals = torch.where(cols[..., None], pts.gather(1, idx.clamp(min=0)[..., None].expand(-1, -1, D)), torch.zeros(1))
    expect_close(w + ": points at the indices", sel, vals)
    d2 = ((pts[:, :, None] - pts[:, None]) ** 2).sum(-1)
    live = torch.arange(P)[None] < lens[:, None]
    near = torch.full((B, P), float("inf"))
    for k in range(maxk):
        if k:
            best = torch.where(live, near, torch.full((1,), -1.0)).max(1).values
            mine = near.gather(1, idx[:, k: k + 1].clamp(min=0))[:, 0]
            bad = cols[:, k] & (mine < best - 1e-6)
            if bool(bad.any()):
                b = int(bad.nonzero()[0, 0])
                raise Violation("%s: cloud %s selection %s: pick %d is at %.4f, the farthest point at %.4f" % (
                    w, pts[b, : lens[b]].tolist(), idx[b].tolist(), k, mine[b], best[b]))
        near = torch.minimum(near, d2.gather(1, idx[:, k: k + 1].clamp(min=0)[..., None].expand(-1, -1, P))[:, 0])


def run_starts(rec):
    """over the draws of 300 seeds every point of every cloud is the first one of some run"""
    lens = torch.tensor([1, 2, 3, 5, 4])
    pts = torch.rand(5, 5, 3, generator=torch.Generator().manual_seed(3))
    for f in (sample_farthest_points, sample_farthest_points_naive):
        for use in (True, False):
            for K in (1, 3):
                seen = [set() for _ in lens]
                for seed in range(300):
                    torch.manual_seed(seed)
                    _, i = f(pts, lengths=lens if use else None, K=K, random_start_point=True)
                    for n in range(len(lens)):
                        seen[n].add(int(i[n, 0]))
                    rec.step()
                want = [set(range(int(n) if use else 5)) for n in lens]
                expect(seen == want, lambda: "the random first points of clouds of lengths %s are %s over 300 seeds (%s)" % (lens.tolist() if use else "5", seen, f.__name__))
    rec.state("starts")
    rec.trace()


def run(case, rec):
    if case == ["starts"] or case == ("starts",):
        return run_starts(rec)
    D, npos, n, first, mode = case
    ss = sets(npos, n, first)
    B, P = len(ss), n + 1
    pts = torch.full((B, P, D), FAR)
    if n:
        pts[:, :n] = POS[:, :D][torch.tensor(ss)]
    lens = torch.full((B,), n)
    lens[1::4] = max(0, n - 1)
    Ks = [int(mode[1:])] * B if mode.startswith("k") else [1 + (3 * i) % 6 for i in range(B)] if mode in ("tensor", "list") else [3] * B
    if mode in ("tensor", "list"):
        Ks[3::11] = [0] * len(Ks[3::11])
    arg = torch.tensor(Ks) if mode == "tensor" else Ks if mode == "list" else Ks[0]
    if max(Ks) == 0:
        return
    kw = {"K": arg, "random_start_point": mode == "random"}
    if mode == "nolen":
        lens = torch.full((B,), P)
    else:
        kw["lengths"] = lens
    w = "dim %d, %d points over %d positions, mode %s" % (D, n, npos, mode)
    torch.manual_seed(5)
    before = pts.clone()
    sel, idx = sample_farthest_points(pts, **kw)
    check(pts, lens, Ks, idx, sel, mode != "random", w)
    rec.step(B)
    rec.state([idx, case])
    if B <= 64 or mode == "tensor":
        m = slice(0, 80)
        kw2 = dict(kw)
        if "lengths" in kw2:
            kw2["lengths"] = lens[m]
        if mode in ("tensor", "list"):
            kw2["K"] = arg[m]
        sel2, idx2 = sample_farthest_points_naive(pts[m], **kw2)
        check(pts[m], lens[m], Ks[m], idx2, sel2, mode != "random", w + " (Python)")
        rec.step(len(lens[m]))
    for dt in (torch.float64, torch.float32):
        sel3, idx3 = sample_farthest_points(pts.to(dt)[:9], **{**kw, **({"lengths": lens[:9].int()} if "lengths" in kw else {}),
                                                               **({"K": arg[:9]} if mode in ("tensor", "list") else {})}) if max(Ks[:9]) else (None, None)
        if idx3 is not None:
            check(pts[:9], lens[:9], Ks[:9], idx3, sel3, mode != "random", w + " (other dtypes)")
    expect(torch.equal(before, pts), w + ": the input was changed")
    rec.trace(B)
    rec.sample({"case": case})
