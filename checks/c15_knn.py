"""C15: neighbour searches against brute force over complete spaces of small point sets."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.ops import ball_query, knn_gather, knn_points
from pytorch3d.ops.utils import masked_gather

PROPERTY = "C15"
ASSUMPTIONS = ["CPU, float32; coordinates are dyadic so distances are exact and ties are real ties (any of the tied neighbours is accepted, "
               "for ball query the first K in index order)", "both padded point sets have at least one row"]
BOUNDS = {
    "quick": "every pair (query cloud of <= 2 points, target cloud of <= 4 points) over 5 positions in dimensions 1 and 3, and every "
             "target list of 5 over 4 positions, all embedded in a batch with padding that lies on the queries; K 1..6; both norms; sorted or not; "
             "lengths given or not; ball radii {0.3, 0.5, 1, 3}, with and without the cube shortcut; gradients under both norms",
    "thorough": "as quick with targets of <= 5 points over 6 positions, and dimensions 1, 2, 3, 5",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
POS = torch.tensor([[0.0, 0, 0, 0, 0], [0.5, 0.25, -0.5, 0.125, 0], [0.5, 0.25, 0.5, -0.25, 1], [-1.0, 0.75, 0.25, 0.5, -0.5],
                    [0.25, -0.5, 0, 0.5, 0.25], [1.0, 0.25, 0.75, 0, 0.5]])


def cases(tier):
    t = tier == "thorough"
    out = []
    npos = 6 if t else 5
    for D in ((1, 2, 3, 5) if t else (1, 3)):
        for q in [()] + [(a,) for a in range(npos)] + list(itertools.product(range(npos), repeat=2)):
            for n in range(0, (6 if t else 5)):
                out.append([D, list(q), npos, n])
        for a in range(4):
            out.append([D, [a, 1], 4, 5])
    return out


def brute(p1, p2, l1, l2, norm):
    d = p1[:, :, None] - p2[:, None]
    d = d.abs().sum(-1) if norm == 1 else (d * d).sum(-1)
    m = (torch.arange(p1.shape[1])[None] < l1[:, None])[:, :, None] & (torch.arange(p2.shape[1])[None] < l2[:, None])[:, None]
    return d, m


def run(case, rec):
    D, q, npos, n = case
    tg = list(itertools.product(range(npos), repeat=n))
    B = len(tg)
    pos = POS[:, :D].contiguous()
    # the padding rows lie exactly on the queries: using one gives distance zero
    P1, P2 = len(q) + 1, n + 2
    p1 = pos[2].repeat(B, P1, 1)
    p1[:, : len(q)] = pos[q] if q else p1[:, :0]
    p2 = p1[:, torch.arange(P2) % P1].clone()
    if n:
        p2[:, :n] = pos[torch.tensor(tg)]
    l1 = torch.full((B,), len(q))
    l2 = torch.full((B,), n)
    # neighbours in the batch with other lengths: every third element is cut short
    l2[1::3] = max(0, n - 1)
    l1[2::5] = max(0, len(q) - 1)
    full = (torch.full((B,), P1), torch.full((B,), P2))
    key = "dim %d query %s targets over %d^%d" % (D, q, npos, n)
    for lens in ("given", "none"):
        a1, a2 = (l1, l2) if lens == "given" else full
        for norm in (1, 2):
            d, m = brute(p1, p2, a1, a2, norm)
            dm = torch.where(m, d, torch.full_like(d, float("inf")))
            srt = dm.sort(-1).values
            for K in range(1, 7):
                for srtd in (True, False):
                    r = knn_points(p1, p2, *( (l1, l2) if lens == "given" else ()), norm=norm, K=K, return_nn=True, return_sorted=srtd)
                    rec.step(B)
                    check_knn(r, p2, srt, dm, a1, a2, K, srtd, "%s norm %d K %d lengths %s sorted %s" % (key, norm, K, lens, srtd))
            rec.state([srt, D, norm, lens])
        d, m = brute(p1, p2, a1, a2, 2)
        for radius in (0.3, 0.5, 1.0, 3.0):
            r2 = float(torch.tensor(radius).float()) ** 2
            inside = m & (d < r2)
            for K in (1, 2, 3, 7):
                for cube in (False, True):
                    r = ball_query(p1, p2, *((l1, l2) if lens == "given" else ()), K=K, radius=radius, skip_points_outside_cube=cube)
                    rec.step(B)
                    w = "%s ball radius %s K %d lengths %s cube %s" % (key, radius, K, lens, cube)
                    rank = torch.where(inside, torch.arange(P2).expand_as(inside), torch.full(inside.shape, 10 ** 6)).sort(-1).values
                    want = torch.full((B, P1, K), -1)
                    k = min(K, P2)
                    want[..., :k] = torch.where(rank[..., :k] < 10 ** 6, rank[..., :k], torch.full_like(rank[..., :k], -1))
                    expect_close(w + ": indices", r.idx, want)
                    ok = want >= 0
                    dd = torch.where(ok, d.gather(2, want.clamp(min=0)) if True else d, torch.zeros(1))
                    expect_close(w + ": squared distances", r.dists, dd, atol=1e-6)
                    nn = torch.where(ok[..., None], p2[:, None].expand(B, P1, P2, D).gather(2, want.clamp(min=0)[..., None].expand(-1, -1, -1, D)), torch.zeros(1))
                    expect_close(w + ": neighbours", r.knn, nn)
            rec.state([inside, D, lens])
    if n and q:
        grads(p1, p2, l1, l2, rec, key)
    rec.trace(B)
    rec.sample({"query": q, "targets": tg[:2], "dim": D})


def check_knn(r, p2, srt, dm, l1, l2, K, srtd, w):
    B, P1, P2 = dm.shape
    expect(tuple(r.idx.shape) == (B, P1, K) and tuple(r.dists.shape) == (B, P1, K), w + ": shapes")
    want = torch.zeros(B, P1, K)
    k = min(K, P2)
    want[..., :k] = torch.where(torch.isfinite(srt[..., :k]), srt[..., :k], torch.zeros(1))
    rows = torch.arange(P1)[None] < l1[:, None]
    cols = torch.arange(K)[None] < l2[:, None]
    valid = rows[:, :, None] & cols[:, None]
    got = r.dists if srtd else torch.where(valid, r.dists, torch.full((1,), float("inf"))).sort(-1).values
    got = got if srtd else torch.where(torch.isfinite(got), got, torch.zeros(1))
    expect_close(w + ": distances", got, want, atol=1e-6)
    at = torch.where(valid, dm.gather(2, r.idx), torch.zeros(1))
    expect_close(w + ": distance at the returned index", torch.where(valid, r.dists, torch.zeros(1)), at, atol=1e-6)
    expect(not bool((r.dists[~valid] != 0).any()), w + ": padded distances are not zero")
    srt_idx = torch.where(valid, r.idx, -1 - torch.arange(K).expand_as(r.idx)).sort(-1).values
    if K > 1:
        expect(not bool((srt_idx[..., 1:] == srt_idx[..., :-1]).any()), w + ": the same neighbour twice")
    gat = p2[:, None].expand(B, P1, P2, -1).gather(2, r.idx[..., None].expand(-1, -1, -1, p2.shape[-1]))
    gat = torch.where((cols[:, None, :, None]), gat, torch.zeros(1))
    expect_close(w + ": gathered neighbours", r.knn, gat)
    feats = torch.arange(B * P2 * 2, dtype=torch.float32).reshape(B, P2, 2)
    g2 = knn_gather(feats, r.idx, l2)
    want2 = torch.where(cols[:, None, :, None], feats[:, None].expand(B, P1, P2, 2).gather(2, r.idx[..., None].expand(-1, -1, -1, 2)), torch.zeros(1))
    expect_close(w + ": knn_gather", g2, want2)
    mi = torch.where(valid, r.idx, torch.full_like(r.idx, -1))
    g3 = masked_gather(feats, mi)
    expect_close(w + ": masked_gather", g3, torch.where(valid[..., None], want2, torch.zeros(1)))


def grads(p1, p2, l1, l2, rec, key):
    for what in ("knn1", "knn2", "ball"):
        for K in (1, 3):
            a, b = p1.clone().requires_grad_(True), p2.clone().requires_grad_(True)
            if what == "ball":
                r = ball_query(a, b, l1, l2, K=K, radius=1.0)
            else:
                r = knn_points(a, b, l1, l2, norm=int(what[-1]), K=K)
            u = (torch.arange(r.dists.numel(), dtype=torch.float32) * 0.618034 % 1 - 0.4).reshape(r.dists.shape)
            g1, g2 = torch.autograd.grad((r.dists * u).sum(), (a, b))
            rec.step()
            B, P1, _ = r.idx.shape
            rows = torch.arange(P1)[None] < l1[:, None]
            cols = torch.arange(K)[None] < l2[:, None]
            ok = (rows[:, :, None] & cols[:, None]) & (r.idx >= 0)
            x, y = p1.clone().requires_grad_(True), p2.clone().requires_grad_(True)
            idx = r.idx.clamp(min=0)
            diff = x[:, :, None] - y[:, None].expand(B, P1, p2.shape[1], p2.shape[2]).gather(2, idx[..., None].expand(-1, -1, -1, p2.shape[2]))
            norm1 = what == "knn1"
            per = (diff.abs() if norm1 else diff ** 2).sum(-1)
            e1, e2 = torch.autograd.grad((torch.where(ok, per, torch.zeros(1)) * u).sum(), (x, y))
            slack = torch.zeros_like(e1), torch.zeros_like(e2)
            if norm1:
                # at equal coordinates every value in [-1, 1] is a subgradient
                z = ((diff == 0) & ok[..., None]).float() * u.abs()[..., None]
                slack = z.sum(2), torch.zeros_like(e2).scatter_add_(1, idx.reshape(B, -1, 1).expand(-1, -1, p2.shape[2]), z.reshape(B, -1, p2.shape[2]))
            for g, e, s, nm in ((g1, e1, slack[0], "queries"), (g2, e2, slack[1], "targets")):
                if bool(((g - e).abs() > s + 1e-4).any()):
                    i = ((g - e).abs() > s + 1e-4).nonzero()[0].tolist()
                    raise Violation("%s: gradient of %s K %d to the %s at %s is %s, want %s" % (key, what, K, nm, i, g[tuple(i)].item(), e[tuple(i)].item()))
            rec.state([r.idx, what, K])
