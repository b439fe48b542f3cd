"""C36: features pooled from source views: every arrangement of views, sequences, masks and aggregations against a scalar float64 reference."""
import itertools
import math

import torch
from mc.core import Violation, expect, expect_close, expect_raises

from pytorch3d.implicitron.models.view_pooler.feature_aggregator import (
    AngleWeightedIdentityFeatureAggregator, AngleWeightedReductionFeatureAggregator, IdentityFeatureAggregator,
    ReductionFeatureAggregator, ReductionFunction,
)
from pytorch3d.implicitron.models.view_pooler.view_pooler import ViewPooler
from pytorch3d.implicitron.models.view_pooler.view_sampler import ViewSampler
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.ops import vert_align
from pytorch3d.renderer import FoVPerspectiveCameras, PerspectiveCameras
from pytorch3d.renderer.utils import ndc_grid_sample
from pytorch3d.structures import Meshes, Pointclouds

PROPERTY = "C36"
ASSUMPTIONS = [
    "points lie in front of every source camera; there are at least as many source views as batch elements (element i is seen by view i)",
    "the sum of the weights counts as at least 0.01 and the variance as at least 1e-4, as in the code; the maximum is checked for weights 0 and 1",
]
BOUNDS = {
    "quick": "every assignment of 1..3 views and 1..3 batch elements to 2 sequences (as numbers, strings, tensors) x 2 feature maps of different sizes x masks "
             "{none, used, ignored} x bilinear/nearest, at a 7 x 7 lattice of points in and around the images; aggregation: 4 aggregators x every ordered choice of reductions x "
             "target view excluded/masked x every mask pattern of 3 views x concatenated or not; vert_align: 3 kinds of vertices x ragged batches x 3 paddings x 2 corner modes x modes x packed",
    "thorough": "as quick with 4 views and all mask patterns for 4 views, an 11 x 11 lattice",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 4
f64 = torch.float64
for cls in (ViewSampler, ViewPooler, IdentityFeatureAggregator, ReductionFeatureAggregator, AngleWeightedIdentityFeatureAggregator, AngleWeightedReductionFeatureAggregator):
    expand_args_fields(cls)


def rotz_y(a, b):
    ca, sa, cb, sb = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
    Y = torch.tensor([[ca, 0, sa], [0, 1, 0], [-sa, 0, ca]], dtype=f64)
    X = torch.tensor([[1, 0, 0], [0, cb, -sb], [0, sb, cb]], dtype=f64)
    return Y @ X


POSES = [(0.0, 0.0, (0.1, -0.2, 3.0)), (0.9, 0.2, (-0.3, 0.15, 4.0)), (-0.6, 0.5, (0.2, 0.3, 2.5)), (2.2, -0.3, (0.0, 0.1, 3.5))]
FOC = [(2.0, 2.0), (1.5, 2.5), (3.0, 1.8), (2.2, 2.2)]
PP = [(0.1, -0.05), (0.0, 0.2), (-0.15, 0.1), (0.0, 0.0)]


def cams(n, dtype=torch.float32):
    R = torch.stack([rotz_y(a, b) for a, b, _ in POSES[:n]])
    t = torch.tensor([p[2] for p in POSES[:n]], dtype=f64)
    c = PerspectiveCameras(R=R.to(dtype), T=t.to(dtype), focal_length=torch.tensor(FOC[:n], dtype=dtype), principal_point=torch.tensor(PP[:n], dtype=dtype))
    return c, R, t


def project(p, R, t, i):
    v = [sum(p[k] * float(R[i, k, j]) for k in range(3)) + float(t[i, j]) for j in range(3)]
    return FOC[i][0] * v[0] / v[2] + PP[i][0], FOC[i][1] * v[1] / v[2] + PP[i][1], v[2]


def pix(x, y, H, W):
    """Column and row (pixel centres are integers) of an NDC position: +X left, +Y up, the shorter side spans [-1, 1]."""
    s = min(H, W)
    return (W - x * s) / 2 - 0.5, (H - y * s) / 2 - 0.5


def lookup(fm, c, r, mode):
    """fm: (C, H, W) nested lists; zero outside."""
    C, H, W = len(fm), len(fm[0]), len(fm[0][0])
    at = lambda k, i, j: fm[k][i][j] if 0 <= i < H and 0 <= j < W else 0.0
    if mode == "nearest":
        for v in (c, r):
            if abs(v - math.floor(v) - 0.5) < 1e-4:
                return None
        i, j = int(math.floor(r + 0.5)), int(math.floor(c + 0.5))
        return [at(k, i, j) for k in range(C)]
    j, i = math.floor(c), math.floor(r)
    a, b = c - j, r - i
    return [(at(k, i, j) * (1 - a) + at(k, i, j + 1) * a) * (1 - b) + (at(k, i + 1, j) * (1 - a) + at(k, i + 1, j + 1) * a) * b for k in range(C)]


def fmap(n, C, H, W, off):
    t = torch.arange(n * C * H * W, dtype=f64).reshape(n, C, H, W)
    return (t * 0.7 + off).sin() + 0.3 * (t % 3) - 0.2


LAT = [-0.9, -0.6, -0.3, 0.05, 0.35, 0.65, 0.95]


def points(B, deep):
    lat = [x / 5.3 for x in range(-5, 6)] if deep else LAT
    out = []
    for b in range(B):
        out.append([(1.3 * x + 0.04 * b, 1.1 * y - 0.03 * b, 0.3 * x * y - 0.2 * b) for x in lat for y in lat])
    return out


SEQ = {"int": ([0, 7], list), "str": (["a", "b"], list), "tensor": ([3, 4], lambda l: torch.tensor(l))}


def run_sample(c, rec):
    nv, nb, deep = c["views"], c["batch"], c["deep"]
    cam, R, t = cams(nv)
    pts = points(nb, deep)
    feats = {"a": fmap(nv, 2, 3, 5, 0.0), "b": fmap(nv, 3, 6, 4, 1.0)}
    masks = (fmap(nv, 1, 4, 4, 2.0) > 0).to(f64)
    lists = {k: f.tolist() for k, f in feats.items()}
    ml = masks.tolist()
    proj = [[[project(p, R, t, v) for p in pts[b]] for v in range(nv)] for b in range(nb)]
    for b in proj:
        for v in b:
            for q in v:
                assert q[2] > 0.5
    for mode in ("bilinear", "nearest"):
        ref = {}
        for k, H, W in (("a", 3, 5), ("b", 6, 4), ("m", 4, 4)):
            src = ml if k == "m" else lists[k]
            ref[k] = [[[lookup(src[v], *pix(q[0], q[1], H, W), mode) for q in proj[b][v]] for v in range(nv)] for b in range(nb)]
        for kind, (ids, mk) in SEQ.items():
            for sp in itertools.product((0, 1), repeat=nb):
                for sc in itertools.product((0, 1), repeat=nv):
                    for use in ("none", "used", "ignored"):
                        if (kind != "int" or mode != "bilinear") and use != "used":
                            continue
                        vs = ViewSampler(masked_sampling=use == "used", sampling_mode=mode)
                        P = torch.tensor(pts, dtype=torch.float32)
                        got, gm = vs(pts=P, seq_id_pts=mk([ids[i] for i in sp]), camera=cam, seq_id_camera=mk([ids[i] for i in sc]),
                                     feats={k: f.float() for k, f in feats.items()}, masks=None if use == "none" else masks.float())
                        what = "views %s of points %s (%s ids, %s, masks %s)" % (sc, sp, kind, mode, use)
                        for k in ("a", "b", "m"):
                            g = gm if k == "m" else got[k]
                            expect(tuple(g.shape[:2]) == (nb, nv), "%s: shape %s" % (what, tuple(g.shape)))
                            expect(g.shape[2:-1] == P.shape[1:-1], "%s: shape %s" % (what, tuple(g.shape)))
                            C = g.shape[-1]
                            want = torch.zeros(nb, nv, len(pts[0]), C, dtype=f64)
                            skip = torch.zeros(nb, nv, len(pts[0]), dtype=torch.bool)
                            for b in range(nb):
                                for v in range(nv):
                                    if sp[b] != sc[v]:
                                        continue
                                    for i, q in enumerate(ref[k][b][v]):
                                        if k == "m" and use != "used":
                                            want[b, v, i] = 1.0
                                        elif q is None:
                                            skip[b, v, i] = True
                                        else:
                                            want[b, v, i] = torch.tensor(q, dtype=f64)
                            g = g.reshape(nb, nv, -1, C).double()
                            g = torch.where(skip[..., None], want, g)
                            expect_close("%s: %s" % (what, k), g, want, 2e-4, 1e-4)
                            rec.step()
                        rec.state((kind, mode, sp, sc, use, nv, nb))
    vs = ViewSampler(masked_sampling=True)
    expect_raises(lambda: vs(pts=torch.tensor(pts).float(), seq_id_pts=[0] * nb, camera=cam, seq_id_camera=[0] * nv,
                             feats={k: f.float() for k, f in feats.items()}, masks=None), "masked sampling without masks", (ValueError,))
    rec.trace()


# ---------------------------------------------------------------- aggregation
AG = {"id": IdentityFeatureAggregator, "red": ReductionFeatureAggregator, "aid": AngleWeightedIdentityFeatureAggregator, "ared": AngleWeightedReductionFeatureAggregator}
RF = {r.value: r for r in ReductionFunction}
NPTS = 3


def angle_weight(p, ctr, b, v, gamma, mn):
    d = []
    for i in (b, v):
        q = [p[k] - ctr[i][k] for k in range(3)]
        n = math.sqrt(sum(x * x for x in q))
        d.append([x / n for x in q])
    return (sum(x * y for x, y in zip(*d)) * 0.5 + 0.5 + mn) ** gamma


def aggregate(x, w, reds):
    """x (V, C), w (V): lists -> list in the order average, deviation, mean deviation, maximum."""
    V, C = len(x), len(x[0])
    tot = max(sum(w), 1e-2)
    mu = [sum(w[v] * x[v][k] for v in range(V)) / tot for k in range(C)]
    sd = [math.sqrt(max(sum(w[v] * (x[v][k] - mu[k]) ** 2 for v in range(V)) / tot, 1e-4)) for k in range(C)]
    out = []
    if "avg" in reds:
        out += mu
    if "std" in reds:
        out += sd
    if "std_avg" in reds:
        out += [sum(sd) / C]
    if "max" in reds:
        out += [max([x[v][k] for v in range(V) if w[v] > 0], default=0.0) for k in range(C)]
    if max(w) <= 1e-4:
        out = [0.0] * len(out)
    return out


def run_aggr(c, rec):
    nv, nb, name = c["views"], c["batch"], c["aggr"]
    cam, R, t = cams(nv)
    ctr = [[-sum(float(t[i, j]) * float(R[i, k, j]) for j in range(3)) for k in range(3)] for i in range(nv)]
    pts = [[(0.4 - 0.2 * b, 0.3 * i, 0.1 * i - 0.3 * b) for i in range(NPTS)] for b in range(nb)]
    base = {"a": (torch.arange(nb * nv * NPTS * 2, dtype=f64) * 1.3 + c["off"]).sin().reshape(nb, nv, NPTS, 2) * 2 + c["shift"],
            "b": (torch.arange(nb * nv * NPTS * 3, dtype=f64) * 0.9 + c["off"]).cos().reshape(nb, nv, NPTS, 3) + c["shift"]}
    reds = [()] if name in ("id", "aid") else [tuple(r for r in ("avg", "std", "std_avg", "max") if r in s) for n in (1, 2, 3, 4) for s in itertools.combinations(("max", "std_avg", "std", "avg"), n)]
    pats = list(itertools.product((0.0, 1.0), repeat=nv))
    for chunk in range(0, len(pats), NPTS):
        sel = [pats[min(chunk + i, len(pats) - 1)] for i in range(NPTS)]
        # point i of element b has mask pattern sel[(i + b) % NPTS]
        m = torch.tensor([[[sel[(i + b) % NPTS][v] for i in range(NPTS)] for v in range(nv)] for b in range(nb)], dtype=f64)
        for exc, mex, cat in itertools.product((False, True), repeat=3):
            for gamma, mn in ((1.0, 0.1), (3.0, 0.5)) if name in ("aid", "ared") else ((None, None),):
                for red in reds:
                    if name == "ared" and "max" in red:
                        continue
                    if gamma == 3.0 and len(red) > 1:
                        continue
                    kw = {"exclude_target_view": exc, "exclude_target_view_mask_features": mex, "concatenate_output": cat}
                    if red:
                        # the order in the setting does not matter: always average, deviation, mean deviation, maximum
                        kw["reduction_functions"] = tuple(RF[r] for r in reversed(red))
                    if gamma is not None:
                        kw.update(weight_by_ray_angle_gamma=gamma, min_ray_angle_weight=mn)
                    ag = AG[name](**kw)
                    # as the sampler delivers them: features are zero where the view is of another sequence
                    zero_other = chunk % 2 == 0
                    fs = {k: (f * m[..., None] if zero_other else f) for k, f in base.items()}
                    inp = {k: f.float() for k, f in fs.items()}
                    keep = {k: f.clone() for k, f in inp.items()}
                    mm = m[..., None].float()
                    got = ag(inp, mm, cam, torch.tensor(pts, dtype=torch.float32))
                    what = "%s %s red=%s masks=%s zeroed=%s gamma=%s views=%d batch=%d" % (name, {k: v for k, v in kw.items() if isinstance(v, bool)}, red, sel, zero_other, gamma, nv, nb)
                    for k in inp:
                        expect(torch.equal(inp[k], keep[k]), what + ": changed its input")
                    want = {}
                    for k, f in fs.items():
                        F = f.tolist()
                        res = []
                        for b in range(nb):
                            rows = []
                            for i in range(NPTS):
                                x = [[0.0] * len(F[b][v][i]) if mex and v == b else F[b][v][i] for v in range(nv)]
                                w = [float(m[b, v, i]) * (0.0 if exc and v == b else 1.0) for v in range(nv)]
                                if gamma is not None:
                                    w = [w[v] * angle_weight(pts[b][i], ctr, b, v, gamma, mn) for v in range(nv)]
                                if name == "id":
                                    rows.append(x)
                                elif name == "aid":
                                    rows.append([[w[v] * y for y in x[v]] for v in range(nv)])
                                else:
                                    rows.append([aggregate(x, w, red)])
                            res.append(rows)
                        want[k] = torch.tensor(res, dtype=f64).transpose(1, 2)
                    expect(ag.has_aggregation() == bool(red), what + ": has_aggregation")
                    if cat:
                        W = torch.cat([want["a"], want["b"]], -1)
                        expect_close(what, got.double(), W, 2e-4, 1e-4)
                        if "std_avg" not in red:
                            expect(ag.get_aggregated_feature_dim(5) == W.shape[-1], what + ": dimension %s" % ag.get_aggregated_feature_dim(5))
                    else:
                        expect(list(got) == ["a", "b"], what + ": keys")
                        for k in want:
                            expect_close(what + ": " + k, got[k].double(), want[k], 2e-4, 1e-4)
                    rec.step()
                    rec.state((name, nv, nb, exc, mex, cat, red, tuple(sel), gamma))
    if name in ("aid", "ared"):
        ag = AG[name]()
        z = {k: f.float() for k, f in base.items()}
        one = torch.ones(nb, nv, NPTS, 1)
        expect_raises(lambda: ag(z, one, None, torch.zeros(nb, NPTS, 3)), "angle weights without cameras", (ValueError,))
        expect_raises(lambda: ag(z, one, cam, None), "angle weights without points", (ValueError,))
    rec.trace()


def run_pool(c, rec):
    """ViewPooler = sampler followed by the aggregator, whichever settings it is built with."""
    nv, nb = c["views"], c["batch"]
    cam, R, t = cams(nv)
    pts = torch.tensor(points(nb, False), dtype=torch.float32)
    feats = {"a": fmap(nv, 2, 3, 5, 0.0).float(), "b": fmap(nv, 3, 6, 4, 1.0).float()}
    masks = (fmap(nv, 1, 4, 4, 2.0) > 0).float()
    names = {"id": "IdentityFeatureAggregator", "red": "ReductionFeatureAggregator", "aid": "AngleWeightedIdentityFeatureAggregator", "ared": "AngleWeightedReductionFeatureAggregator"}
    for name, cls in AG.items():
        for sampled, mode, exc in itertools.product((False, True), ("bilinear", "nearest"), (False, True)):
            vp = ViewPooler(feature_aggregator_class_type=names[name], **{"feature_aggregator_%s_args" % names[name]: {"exclude_target_view": exc}},
                            view_sampler_args={"masked_sampling": sampled, "sampling_mode": mode})
            for sp in itertools.product((0, 1), repeat=nb):
                for sc in itertools.product((0, 1), repeat=nv):
                    got = vp(pts=pts, seq_id_pts=list(sp), camera=cam, seq_id_camera=list(sc), feats=feats, masks=masks)
                    f, m = ViewSampler(masked_sampling=sampled, sampling_mode=mode)(pts=pts, seq_id_pts=list(sp), camera=cam, seq_id_camera=list(sc), feats=feats, masks=masks)
                    want = cls(exclude_target_view=exc)(f, m, pts=pts, camera=cam)
                    expect_close("ViewPooler %s masked=%s mode=%s" % (name, sampled, mode), got, want, 1e-6, 1e-6)
                    expect(vp.get_aggregated_feature_dim(5) == got.shape[-1], "ViewPooler %s: dimension" % name)
                    expect(vp.has_aggregation() == (got.shape[1] == 1 and name in ("red", "ared")), "ViewPooler %s: has_aggregation" % name)
                    rec.step()
                    rec.state((name, sampled, mode, exc, sp, sc))
    rec.trace()


# ---------------------------------------------------------------- vert_align, ndc_grid_sample
def reflect(c, lo, hi):
    span = hi - lo
    if span == 0:
        return 0.0
    d = abs(c - lo)
    n, r = int(d // span), d % span
    return lo + r if n % 2 == 0 else hi - r


def sample_2d(fm, x, y, mode, pad, ac):
    C, H, W = len(fm), len(fm[0]), len(fm[0][0])
    c, r = ((x + 1) / 2 * (W - 1), (y + 1) / 2 * (H - 1)) if ac else (((x + 1) * W - 1) / 2, ((y + 1) * H - 1) / 2)
    if pad == "border":
        c, r = min(max(c, 0.0), W - 1.0), min(max(r, 0.0), H - 1.0)
    elif pad == "reflection":
        c = reflect(c, 0.0, W - 1.0) if ac else reflect(c, -0.5, W - 0.5)
        r = reflect(r, 0.0, H - 1.0) if ac else reflect(r, -0.5, H - 0.5)
        c, r = min(max(c, 0.0), W - 1.0), min(max(r, 0.0), H - 1.0)
    return lookup(fm, c, r, mode)


VAL = [-1.37, -1.0, -0.71, -0.13, 0.29, 0.83, 1.0, 1.21]


def run_align(c, rec):
    sizes = c["sizes"]
    N = len(sizes)
    lat = [(x, y, 0.3 * x - y) for x in VAL for y in VAL]
    vs = [torch.tensor([lat[(i * 5 + 11 * b) % len(lat)] for i in range(s)], dtype=torch.float32).reshape(-1, 3) for b, s in enumerate(sizes)]
    maps = [fmap(N, 2, 3, 5, 0.0), fmap(N, 1, 4, 2, 1.0), fmap(N, 3, 1, 1, 2.0)]
    fl = [m.tolist() for m in maps]
    kinds = ["mesh", "cloud"] + (["tensor"] if len(set(sizes)) == 1 else [])
    for kind, mode, pad, ac, packed, many in itertools.product(kinds, ("bilinear", "nearest"), ("zeros", "border", "reflection"), (True, False), (False, True), (False, True)):
        if kind == "mesh":
            obj = Meshes(vs, [torch.tensor([[0, 0, 0]]) if len(v) else torch.zeros(0, 3, dtype=torch.long) for v in vs])
        elif kind == "cloud":
            obj = Pointclouds(vs)
        else:
            obj = torch.stack(vs)
        use = [0, 1, 2] if many else [c["one"]]
        feats = [maps[i].float() for i in use] if many else maps[use[0]].float()
        got = vert_align(feats, obj, return_packed=packed, interp_mode=mode, padding_mode=pad, align_corners=ac)
        what = "vert_align of %s sizes %s %s %s corners=%s packed=%s maps=%s" % (kind, sizes, mode, pad, ac, packed, use)
        D = sum(maps[i].shape[1] for i in use)
        exp = (sum(sizes), D) if packed else (N, max(sizes), D)
        expect(tuple(got.shape) == exp, "%s: shape %s, not %s" % (what, tuple(got.shape), exp))
        k = 0
        for b in range(N):
            for i in range(sizes[b]):
                row = []
                for u in use:
                    q = sample_2d(fl[u][b], float(vs[b][i][0].double()), float(vs[b][i][1].double()), mode, pad, ac)
                    row += [None] * maps[u].shape[1] if q is None else q
                g = (got[k] if packed else got[b, i]).tolist()
                for a, w in zip(g, row):
                    expect(w is None or abs(a - w) <= 1e-4, "%s: vertex %d of %d has %s, not %s" % (what, i, b, g, row))
                k += 1
        rec.step()
        rec.state((kind, mode, pad, ac, packed, many, tuple(sizes)))
    rec.trace()


def run_ndc(c, rec):
    """ndc_grid_sample: NDC positions of images of any size."""
    for H, W in itertools.product((1, 2, 3, 5), repeat=2):
        fm = fmap(2, 2, H, W, 0.5)
        fl = fm.tolist()
        xs = [-2.6, -1.3, -0.9, -0.45, 0.0, 0.31, 0.77, 1.1, 1.9, 2.7]
        g = torch.tensor([[[(x + 0.01 * b, y - 0.02 * b) for x in xs] for y in xs] for b in range(2)], dtype=f64)
        for mode, flat in itertools.product(("bilinear", "nearest"), (False, True)):
            gg = (g.reshape(2, -1, 2) if flat else g).float()
            got = ndc_grid_sample(fm.float(), gg, mode=mode, align_corners=False)
            expect(tuple(got.shape) == (2, 2) + tuple(gg.shape[1:-1]), "ndc_grid_sample shape %s" % (tuple(got.shape),))
            got = got.reshape(2, 2, -1)
            for b in range(2):
                for i, (x, y) in enumerate(gg[b].reshape(-1, 2).double().tolist()):
                    q = lookup(fl[b], *pix(x, y, H, W), mode)
                    if q is not None:
                        expect(max(abs(float(a) - w) for a, w in zip(got[b, :, i], q)) < 1e-4,
                               "ndc_grid_sample %dx%d %s at %s: %s, not %s" % (H, W, mode, (x, y), got[b, :, i].tolist(), q))
                    rec.step()
            rec.state((H, W, mode, flat))
    rec.trace()


RUN = {"sample": run_sample, "aggr": run_aggr, "pool": run_pool, "align": run_align, "ndc": run_ndc}


def cases(tier):
    deep = tier == "thorough"
    out = [{"kind": "ndc"}]
    mx = 4 if deep else 3
    for nv in range(1, mx + 1):
        for nb in range(1, min(nv, 3) + 1):
            out.append({"kind": "sample", "views": nv, "batch": nb, "deep": deep})
            for name in AG:
                for off, shift in ((0.0, 0.0), (1.0, -3.0)) if not deep else ((0.0, 0.0), (1.0, -3.0), (2.0, 3.0), (3.0, -0.5)):
                    out.append({"kind": "aggr", "views": nv, "batch": nb, "aggr": name, "off": off, "shift": shift})
            out.append({"kind": "pool", "views": nv, "batch": nb})
    for sizes in itertools.chain(*[itertools.product((0, 1, 2, 5) if n < 3 else (0, 1, 3), repeat=n) for n in (1, 2, 3)]):
        if sum(sizes) == 0:
            continue
        for one in range(3):
            out.append({"kind": "align", "sizes": list(sizes), "one": one})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
