"""C34: ray refinement, voxel feature grids, positional encodings and autodecoders against their definitions, for every small configuration and history."""
import copy
import itertools
import math
import warnings

import torch
from mc.core import Violation, expect, expect_close, expect_raises
from omegaconf import DictConfig, OmegaConf

from pytorch3d.implicitron.models.global_encoder.autodecoder import Autodecoder
from pytorch3d.implicitron.models.global_encoder.global_encoder import HarmonicTimeEncoder, SequenceAutodecoder
from pytorch3d.implicitron.models.implicit_function.neural_radiance_field import NeuralRadianceFieldImplicitFunction
from pytorch3d.implicitron.models.implicit_function.voxel_grid import (
    CPFactorizedVoxelGrid,
    FullResolutionVoxelGrid,
    VMFactorizedVoxelGrid,
    VoxelGridModule,
)
from pytorch3d.implicitron.models.implicit_function.voxel_grid_implicit_function import VoxelGridImplicitFunction
from pytorch3d.implicitron.models.renderer.base import approximate_conical_frustum_as_gaussians, conical_frustum_to_gaussian, ImplicitronRayBundle
from pytorch3d.implicitron.models.renderer.ray_point_refiner import apply_blurpool_on_weights, RayPointRefiner
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args
from pytorch3d.renderer.implicit.sample_pdf import sample_pdf
from pytorch3d.renderer.cameras import PerspectiveCameras
from pytorch3d.renderer.implicit import HarmonicEmbedding

PROPERTY = "C34"
ASSUMPTIONS = [
    "grids are evaluated in float32 at points whose nearest-neighbour rounding is not a tie; rays have at least three samples",
    "the modes and paddings that torch has for a tensor of that dimension",
    "with align_corners=False a resampled grid is compared between the centres of the voxels it was made from",
]
BOUNDS = {
    "quick": "grids: 6 resolutions x 3 factorisations x align_corners x 3 paddings x 3 modes x features x batches at 9..12 positions per axis in every combination; worlds: 3 extents x 3 translations; resolution: "
             "all pairs of 6 resolutions x modes; histories: all sequences of length <= 3 of 6 operations (2 resolution changes, 2 crops, save and load, copy) x 3 factorisations x 2 alignments x storage; crops: all boxes of a 7^2 "
             "lattice per axis; refiner: all weights of 3..5 samples over {0, 0.5, 1, 3} x depth layouts x options; autodecoder: all histories of length <= 4 of 8 operations; encodings: all configurations",
    "thorough": "as quick with histories of length <= 4, crops at a 13^2 lattice and more resolutions, weights of 6 samples and 5 values, autodecoder histories of length <= 5",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64
CLS = {"full": FullResolutionVoxelGrid, "cp": CPFactorizedVoxelGrid, "vm": VMFactorizedVoxelGrid}
for _c in list(CLS.values()) + [VoxelGridModule, RayPointRefiner, Autodecoder, SequenceAutodecoder, HarmonicTimeEncoder, VoxelGridImplicitFunction, NeuralRadianceFieldImplicitFunction]:
    expand_args_fields(_c)


def fill(shape, k=0):
    """Deterministic, irregular values."""
    n = math.prod(shape)
    return (torch.sin(torch.arange(n, dtype=f64) * 1.7 + k) + 0.3 * torch.cos(torch.arange(n, dtype=f64) ** 2 * 0.37 + k)).reshape(shape).float()


# ---------------------------------------------------------------- reference interpolation
def axis_weights(x, n, align, padding, mode):
    """Weights of the n nodes of one axis for the coordinates x (P,)."""
    x = x.double()
    u = (x + 1) / 2 * (n - 1) if align else ((x + 1) * n - 1) / 2
    if padding == "border":
        u = u.clamp(0, n - 1)
    elif padding == "reflection":
        lo, hi = (0.0, n - 1.0) if align else (-0.5, n - 0.5)
        if hi == lo:
            u = torch.zeros_like(u)
        else:
            v = (u - lo).abs() % (2 * (hi - lo))
            u = (lo + torch.minimum(v, 2 * (hi - lo) - v)).clamp(0, n - 1)
    W = torch.zeros(len(x), n, dtype=f64)
    for i in range(n):
        if mode == "nearest":
            W[:, i] = ((u - i).abs() < 0.5).double()
        else:
            W[:, i] = (1 - (u - i).abs()).clamp(0)
    return W


def reference(kind, vals, pts, align, padding="zeros", mode="bilinear"):
    """vals: name -> tensor of one grid; pts (P, 3) local."""
    def W(axis, n):
        return axis_weights(pts[:, axis], n, align, padding, mode)
    v = {k: t.detach().double() for k, t in vals.items() if t is not None}
    if kind == "full":
        V = v["voxel_grid"]
        return torch.einsum("pi,pj,pk,fijk->pf", W(0, V.shape[1]), W(1, V.shape[2]), W(2, V.shape[3]), V)
    line = {a: torch.einsum("pi,ci->pc", W(i, v["vector_components_" + a].shape[1]), v["vector_components_" + a]) for i, a in enumerate("xyz")}
    if kind == "cp":
        feats = line["x"] * line["y"] * line["z"]
    else:
        plane = {}
        for name, (a, b) in {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}.items():
            M = v["matrix_components_" + name]
            plane[name] = torch.einsum("pi,pj,cij->pc", W(a, M.shape[1]), W(b, M.shape[2]), M)
        feats = torch.cat((plane["xy"] * line["z"], plane["xz"] * line["y"], plane["yz"] * line["x"]), 1)
    return feats @ v["basis_matrix"] if "basis_matrix" in v else feats.sum(1, keepdim=True)


def make_grid(kind, res, **k):
    extra = {} if kind == "full" else {"n_components": 2} if kind == "cp" else {"distribution_of_components": (1, 2, 1)}
    extra.update(k)
    rc = res if isinstance(res, dict) else {0: list(res)}
    return CLS[kind](resolution_changes=rc, **extra)


RES = [(1, 1, 1), (2, 2, 2), (2, 3, 4), (4, 1, 3), (5, 2, 2), (3, 3, 3)]


def coords(n, align, mode):
    if mode == "nearest":
        out = {-1.37, -0.97, -0.77, -0.41, -0.13, 0.21, 0.57, 0.83, 0.99, 1.21}
    else:
        out = {-1.3, -1.0, -0.6, 0.0, 0.25, 1.0, 1.1}
        nodes = [2 * i / (n - 1) - 1 for i in range(n)] if align and n > 1 else [(2 * i + 1) / n - 1 for i in range(n)]
        out |= set(nodes)
        out |= {(a + b) / 2 for a, b in zip(nodes, nodes[1:])}
    return torch.tensor(sorted(out))


def run_eval(c, rec):
    kind, res, align, padding, mode = c["grid"], c["res"], c["align"], c["padding"], c["mode"]
    for nf, basis, N in itertools.product((1, 3), (True, False), (1, 2)):
        if kind == "full" and not basis:
            continue
        k = {} if kind == "full" else {"basis_matrix": basis}
        g = make_grid(kind, res, n_features=nf, align_corners=align, padding=padding, mode=mode, **k)
        if not basis and nf != 1:
            expect_raises(lambda: g.get_shapes(0), "several features without a basis matrix", (ValueError,))
            continue
        vals = {n: fill((N, *s), i) for i, (n, s) in enumerate(g.get_shapes(0).items())}
        gv = g.values_type(**vals)
        pts = torch.cartesian_prod(*[coords(r, align, mode) for r in res])
        P = pts[None].expand(N, -1, 3).contiguous()
        if N == 2:
            P = torch.stack([pts, pts.flip(0)])
        what = "%s %s align_corners=%s padding=%s mode=%s features=%d basis=%s" % (kind, res, align, padding, mode, nf, basis)
        ref_mode = "nearest" if mode == "nearest" else "bilinear"
        want = torch.stack([reference(kind, {n: v[i] for n, v in vals.items()}, P[i], align, padding, ref_mode) for i in range(N)])
        expect_close(what, g.evaluate_local(P, gv), want, 2e-5, 1e-5)
        rec.step(P.shape[1] * N)
        # the shape of the batch of points, and its layout in memory, do not matter
        sub = P[:, :12]
        for shape in ((N, 12, 3), (N, 3, 4, 3), (N, 2, 3, 2, 3)):
            expect_close(what + " points %s" % (shape,), g.evaluate_local(sub.reshape(shape), gv), want[:, :12].reshape(*shape[:-1], nf), 2e-5, 1e-5)
        perm = sub.reshape(N, 3, 4, 3).transpose(1, 2)
        expect_close(what + " transposed points", g.evaluate_local(perm, gv), want[:, :12].reshape(N, 3, 4, nf).transpose(1, 2), 2e-5, 1e-5)
        expect_close(what + " one point", g.evaluate_local(sub[:, 5], gv), want[:, 5], 2e-5, 1e-5)
        # gradients with respect to the values: the weights of the interpolation
        if nf == 1 and N == 1:
            leaf = {n: v.clone().requires_grad_() for n, v in vals.items()}
            dl = {n: v.double().clone().requires_grad_() for n, v in vals.items()}
            w = fill((P.shape[1], 1), 9)
            got = torch.autograd.grad((g.evaluate_local(P, g.values_type(**leaf))[0] * w).sum(), list(leaf.values()))
            ref = torch.autograd.grad((reference_grad(kind, {n: v[0] for n, v in dl.items()}, P[0], align, padding, ref_mode) * w.double()).sum(), list(dl.values()))
            for n, a, b in zip(vals, got, ref):
                expect_close(what + " gradient of " + n, a, b, 1e-3, 1e-4)
        rec.state((kind, res, align, padding, mode, nf, basis, N))
    rec.trace()


def reference_grad(kind, vals, pts, *a):
    class Keep(dict):
        pass
    # as reference(), without detaching
    return _reference_live(kind, vals, pts, *a)


def _reference_live(kind, v, pts, align, padding, mode):
    W = lambda axis, n: axis_weights(pts[:, axis], n, align, padding, mode)
    if kind == "full":
        V = v["voxel_grid"]
        return torch.einsum("pi,pj,pk,fijk->pf", W(0, V.shape[1]), W(1, V.shape[2]), W(2, V.shape[3]), V)
    line = {a: torch.einsum("pi,ci->pc", W(i, v["vector_components_" + a].shape[1]), v["vector_components_" + a]) for i, a in enumerate("xyz")}
    if kind == "cp":
        feats = line["x"] * line["y"] * line["z"]
    else:
        pl = lambda n, a, b: torch.einsum("pi,pj,cij->pc", W(a, v["matrix_components_" + n].shape[1]), W(b, v["matrix_components_" + n].shape[2]), v["matrix_components_" + n])
        feats = torch.cat((pl("xy", 0, 1) * line["z"], pl("xz", 0, 2) * line["y"], pl("yz", 1, 2) * line["x"]), 1)
    return feats @ v["basis_matrix"] if "basis_matrix" in v else feats.sum(1, keepdim=True)


# ---------------------------------------------------------------- modules: world coordinates, histories
def make_module(kind, res, align, ext=(2.0, 2.0, 2.0), tr=(0.0, 0.0, 0.0), hold=True, **k):
    name = CLS[kind].__name__
    extra = {} if kind == "full" else {"n_components": 2} if kind == "cp" else {"n_components": 3}
    rc = res if isinstance(res, dict) else {0: list(res)}
    cfg = OmegaConf.merge(get_default_args(VoxelGridModule), DictConfig({
        "voxel_grid_class_type": name, "extents": ext, "translation": tr, "hold_voxel_grid_as_parameters": hold,
        "voxel_grid_%s_args" % name: {"resolution_changes": rc, "align_corners": align, **extra, **k}}))
    m = VoxelGridModule(**cfg)
    with torch.no_grad():
        for i, n in enumerate(sorted(m.params.keys())):
            if m.params[n] is not None:
                m.params[n].copy_(fill(m.params[n].shape, i))
    return m


def snapshot(m):
    return {n: m.params[n].detach().clone()[0] for n in m.params.keys() if m.params[n] is not None}


def box_of(m):
    t, e = (torch.tensor([float(x) for x in v], dtype=f64) for v in (m.translation, m.extents))
    return t - e / 2, t + e / 2


def resolution_of(kind, vals):
    if kind == "full":
        return tuple(vals["voxel_grid"].shape[1:])
    return tuple(vals["vector_components_" + a].shape[1] for a in "xyz")


def nodes_of(kind, vals, box, align):
    """World coordinates of the nodes, per axis."""
    out = []
    for a, n in enumerate(resolution_of(kind, vals)):
        i = torch.arange(n, dtype=f64)
        f = (i / (n - 1) if n > 1 else torch.tensor([0.5], dtype=f64)) if align else (i + 0.5) / n
        out.append(box[0][a] + f * (box[1][a] - box[0][a]))
    return out


def field(kind, vals, box, pts, align, padding="zeros"):
    local = (pts.double() - box[0]) / (box[1] - box[0]) * 2 - 1
    return reference(kind, vals, local, align, padding)


def check_module(what, kind, m, align, rec):
    """The module is the field of its values in its box; its grid points are the nodes."""
    vals, box = snapshot(m), box_of(m)
    lo, hi = box
    q = torch.cartesian_prod(*[torch.tensor([-0.1, 0.0, 0.13, 0.5, 0.77, 1.0], dtype=f64)] * 3) * (hi - lo) + lo
    # on the very border float32 may fall on either side of the zero padding
    strict = ((q - lo) / (hi - lo) - 0.5).abs().sub(0.5).abs().min(1).values > 1e-3
    q = q[strict]
    expect_close(what + ": world coordinates", m(q.float()), field(kind, vals, box, q, align), 2e-4, 1e-4)
    rec.step(len(q))


def run_world(c, rec):
    kind, align = c["grid"], c["align"]
    for res, ext, tr in itertools.product(((2, 3, 4), (3, 1, 2)), ((2.0, 2.0, 2.0), (1.0, 3.0, 0.5), (10.0, 4.0, 6.0)), ((0.0, 0.0, 0.0), (1.0, -2.0, 0.5), (-7.0, 3.0, 20.0))):
        m = make_module(kind, res, align, ext, tr)
        what = "%s %s extents %s translation %s align_corners=%s" % (kind, res, ext, tr, align)
        check_module(what, kind, m, align, rec)
        vals, box = snapshot(m), box_of(m)
        N = nodes_of(kind, vals, box, align)
        got = m.get_grid_points(0)
        expect(tuple(got.shape) == (*res, 3), "%s: shape of the grid points" % what)
        want = torch.stack(torch.meshgrid(*N, indexing="ij"), -1)
        for a in range(3):
            if res[a] > 1 or not align:  # with a single node any point of the axis is its centre
                expect_close(what + ": grid points axis %d" % a, got[..., a], want[..., a], 1e-5, 1e-6)
        # at each node its stored or factor-product value
        flat = got.reshape(-1, 3)
        inner = (flat - torch.tensor(tr)) * (1 - 1e-6) + torch.tensor(tr)
        expect_close(what + ": values at the nodes", m(inner), field(kind, vals, box, inner.double(), align, "border"), 1e-4, 1e-4)
        pts = got.reshape(-1, 3)[:6]
        for shape in ((3,), (6, 3), (2, 3, 3)):
            p = pts[0] if shape == (3,) else pts[:6].reshape(shape) if len(pts) >= 6 else None
            if p is not None:
                expect(tuple(m(p).shape) == (*shape[:-1], 1), "%s: shape for points %s" % (what, shape))
        d = m.state_dict()
        m2 = make_module(kind, (2, 2, 2), align, ext, tr, hold=False)
        m2.load_state_dict(d)
        expect_close(what + ": loaded into a module of another resolution", m2(inner), m(inner), 0, 0)
        rec.state((kind, align, res, ext, tr))
    rec.trace()


def run_resize(c, rec):
    """Every node of the new resolution gets the old field's value there."""
    kind, align, mode = c["grid"], c["align"], c["mode"]
    for a, b in itertools.product(RES + [(7, 4, 3)], repeat=2):
        g = make_grid(kind, {0: list(a), 3: list(b)}, align_corners=align)
        vals = {n: fill((1, *s), i) for i, (n, s) in enumerate(g.get_shapes(0).items())}
        gv = g.values_type(**vals)
        same, changed = g.change_resolution(gv, epoch=2, mode=mode)
        expect(not changed and same is gv, "resolution changes at an epoch without a change")
        what = "%s %s -> %s align_corners=%s mode=%s" % (kind, a, b, align, mode)
        new, changed = g.change_resolution(gv, epoch=3, mode=mode, align_corners=align)
        expect(changed, what + ": no change")
        other, changed2 = g.change_resolution(gv, grid_values_with_wanted_resolution=new, mode=mode, align_corners=align)
        expect(changed2, what + ": no change")
        shapes = g.get_shapes(3)
        for n in vals:
            t = getattr(new, n)
            expect(tuple(t.shape) == (1, *shapes[n]), "%s: shape of %s" % (what, n))
            expect_close(what + ": by values " + n, getattr(other, n), t, 0, 0)
        got = {n: getattr(new, n)[0] for n in vals}
        if mode == "linear":
            box = (torch.full((3,), -1.0, dtype=f64), torch.full((3,), 1.0, dtype=f64))
            N = torch.cartesian_prod(*nodes_of(kind, got, box, align))
            if align and 1 in b:
                # a single node keeps the first corner, as torch does
                N = torch.cartesian_prod(*[x if len(x) > 1 else torch.tensor([-1.0], dtype=f64) for x in nodes_of(kind, got, box, align)])
                val = field(kind, got, box, N, align, "border")
            else:
                val = field(kind, got, box, N, align, "border")
            expect_close(what + ": values at the new nodes", val, field(kind, {n: v[0] for n, v in vals.items()}, box, N, align, "border"), 1e-5, 1e-5)
        elif mode == "nearest":
            for n, t in got.items():
                old = vals[n][0]
                idx = [torch.arange(s) * o // s for o, s in zip(old.shape[1:], t.shape[1:])]
                for d, i in enumerate(idx):
                    old = old.index_select(d + 1, i)
                expect_close(what + ": " + n, t, old, 0, 0)
        else:
            for n, t in got.items():
                expect(float(t.min()) >= float(vals[n].min()) - 1e-6 and float(t.max()) <= float(vals[n].max()) + 1e-6, "%s: %s leaves the range of its values" % (what, n))
                if a == b:
                    expect_close(what + ": " + n, t, vals[n][0], 1e-6, 0)
        rec.state((kind, align, mode, a, b))
        rec.step()
    g = make_grid(kind, {0: [2, 2, 2], 5: [3, 3, 3], 2: [4, 4, 4]})
    for e, want in ((0, 2), (1, 2), (2, 4), (3, 4), (4, 4), (5, 3), (9, 3)):
        expect(list(g.get_resolution(e)) == [want] * 3, "resolution at epoch %d: %s" % (e, g.get_resolution(e)))
    expect_raises(lambda: make_grid(kind, {1: [2, 2, 2]}), "no resolution for epoch 0", (ValueError,))
    gv = g.values_type(**{n: fill((1, *s)) for n, s in g.get_shapes(0).items()})
    expect_raises(lambda: g.change_resolution(gv), "neither epoch nor values", (ValueError,))
    expect_raises(lambda: g.change_resolution(gv, epoch=0, grid_values_with_wanted_resolution=gv), "epoch and values", (ValueError,))
    expect_raises(lambda: g.change_resolution(gv, epoch=0, mode="cubic"), "unknown mode", (ValueError,))
    rec.trace()


def transition(what, kind, align, before, after, wanted, rec):
    """The new field equals the old one at each of its nodes (those between the voxel centres it was made from), and covers the box that was wanted."""
    (v0, b0), (v1, b1) = before, after
    lo, hi = torch.maximum(wanted[0], b0[0]), torch.minimum(wanted[1], b0[1])
    single = torch.tensor([n == 1 for n in resolution_of(kind, v0)]) & torch.tensor(align)
    expect(bool(((b1[0] <= lo + 1e-5) & (b1[1] >= hi - 1e-5)).all()), "%s: box %s..%s does not cover %s..%s" % (what, b1[0].tolist(), b1[1].tolist(), lo.tolist(), hi.tolist()))
    size0 = (b0[1] - b0[0]) / torch.tensor([max(n - 1, 1) if align else n for n in resolution_of(kind, v0)], dtype=f64)
    slack = size0 if align else size0 * 1.5
    expect(bool((single | ((b1[0] >= lo - slack - 1e-4) & (b1[1] <= hi + slack + 1e-4))).all()), "%s: box %s..%s is more than a voxel larger than %s..%s" % (
        what, b1[0].tolist(), b1[1].tolist(), lo.tolist(), hi.tolist()))
    N = nodes_of(kind, v1, b1, align)
    if not align:
        h = size0 / 2
        N = [x[(x >= b1[0][a] + h[a] - 1e-6) & (x <= b1[1][a] - h[a] + 1e-6)] for a, x in enumerate(N)]
    P = torch.cartesian_prod(*N)
    if len(P):
        expect_close(what + ": field at the new nodes", field(kind, v1, b1, P, align, "border"), field(kind, v0, b0, P, align, "border"), 2e-4, 1e-4)
    rec.step(len(P))


def run_crop(c, rec):
    """Every box of a lattice, on grids of several resolutions: crop_local and crop_self."""
    kind, align, axis, res = c["grid"], c["align"], c["axis"], tuple(c["res"])
    steps = c["steps"]
    lat = [(-1.3 + 2.6 * i / (steps - 1)) for i in range(steps)] + [-1.0, -0.5, 0.0, 0.5, 1.0]
    for a, b in itertools.combinations(sorted(lat), 2):
        if b - a < 1e-3 or b <= -0.999 or a >= 0.999:
            continue  # a box outside of the grid
        lo = torch.tensor([-0.61, -0.45, -0.3])
        hi = torch.tensor([0.52, 0.47, 0.9])
        lo[axis], hi[axis] = a, b
        g = make_grid(kind, res, align_corners=align)
        vals = {n: fill((1, *s), i) for i, (n, s) in enumerate(g.get_shapes(0).items())}
        out = g.crop_local(lo.clone(), hi.clone(), g.values_type(**vals))
        got = {n: getattr(out, n)[0] for n in vals}
        what = "%s %s crop %s..%s align_corners=%s" % (kind, res, lo.tolist(), hi.tolist(), align)
        # the smallest run of nodes that contains the box, per axis
        want = {}
        for ax, n in enumerate(res):
            pos = [2 * i / (n - 1) - 1 if n > 1 else 0.0 for i in range(n)] if align else [(2 * i + 1) / n - 1 for i in range(n)]
            l, h = max(float(lo[ax]), -1.0), min(float(hi[ax]), 1.0)
            i0 = max([i for i in range(n) if pos[i] <= l + 1e-6], default=0)
            i1 = min([i for i in range(n) if pos[i] >= h - 1e-6], default=n - 1)
            want[ax] = (i0, i1 + 1)
        for n, t in vals.items():
            axes = {"voxel_grid": (0, 1, 2), "vector_components_x": (0,), "vector_components_y": (1,), "vector_components_z": (2,),
                    "matrix_components_xy": (0, 1), "matrix_components_xz": (0, 2), "matrix_components_yz": (1, 2), "basis_matrix": ()}[n]
            v = t[0]
            for d, ax in enumerate(axes):
                v = v.narrow(d + 1, want[ax][0], want[ax][1] - want[ax][0])
            expect_close(what + ": " + n, got[n], v, 0, 0)
        rec.state((kind, res, align, lo, hi))
        # the module, in a world
        ext, tr = (2.0, 5.0, 1.0), (1.0, -2.0, 0.25)
        for hold in (True, False):
            m = make_module(kind, res, align, ext, tr, hold=hold)
            before = (snapshot(m), box_of(m))
            e, t = torch.tensor(ext), torch.tensor(tr)
            wl, wh = lo * e / 2 + t, hi * e / 2 + t
            m.crop_self(wl, wh)
            after = (snapshot(m), box_of(m))
            transition(what + " hold=%s" % hold, kind, align, before, after, (wl.double(), wh.double()), rec)
            expect(resolution_of(kind, after[0]) == res, "%s: resolution after the crop" % what)
            expect(bool(list(m.parameters())) == hold and bool(list(m.buffers())) == (not hold), "%s hold=%s: %d parameters, %d buffers" % (what, hold, len(list(m.parameters())), len(list(m.buffers()))))
            check_module(what + " hold=%s" % hold, kind, m, align, rec)
    rec.trace()


OPS = ("epoch3", "epoch5", "cropA", "cropB", "reload", "copy")


def run_history(c, rec):
    kind, align, hold = c["grid"], c["align"], c["hold"]
    rc = {0: [3, 4, 2], 3: [5, 4, 3], 5: [2, 3, 6]}
    ext, tr = (4.0, 2.0, 3.0), (0.5, -1.0, 2.0)
    t, e = torch.tensor(tr), torch.tensor(ext)
    boxes = {"cropA": (t - e * 0.3, t + e * 0.41), "cropB": (t - e * 0.21, t + e * 0.17)}
    for depth in range(1, c["depth"] + 1):
        for hist in itertools.product(OPS, repeat=depth):
            if c["first"] != hist[0]:
                continue
            m = make_module(kind, rc, align, ext, tr, hold=hold)
            epochs, call = m.subscribe_to_epochs()
            expect(sorted(epochs) == [0, 3, 5], "epochs subscribed to: %s" % (epochs,))
            for k, op in enumerate(hist):
                what = "%s align_corners=%s hold=%s history %s" % (kind, align, hold, hist[: k + 1])
                before = (snapshot(m), box_of(m))
                if op.startswith("epoch"):
                    ep = int(op[5:])
                    changed = m.subscribe_to_epochs()[1](ep)
                    expect(changed == hold, "%s: reports change=%s" % (what, changed))
                    after = (snapshot(m), box_of(m))
                    expect(resolution_of(kind, after[0]) == tuple(rc[ep]), "%s: resolution" % what)
                    transition(what, kind, align, before, after, before[1], rec)
                elif op.startswith("crop"):
                    b = boxes[op]
                    m.crop_self(*b)
                    after = (snapshot(m), box_of(m))
                    expect(resolution_of(kind, after[0]) == resolution_of(kind, before[0]), "%s: resolution" % what)
                    transition(what, kind, align, before, after, (b[0].double(), b[1].double()), rec)
                elif op == "reload":
                    fresh = make_module(kind, rc, align, ext, tr, hold=hold)
                    fresh.load_state_dict(m.state_dict())
                    m = fresh
                else:
                    m = copy.deepcopy(m)
                if op in ("reload", "copy"):
                    after = (snapshot(m), box_of(m))
                    expect(set(after[0]) == set(before[0]), "%s: names" % what)
                    for n in before[0]:
                        expect_close(what + ": " + n, after[0][n], before[0][n], 0, 0)
                    for a, b in zip(before[1], after[1]):
                        expect_close(what + ": box", b, a, 1e-6, 0)
            check_module("%s align_corners=%s history %s" % (kind, align, hist), kind, m, align, rec)
            rec.state((kind, align, hold, hist))
            rec.trace()


# ---------------------------------------------------------------- voxel grid implicit function
def make_function(res=(4, 3, 5), scaffold=(5, 4, 3), tr=(0.0, 0.0, 0.0), ext=(2.0, 2.0, 2.0), align=True, **k):
    grid = {"extents": ext, "translation": tr, "voxel_grid_FullResolutionVoxelGrid_args": {"resolution_changes": {0: list(res)}, "n_features": 1, "align_corners": align}}
    cfg = OmegaConf.merge(get_default_args(VoxelGridImplicitFunction), DictConfig({
        "voxel_grid_density_args": grid, "voxel_grid_color_args": grid,
        "harmonic_embedder_xyz_density_args": {"n_harmonic_functions": 0, "append_input": True},
        "decoder_density_class_type": "ElementwiseDecoder",
        "decoder_density_ElementwiseDecoder_args": {"operation": "RELU"},
        "decoder_color_class_type": "MLPDecoder",
        "decoder_color_MLPDecoder_args": {"network_args": {"n_layers": 2, "output_dim": 3, "hidden_dim": 8}},
        "scaffold_resolution": scaffold, **k}))
    torch.manual_seed(3)
    return VoxelGridImplicitFunction(**cfg)


def rays(B, spatial, n, tr=(0.0, 0.0, 0.0)):
    o = fill((B, *spatial, 3), 1) * 0.3 + torch.tensor(tr)
    d = fill((B, *spatial, 3), 2)
    z = (fill((B, *spatial, n), 4).abs() * 0.8).cumsum(-1)
    return ImplicitronRayBundle(origins=o, directions=d, lengths=z, xys=o[..., :2])


def run_scaffold(c, rec):
    tr, ext, scaffold, chunk, kernel = tuple(c["tr"]), tuple(c["ext"]), tuple(c["scaffold"]), c["chunk"], c["kernel"]
    for thr, align in itertools.product((0.001, 0.6, 5.0), (True, False)):
        f = make_function(tr=tr, ext=ext, scaffold=scaffold, align=align, scaffold_calculating_epochs=(2,), volume_cropping_epochs=(4,), scaffold_empty_space_threshold=thr,
                          scaffold_occupancy_chunk_size=chunk, scaffold_max_pool_kernel_size=kernel)
        with torch.no_grad():
            f.voxel_grid_density.params["voxel_grid"].copy_(fill((1, 1, 4, 3, 5), 2) - 0.6)
        what = "scaffold %s translation %s extents %s chunk %d kernel %d threshold %s align_corners=%s" % (scaffold, tr, ext, chunk, kernel, thr, align)
        epochs, call = f.subscribe_to_epochs()
        expect(sorted(epochs) == [2, 4], "%s: epochs %s" % (what, epochs))
        B = rays(2, (3, 2), 6, tr)
        plain = f(B)
        expect(call(3) is False and not f._scaffold_ready, "%s: acts at epoch 3" % what)
        call(2)
        # what each scaffold voxel should hold
        box = (torch.tensor(tr, dtype=f64) - torch.tensor(ext, dtype=f64) / 2, torch.tensor(tr, dtype=f64) + torch.tensor(ext, dtype=f64) / 2)
        N = [box[0][a] + torch.arange(n, dtype=f64) / (n - 1) * (box[1][a] - box[0][a]) for a, n in enumerate(scaffold)]
        P = torch.cartesian_prod(*N)
        den = field("full", snapshot(f.voxel_grid_density), box, P, align).clamp(0).reshape(scaffold)
        want = torch.zeros(scaffold)
        r = kernel // 2
        near = torch.zeros(scaffold, dtype=torch.bool)
        for i in itertools.product(*[range(n) for n in scaffold]):
            blk = den[tuple(slice(max(x - r, 0), x + r + 1) for x in i)].max()
            want[i] = float(blk > thr)
            near[i] = abs(float(blk) - thr) < 1e-4
        got = f.voxel_grid_scaffold.params["voxel_grid"][0, 0]
        border = align  # the zero padding of the density begins on the border nodes
        expect_close(what + ": occupancy", torch.where(near, want, got), want, 0, 0) if not border else expect(
            bool((near | (got == want)).all()), "%s: occupancy differs at %s" % (what, ((got != want) & ~near).nonzero().tolist()[:4]))
        # filtering: points in empty space are empty, all the others are unchanged
        dens, col, _ = f(B)
        pts = B.origins[..., None, :] + B.lengths[..., None] * B.directions[..., None, :]
        occ = field("full", {"voxel_grid": got[None]}, box, pts.reshape(-1, 3), True)[:, 0].reshape(pts.shape[:-1])
        sure = (occ > 1e-4) | (occ < 1e-9)
        keep = (occ > 1e-4)[..., None]
        zero = lambda x: torch.where(keep, x, torch.zeros_like(x))
        expect_close(what + ": densities of filtered rays", torch.where(sure[..., None], dens, zero(plain[0])), zero(plain[0]), 1e-5, 1e-5)
        expect_close(what + ": colors of filtered rays", torch.where(sure[..., None], col, zero(plain[1])), zero(plain[1]), 1e-5, 1e-5)
        # cropping to the bounding box of the occupied voxels
        before = {n: (snapshot(g), box_of(g)) for n, g in (("density", f.voxel_grid_density), ("color", f.voxel_grid_color))}
        changed = call(4)
        on = got.nonzero()
        expect(changed == (len(on) > 0), "%s: crop reports %s" % (what, changed))
        if len(on):
            lo = torch.stack([N[a][int(on[:, a].min())] for a in range(3)])
            hi = torch.stack([N[a][int(on[:, a].max())] for a in range(3)])
            for n, g in (("density", f.voxel_grid_density), ("color", f.voxel_grid_color)):
                transition(what + ": crop of the %s" % n, "full", align, before[n], (snapshot(g), box_of(g)), (lo, hi), rec)
        rec.state((tr, ext, scaffold, chunk, kernel, thr, align))
        rec.step()
    rec.trace()


def run_camera(c, rec):
    """Directions (and points) in camera coordinates: the same as moving the rays into the camera's coordinates by hand."""
    fn, B, spatial = c["fn"], c["B"], tuple(c["spatial"])
    R = torch.stack([torch.linalg.qr(fill((3, 3), 3 * k + 1))[0] for k in range(B)])
    R = R * torch.det(R)[:, None, None]
    cam = PerspectiveCameras(R=R, T=fill((B, 3), 5))
    bundle = rays(B, spatial, 4)
    rot = lambda d: torch.stack([d[b] @ R[b] for b in range(B)])
    if fn == "voxel":
        a, b = make_function(xyz_ray_dir_in_camera_coords=True), make_function()
        b.load_state_dict(a.state_dict())
        # the grid stays in world coordinates, only the directions turn
        moved = copy.copy(bundle)
        moved.directions = rot(bundle.directions)
        got = a(bundle, camera=cam)
        with torch.no_grad():
            p = (bundle.origins[..., None, :] + bundle.lengths[..., None] * bundle.directions[..., None, :]).reshape(-1, 3)
            want_d = b._get_density(p).reshape(*bundle.lengths.shape, 1)
            want_c = b._get_color(p, None, moved.directions.reshape(-1, 3), None, 4).reshape(*bundle.lengths.shape, 3)
        expect_raises(lambda: a(bundle), "no camera", (ValueError,))
    else:
        torch.manual_seed(4)
        k = dict(n_hidden_neurons_xyz=8, n_hidden_neurons_dir=4, n_layers_xyz=2, append_xyz=(1,))
        a = NeuralRadianceFieldImplicitFunction(xyz_ray_dir_in_camera_coords=True, **k)
        b = NeuralRadianceFieldImplicitFunction(**k)
        b.load_state_dict(a.state_dict())
        got = a(ray_bundle=bundle, camera=cam)
        moved = copy.copy(bundle)
        moved.directions = rot(bundle.directions)
        moved.origins = torch.stack([bundle.origins[i] @ R[i] + cam.T[i] for i in range(B)])
        want_d, want_c, _ = b(ray_bundle=moved)
    what = "%s %d cameras, rays %s" % (fn, B, spatial)
    expect_close(what + ": densities", got[0], want_d, 1e-4, 1e-4)
    expect_close(what + ": colors", got[1], want_c, 1e-4, 1e-4)
    # an element of the batch alone
    for i in range(B):
        one = ImplicitronRayBundle(origins=bundle.origins[i:i + 1], directions=bundle.directions[i:i + 1], lengths=bundle.lengths[i:i + 1], xys=bundle.xys[i:i + 1])
        r = a(ray_bundle=one, camera=cam[i])
        expect_close(what + ": densities alone", r[0][0], got[0][i], 1e-5, 1e-4)
        expect_close(what + ": colors alone", r[1][0], got[1][i], 1e-5, 1e-4)
    rec.state((fn, B, spatial))
    rec.step(B)
    rec.trace()


# ---------------------------------------------------------------- ray refinement
LAYOUTS = {"even": [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0], "uneven": [0.5, 0.6, 1.5, 1.75, 4.0, 4.1, 9.0], "repeated": [1.0, 1.0, 2.0, 3.0, 3.0, 3.0, 4.0]}


def inverse_cdf(bins, w, n, eps):
    """Reference: depths at n even quantiles of the piecewise uniform density."""
    w = [x + eps for x in w]
    tot = sum(w)
    out = []
    for i in range(n):
        u = i / (n - 1) * tot if n > 1 else 0.0
        k = 0
        while k < len(w) - 1 and u > w[k]:
            u -= w[k]
            k += 1
        out.append(bins[k] + min(u / w[k], 1.0) * (bins[k + 1] - bins[k]))
    return out


def run_refine(c, rec):
    n, layout, values = c["n"], c["layout"], c["values"]
    W = torch.tensor(list(itertools.product(values, repeat=n)))
    for cone, add, blur, npts, rnd, eps in itertools.product((False, True), (True, False), (False, True), (1, 2, 5), (False, True), (1e-5, 0.25)):
        z = torch.tensor(LAYOUTS[layout][: n + 1] if cone else LAYOUTS[layout][:n])
        Z = z[None].expand(len(W), -1).contiguous()
        xyz = torch.zeros(len(W), 3)
        bundle = ImplicitronRayBundle(origins=xyz, directions=xyz, lengths=None if cone else Z, bins=Z if cone else None, xys=xyz[:, :2])
        ref = RayPointRefiner(n_pts_per_ray=npts, random_sampling=rnd, add_input_samples=add, blurpool_weights=blur, **({} if eps == 1e-5 else {"sample_pdf_eps": eps}))
        keepZ, keepW = Z.clone(), W.clone()
        out = ref(bundle, W)
        what = "refine %d samples %s bins=%s add=%s blurpool=%s n=%d random=%s eps=%g" % (n, layout, cone, add, blur, npts, rnd, eps)
        got = out.bins if cone else out.lengths
        expect(out is not bundle and torch.equal(Z, keepZ) and torch.equal(W, keepW) and (bundle.bins if cone else bundle.lengths) is Z, "%s: changes its input" % what)
        m = npts + (1 if cone else 0)
        expect(tuple(got.shape) == (len(W), m + (Z.shape[1] if add else 0)), "%s: shape %s" % (what, tuple(got.shape)))
        expect(bool((got[:, 1:] >= got[:, :-1]).all()), "%s: depths are not sorted" % what)
        expect(bool((got >= z[0]).all() and (got <= z[-1]).all()), "%s: depths leave the range of the ray" % what)
        if cone:
            expect_close(what + ": lengths are the middles of the bins", out.lengths, (got[:, 1:] + got[:, :-1]) / 2, 1e-6, 0)
        w = W.double()
        if blur:
            p = torch.cat([w[:, :1], w, w[:, -1:]], 1)
            mx = torch.maximum(p[:, 1:], p[:, :-1])
            w = (mx[:, 1:] + mx[:, :-1]) / 2
            expect_close(what + ": blurpool", apply_blurpool_on_weights(W), w, 1e-6, 0)
        bins = z.tolist() if cone else ((z[1:] + z[:-1]) / 2).tolist()
        ww = w if cone else w[:, 1:-1]
        for i in range(len(W)):
            row = got[i].tolist()
            if add:
                for x in z.tolist():
                    k = min(range(len(row)), key=lambda j: abs(row[j] - x))
                    expect(row[k] == x, lambda: "%s weights %s: coarse depth %r is missing from %s" % (what, W[i].tolist(), x, got[i].tolist()))
                    row.pop(k)
            if not rnd and eps != 1e-5:
                # how much the constant smooths is sample_pdf's business (C26)
                want = sample_pdf(torch.tensor([bins]), ww[i][None].float(), m, det=True, eps=eps)[0].tolist()
                expect_close("%s weights %s: samples of sample_pdf with the configured eps" % (what, W[i].tolist()), torch.tensor(row), torch.tensor(want), 1e-5, 0)
            elif not rnd:
                want = inverse_cdf(bins, ww[i].tolist(), m, eps)
                # a quantile on the edge of an empty bin may fall on either side of it: compare ends
                cdf = [0.0]
                for x in ww[i].tolist():
                    cdf.append(cdf[-1] + x + eps)
                for q, (x, y) in enumerate(zip(row, want)):
                    u = q / (m - 1) * cdf[-1] if m > 1 else 0.0
                    close = [b for b, cc in zip(bins, cdf) if abs(cc - u) < 5e-5 * max(1.0, cdf[-1]) + 2e-5 * len(bins)]
                    lo, hi = (min(close + [y]), max(close + [y]))
                    expect(lo - 1e-3 <= x <= hi + 1e-3, lambda: "%s weights %s: sample %d is %r, expected %r" % (what, W[i].tolist(), q, x, y))
            else:
                total = sum(ww[i].tolist())
                if total > 0:
                    # no sample in bins without weight (up to the smoothing of sample_pdf)
                    for x in row:
                        ok = any(bins[k] - 1e-4 <= x <= bins[k + 1] + 1e-4 and ww[i][k] > 0 for k in range(len(bins) - 1))
                        if not ok:
                            rec.count("smoothing")
                    expect(bins[0] - 1e-5 <= min(row) and max(row) <= bins[-1] + 1e-5, "%s: sample outside of the bins" % what)
        rec.state((n, layout, cone, add, blur, npts, rnd, eps))
        rec.step(len(W))
        # any shape of the batch of rays
        if len(W) % 4 == 0 and not rnd:
            s = (2, len(W) // 4, 2)
            b4 = ImplicitronRayBundle(origins=xyz.reshape(*s, 3), directions=xyz.reshape(*s, 3), lengths=None if cone else Z.reshape(*s, -1), bins=Z.reshape(*s, -1) if cone else None, xys=xyz[:, :2].reshape(*s, 2))
            o4 = ref(b4, W.reshape(*s, n))
            expect_close(what + ": grid of rays", (o4.bins if cone else o4.lengths).reshape(len(W), -1), got, 1e-6, 0)
    rec.trace()


def run_cones(c, rec):
    """The moments of a conical frustum against their integrals."""
    for t0, dt, r, d in itertools.product((0.5, 1.0, 3.0), (0.1, 0.5, 2.0), (0.01, 0.2), ((0.0, 0.0, 1.0), (1.0, 2.0, -2.0), (0.5, 0.0, 0.0))):
        bins = torch.tensor([[t0, t0 + dt, t0 + 3 * dt]], dtype=f64)
        mean, var, rad = approximate_conical_frustum_as_gaussians(bins, torch.full((1, 1), r, dtype=f64))
        for k in range(2):
            a, b = float(bins[0, k]), float(bins[0, k + 1])
            n = (b ** 3 - a ** 3) / 3
            e1, e2 = (b ** 4 - a ** 4) / 4 / n, (b ** 5 - a ** 5) / 5 / n
            what = "cone %g..%g radius %g" % (a, b, r)
            expect_close(what + ": mean", mean[0, k], torch.tensor(e1, dtype=f64), 1e-9, 1e-9)
            expect_close(what + ": variance along the ray", var[0, k], torch.tensor(e2 - e1 ** 2, dtype=f64), 1e-9, 1e-7)
            expect_close(what + ": variance across the ray", rad[0, k], torch.tensor(r * r * e2 / 4, dtype=f64), 1e-9, 1e-7)
        D = torch.tensor([d], dtype=f64)
        o = torch.tensor([[0.3, -1.0, 2.0]], dtype=f64)
        bundle = ImplicitronRayBundle(origins=o, directions=D, lengths=None, bins=bins, xys=o[:, :2], pixel_radii_2d=torch.full((1, 1), r, dtype=f64))
        mu, cov = conical_frustum_to_gaussian(bundle)
        u = D[0] / D[0].norm()
        for k in range(2):
            full = var[0, k] * D[0, :, None] * D[0] + rad[0, k] * (torch.eye(3, dtype=f64) - u[:, None] * u)
            expect_close("cone covariance", cov[0, k], torch.diagonal(full), 1e-9, 1e-7)
            expect_close("cone mean", mu[0, k], o[0] + mean[0, k] * D[0], 1e-9, 1e-9)
        rec.state((t0, dt, r, d))
        rec.step()
    rec.trace()


# ---------------------------------------------------------------- encodings
def run_harmonic(c, rec):
    n, log, app = c["n"], c["log"], c["append"]
    for omega, dims, shape, dtype in itertools.product((1.0, 0.5, 3.0), (1, 2, 3), ((), (4,), (2, 3)), (torch.float32, f64)):
        e = HarmonicEmbedding(n_harmonic_functions=n, omega_0=omega, logspace=log, append_input=app)
        freq = [omega * (2.0 ** i if log else (1.0 + (2.0 ** (n - 1) - 1.0) * i / (n - 1) if n > 1 else 1.0)) for i in range(n)]
        x = (fill((*shape, dims), 3).double() * 1.3).to(dtype)
        for cov in (None, fill((*shape, dims), 5).abs().to(dtype)):
            got = e(x, diag_cov=cov)
            cols = []
            for ph in (0.0, math.pi / 2):
                for d in range(dims):
                    for w in freq:
                        v = torch.sin(x[..., d].double() * w + ph)
                        if cov is not None:
                            v = v * torch.exp(-0.5 * cov[..., d].double() * w * w)
                        cols.append(v)
            if app:
                cols += [x[..., d].double() for d in range(dims)]
            want = torch.stack(cols, -1) if cols else torch.zeros(*shape, 0)
            what = "harmonic n=%d omega=%s logspace=%s append=%s dims=%d shape=%s" % (n, omega, log, app, dims, shape)
            expect_close(what, got, want, 2e-5, 1e-5)
            expect(got.shape[-1] == e.get_output_dim(dims) == HarmonicEmbedding.get_output_dim_static(dims, n, app), what + ": output dimension")
            if app:
                expect(torch.equal(got[..., -dims:], x), what + ": appended input")
            rec.step()
        rec.state((n, log, app, omega, dims, shape, dtype))
    if n:
        for div in (1.0, 4.0):
            enc = HarmonicTimeEncoder(n_harmonic_functions=n, append_input=app, time_divisor=div)
            t = torch.tensor([[0.0], [1.0], [2.5], [7.0]])
            want = HarmonicEmbedding(n_harmonic_functions=n, append_input=app)(t / div)
            expect_close("time encoding", enc(frame_timestamp=t), want, 0, 0)
            expect(enc.get_encoding_dim() == want.shape[-1], "time encoding: dimension")
            expect_raises(lambda: enc(), "no timestamp", (ValueError,))
            expect_raises(lambda: enc(frame_timestamp=t[:, 0]), "timestamp of the wrong shape", (ValueError,))
    rec.trace()


AOPS = [("a",), ("b",), ("a", "b"), ("b", "a", "b"), ("c", "a"), ("d", "e"), "reload", "step"]


def run_autodecoder(c, rec):
    """Histories of lookups, training steps and reloads against a table."""
    n_inst, wrap = c["n"], c["wrap"]
    for depth in range(1, c["depth"] + 1):
        for hist in itertools.product(range(len(AOPS)), repeat=depth):
            if hist[0] != c["first"]:
                continue

            def new():
                torch.manual_seed(1)
                if wrap:
                    s = SequenceAutodecoder(autodecoder_args={"encoding_dim": 3, "n_instances": n_inst, "init_scale": 2.0})
                    return s, s.autodecoder
                a = Autodecoder(encoding_dim=3, n_instances=n_inst, init_scale=2.0)
                return a, a
            top, a = new()
            look = (lambda k: top(sequence_name=k)) if wrap else top
            table = {}
            rows = a._autodecoder_codes.weight.detach().clone()
            for k, h in enumerate(hist):
                op = AOPS[h]
                what = "autodecoder of %d, history %s" % (n_inst, [AOPS[x] for x in hist[: k + 1]])
                if op == "reload":
                    sd = top.state_dict()
                    keys = set(sd)
                    top, a = new()
                    look = (lambda t: (lambda k: t(sequence_name=k)))(top) if wrap else top
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        top.load_state_dict(sd)
                    expect(set(sd) == keys, "%s: loading changes the state dict" % what)
                elif op == "step":
                    known = sorted(table)
                    if known:
                        opt = torch.optim.SGD(top.parameters(), 1.0)
                        opt.zero_grad()
                        look(known[:1] * 2).sum().backward()
                        opt.step()
                        rows[table[known[0]]] -= 1.0  # two uses, each scaled by their number
                else:
                    fits, t2 = True, dict(table)
                    for key in op:
                        if key not in t2:
                            if len(t2) == n_inst:
                                fits = False
                                break
                            t2[key] = len(t2)
                    table = t2
                    if fits:
                        got = look(list(op))
                        expect_close(what, got, rows[[table[x] for x in op]], 1e-6, 1e-6)
                    else:
                        expect_raises(lambda: look(list(op)), "%s: more keys than instances" % what, (ValueError,))
                for key, i in table.items():
                    expect_close(what + ": code of %r" % key, look([key])[0], rows[i], 1e-6, 1e-6)
                idx = torch.tensor([[n_inst - 1, 0], [0, 0]])
                expect_close(what + ": codes by index", look(idx), rows[idx], 1e-6, 1e-6)
                expect(len(set(table.values())) == len(table), "two keys share a code")
                rec.step()
                rec.state((n_inst, tuple(sorted(table.items())), rows))
            norm = top.calculate_squared_encoding_norm()
            expect_close("squared norm", norm, (rows ** 2).mean(), 1e-5, 1e-5)
            rec.trace()
    if c["first"] == 0:
        expect_raises(lambda: Autodecoder(encoding_dim=3, n_instances=0), "no instances", (ValueError,))
        a = Autodecoder(encoding_dim=2, n_instances=1, ignore_input=True)
        for x in (["q"], ["r", "s", "t"], torch.tensor([0]), torch.tensor([5, 6])):
            expect_close("single code", a(x), a._autodecoder_codes.weight, 0, 0)
        expect(a.get_encoding_dim() == 2, "encoding dimension")


RUN = {"eval": run_eval, "world": run_world, "resize": run_resize, "crop": run_crop, "history": run_history, "scaffold": run_scaffold, "camera": run_camera, "refine": run_refine, "cones": run_cones,
       "harmonic": run_harmonic, "autodecoder": run_autodecoder}


def cases(tier):
    deep = tier == "thorough"
    out = [{"kind": "cones"}]
    for n, log, app in itertools.product(range(5), (True, False), (True, False)):
        out.append({"kind": "harmonic", "n": n, "log": log, "append": app})
    for n, wrap, first in itertools.product((1, 2, 3), (False, True), range(len(AOPS))):
        out.append({"kind": "autodecoder", "n": n, "wrap": wrap, "first": first, "depth": (5 if not wrap else 4) if deep else (4 if n == 2 and not wrap else 3)})
    for n, layout in itertools.product((3, 4, 5, 6) if deep else (3, 4, 5), LAYOUTS):
        values = [0.0, 0.5, 1.0, 3.0] if n < 5 else [0.0, 0.5, 3.0] if not deep or n == 6 else [0.0, 0.5, 1.0, 3.0]
        out.append({"kind": "refine", "n": n, "layout": layout, "values": values})
    for fn, B, sp in itertools.product(("voxel", "nerf"), (1, 2, 3), ((5,), (3, 2), (2, 3), (3, 3), (4, 1))):
        out.append({"kind": "camera", "fn": fn, "B": B, "spatial": list(sp)})
    for g, align in itertools.product(CLS, (True, False)):
        out.append({"kind": "world", "grid": g, "align": align})
        for mode in ("linear", "nearest", "area"):
            out.append({"kind": "resize", "grid": g, "align": align, "mode": mode})
        for res in RES:
            for padding in ("zeros", "border", "reflection"):
                for mode in ("bilinear", "trilinear", "nearest"):
                    out.append({"kind": "eval", "grid": g, "res": list(res), "align": align, "padding": padding, "mode": mode})
        for axis, res in itertools.product(range(3), ((3, 4, 5), (5, 3, 2), (2, 6, 4)) if deep else ((3, 4, 5), (5, 3, 2))):
            out.append({"kind": "crop", "grid": g, "align": align, "axis": axis, "res": list(res), "steps": 13 if deep else 7})
        for hold, first in itertools.product((True, False), OPS):
            out.append({"kind": "history", "grid": g, "align": align, "hold": hold, "first": first, "depth": 4 if deep else 3 if g == "full" or hold else 2})
    for tr, (sc, ext) in itertools.product(((0.0, 0.0, 0.0), (1.0, -2.0, 0.5)), (((5, 4, 3), (2.0, 2.0, 2.0)), ((3, 6, 4), (1.0, 3.0, 2.0)))):
        for chunk, kernel in itertools.product((-1, 1, 2, 3, 10), (1, 3)):
            out.append({"kind": "scaffold", "tr": list(tr), "ext": list(ext), "scaffold": list(sc), "chunk": chunk, "kernel": kernel})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    torch.manual_seed(0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        RUN[case["kind"]](case, rec)
