"""C03: voxel grids of every small size combination and convention, and all short histories of operations on them, against a list-of-grids model."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.structures import Volumes
from pytorch3d.structures.volumes import VolumeLocator

PROPERTY = "C03"
ASSUMPTIONS = ["the world position follows the documented formula x_local * (size - 1) / 2 * voxel_size - translation for both corner conventions",
               "mapping world points back needs at least two voxels along every axis (the documented formula divides by size - 1)"]
BOUNDS = {
    "quick": "every single grid size in {1,2,3}^3 and every ordered pair of 8 sizes as lists, both corner conventions, 7 ways of giving the voxel size x 5 of the translation; "
             "histories of 2 of 17 operations (8 ways of indexing, clone, copy, 3 updates, in-place edits of a clone ...) on 6 batches x 2 conventions, of 3 on 2 of them",
    "thorough": "as quick with all pairs from {1,2,3}^3, histories of 3 operations on all 6 batches x 2 conventions and of 4 on 2 batches",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64

SIZES = list(itertools.product((1, 2, 3), repeat=3))
PICK = [(2, 2, 2), (3, 2, 2), (2, 3, 4), (1, 2, 3), (3, 1, 2), (2, 4, 1), (1, 1, 1), (4, 3, 2)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in SIZES:
        out.append(["mapping", [list(s)]])
    for a, b in (itertools.product(SIZES, repeat=2) if th else itertools.product(PICK, repeat=2)):
        out.append(["mapping", [list(a), list(b)]])
    for a, b, c in itertools.product(PICK[1:4], repeat=3):
        out.append(["mapping", [list(a), list(b), list(c)]])
    for bi in range(6):
        for al in (True, False):
            for op in range(len(OPS)):
                out.append(["history", bi, al, op, (4 if bi in (1, 5) else 3) if th else 3 if bi in (2, 5) and al == (bi == 5) else 2])
    out.append(["locator"])
    out.append(["errors"])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def vals(c, size, salt):
    n = c * size[0] * size[1] * size[2]
    return (((torch.arange(n, dtype=f64) + 31 * salt) * 0.618034) % 1).float().reshape((c,) + tuple(size)) + 0.1


class Model:
    """per-volume record"""

    def __init__(self, size, dens, feat, voxel, trans, align):
        self.size, self.dens, self.feat, self.voxel, self.trans, self.align = tuple(size), dens, feat, voxel, trans, align

    def with_values(self, dens, feat):
        return Model(self.size, dens, feat, self.voxel, self.trans, self.align)


def voxel_options(N):
    base = (torch.arange(3 * N, dtype=torch.float32).reshape(N, 3) * 0.37 + 0.5)
    yield 1.0, torch.ones(N, 3), "default"
    yield 0.25, torch.full((N, 3), 0.25), "float"
    yield 2, torch.full((N, 3), 2.0), "int"
    yield (0.5, 1.5, 2.0), torch.tensor([[0.5, 1.5, 2.0]]).repeat(N, 1), "tuple"
    yield torch.tensor([0.5, 1.5, 2.0]), torch.tensor([[0.5, 1.5, 2.0]]).repeat(N, 1), "(3,)"
    yield base, base, "(N,3)"
    yield base[:, :1].clone(), base[:, :1].repeat(1, 3), "(N,1)"
    yield torch.tensor([0.7]), torch.full((N, 3), 0.7), "(1,)"
    yield torch.tensor([[0.5, 0.6, 0.8]]), torch.tensor([[0.5, 0.6, 0.8]]).repeat(N, 1), "(1,3)"


def trans_options(N):
    base = (torch.arange(3 * N, dtype=torch.float32).reshape(N, 3) * 0.9 - 1.0)
    yield (0.0, 0.0, 0.0), torch.zeros(N, 3), "default"
    yield [1.0, -2.0, 0.5], torch.tensor([[1.0, -2.0, 0.5]]).repeat(N, 1), "list"
    yield torch.tensor([1.0, -2.0, 0.5]), torch.tensor([[1.0, -2.0, 0.5]]).repeat(N, 1), "(3,)"
    yield base, base, "(N,3)"
    yield torch.tensor([[1.0, -2.0, 0.5]]), torch.tensor([[1.0, -2.0, 0.5]]).repeat(N, 1), "(1,3)"


def local_grid(size, align):
    axes = []
    for r in size:  # z, y, x
        k = torch.arange(r, dtype=f64)
        if align:
            axes.append(-1 + 2 * k / (r - 1) if r > 1 else torch.full((1,), -1.0, dtype=f64))
        else:
            axes.append(-1 + (2 * k + 1) / r)
    Z, Y, X = torch.meshgrid(*axes, indexing="ij")
    return torch.stack([X, Y, Z], -1)


def to_world(m, p):
    s = torch.tensor([m.size[2], m.size[1], m.size[0]], dtype=f64)
    return p * (s - 1) * 0.5 * m.voxel.double() - m.trans.double()


PROBE = torch.tensor([[-1.0, -1, -1], [1, 1, 1], [0.3, -0.8, 0.55], [0, 0, 0], [1.7, -2.2, 0.1]], dtype=f64)


def check(v, models, tag, pad=None, rec=None):
    N = len(models)
    expect(len(v) == N and len(v.locator) == N, "%s: %d volumes, want %d" % (tag, len(v), N))
    if N == 0:
        return
    expect(v.get_grid_sizes().tolist() == [list(m.size) for m in models], lambda: "%s: grid sizes %s" % (tag, v.get_grid_sizes().tolist()))
    expect(v.get_align_corners() == models[0].align, tag + ": align_corners is lost")
    D = v.densities()
    P = tuple(D.shape[2:])
    expect(all(a >= b for m in models for a, b in zip(P, m.size)), tag + ": padded size")
    dl, fl = v.densities_list(), v.features_list()
    expect(len(dl) == N and (fl is None) == (models[0].feat is None), tag + ": lists")
    for i, m in enumerate(models):
        expect_close("%s: density of volume %d" % (tag, i), dl[i], m.dens, atol=0, rtol=0)
        d, h, w = m.size
        expect_close("%s: padded density of volume %d" % (tag, i), D[i, :, :d, :h, :w], m.dens, atol=0, rtol=0)
        if m.feat is not None:
            expect_close("%s: features of volume %d" % (tag, i), fl[i], m.feat, atol=0, rtol=0)
            expect_close("%s: padded features of volume %d" % (tag, i), v.features()[i, :, :d, :h, :w], m.feat, atol=0, rtol=0)
    gl, gw = v.get_coord_grid(world_coordinates=False), v.get_coord_grid()
    expect(tuple(gl.shape) == (N,) + P + (3,) and gw.shape == gl.shape, tag + ": shape of the coordinate grid")
    probe = PROBE.float()[None].repeat(N, 1, 1)
    pw = v.local_to_world_coords(probe)
    expect_close(tag + ": 4D points", v.local_to_world_coords(probe[:, :, None].contiguous()), pw[:, :, None], atol=1e-6)
    pt = v.get_local_to_world_coords_transform().transform_points(probe)
    for i, m in enumerate(models):
        d, h, w = m.size
        want = local_grid(m.size, m.align)
        expect_close("%s: local voxel centres of volume %d of size %s" % (tag, i, m.size), gl[i, :d, :h, :w], want, atol=1e-5)
        expect_close("%s: world voxel centres of volume %d of size %s" % (tag, i, m.size), gw[i, :d, :h, :w], to_world(m, want), atol=1e-4)
        expect_close("%s: local to world of volume %d" % (tag, i), pw[i], to_world(m, PROBE), atol=1e-4)
        expect_close("%s: local to world transform of volume %d" % (tag, i), pt[i], to_world(m, PROBE), atol=1e-4)
        # sampling at the reported centres gives back the values, as documented
        if min(m.size) > 1 or not m.align:
            s = torch.nn.functional.grid_sample(m.dens[None], gl[i:i + 1, :d, :h, :w], align_corners=m.align)
            expect_close("%s: sampling volume %d at its voxel centres" % (tag, i), s[0], m.dens, atol=1e-4)
    if all(min(m.size) > 1 for m in models):
        back = v.world_to_local_coords(pw)
        expect_close(tag + ": local - world - local", back, probe, atol=1e-4)
        expect_close(tag + ": world to local transform", v.get_world_to_local_coords_transform().transform_points(pw), probe, atol=1e-4)


def build(sizes, align, voxel=1.0, trans=(0.0, 0.0, 0.0), vmat=None, tmat=None, feats=True, salt=0, c=1):
    N = len(sizes)
    dens = [vals(c, s, k + salt) for k, s in enumerate(sizes)]
    fe = [vals(2, s, 50 + k + salt) for k, s in enumerate(sizes)] if feats else None
    if len({tuple(s) for s in sizes}) == 1 and salt % 2 == 0:
        v = Volumes(torch.stack(dens), torch.stack(fe) if feats else None, voxel_size=voxel, volume_translation=trans, align_corners=align)
    else:
        v = Volumes(densities=dens, features=fe, voxel_size=voxel, volume_translation=trans, align_corners=align)
    vmat = torch.ones(N, 3) if vmat is None else vmat
    tmat = torch.zeros(N, 3) if tmat is None else tmat
    return v, [Model(s, dens[i].clone(), fe[i].clone() if feats else None, vmat[i].clone(), tmat[i].clone(), align) for i, s in enumerate(sizes)]


def run_mapping(case, rec):
    sizes = [tuple(s) for s in case[1]]
    N = len(sizes)
    k = 0
    for align in (True, False):
        for vo, vm, vn in voxel_options(N):
            for to, tm, tn in trans_options(N):
                k += 1
                v, m = build(sizes, align, vo, to, vm, tm, feats=k % 3 > 0, salt=k % 2, c=1 + k % 2)
                check(v, m, "volumes of sizes %s align_corners=%s voxel size %s translation %s" % (sizes, align, vn, tn))
                rec.step()
    v, m = build(sizes, True)
    check(Volumes(densities=[x.dens for x in m]), [x.with_values(x.dens, None) for x in m], "volumes of sizes %s by default" % sizes)
    rec.trace()
    rec.state(case)


# ------------------------------------------------------------------ histories
def idx_op(f, name):
    def op(v, m, k):
        n = len(m)
        i = f(n)
        sel = list(range(n))
        if isinstance(i, int):
            if not -n <= i < n:
                return None
            return v[i], [m[i]]
        if isinstance(i, slice):
            r = m[i]
        elif torch.is_tensor(i) and i.dtype == torch.bool:
            r = [m[j] for j in sel if bool(i[j])]
        else:
            r = [m[int(j)] for j in i]
        if not r:
            return None
        return v[i], r
    op.__name__ = name
    return op


def op_clone(v, m, k):
    return v.clone(), m


def op_copy(v, m, k):
    c = v.to("cpu", copy=True)
    expect(c is not v, "to(copy=True) returns the same object")
    return c, m


def op_same(v, m, k):
    expect(v.to("cpu") is v and v.cpu() is v, "to() the same device")
    return v.cpu(), m


def op_clone_edit(v, m, k):
    """changing a clone must not show in the original (checked after every step)"""
    c = v.clone()
    c.densities().add_(7.0)
    if c.features() is not None:
        c.features().mul_(-3.0)
    c.get_grid_sizes().add_(1)
    c.get_local_to_world_coords_transform()._matrix.mul_(2.0)
    return v, m


def op_orig_edit(v, m, k):
    """changing the original must not show in the clone"""
    c = v.clone()
    keep = (v.densities().clone(), None if v.features() is None else v.features().clone(), v.get_grid_sizes().clone(),
            v.get_local_to_world_coords_transform()._matrix.clone())
    v.densities().add_(7.0)
    if v.features() is not None:
        v.features().mul_(-3.0)
    v.get_grid_sizes().add_(1)
    v.get_local_to_world_coords_transform()._matrix.mul_(2.0)
    check(c, m, "clone after editing the original")
    v.densities().copy_(keep[0])
    if keep[1] is not None:
        v.features().copy_(keep[1])
    v.get_grid_sizes().copy_(keep[2])
    v.get_local_to_world_coords_transform()._matrix.copy_(keep[3])
    return c, m


def pad_to(x, P):
    out = torch.full((len(x), x[0].shape[0]) + P, -9.0)
    for i, t in enumerate(x):
        out[i, :, :t.shape[1], :t.shape[2], :t.shape[3]] = t
    return out


def op_update(v, m, k):
    P = tuple(v.densities().shape[2:])
    nd = [vals(1, x.size, 200 + k + i) for i, x in enumerate(m)]
    nf = [vals(3, x.size, 300 + k + i) for i, x in enumerate(m)]
    u = v.update_padded(pad_to(nd, P), pad_to(nf, P))
    return u, [x.with_values(d, f) for x, d, f in zip(m, nd, nf)]


def op_update_nofeat(v, m, k):
    P = tuple(v.densities().shape[2:])
    nd = [vals(2, x.size, 400 + k + i) for i, x in enumerate(m)]
    return v.update_padded(pad_to(nd, P)), [x.with_values(d, None) for x, d in zip(m, nd)]


def op_set(v, m, k):
    """the setters on a clone, as used inside the library"""
    P = [max(x.size[j] for x in m) for j in range(3)]
    c = v.clone()
    if tuple(P) != tuple(v.densities().shape[2:]):
        return None
    nf = [vals(2, x.size, 500 + k + i) for i, x in enumerate(m)]
    c._set_features(nf)
    return c, [x.with_values(x.dens, f) for x, f in zip(m, nf)]


def op_transform(v, m, k):
    c = v.clone()
    n = len(m)
    vm, tm = torch.rand(n, 3, generator=torch.Generator().manual_seed(k)) + 0.5, torch.arange(3.0 * n).reshape(n, 3) * 0.3 - k
    c.locator._set_local_to_world_transform(voxel_size=vm, volume_translation=tm)
    return c, [Model(x.size, x.dens, x.feat, vm[i], tm[i], x.align) for i, x in enumerate(m)]


OPS = [
    idx_op(lambda n: 0, "[0]"), idx_op(lambda n: -1, "[-1]"), idx_op(lambda n: slice(1, None), "[1:]"), idx_op(lambda n: slice(None, None, 2), "[::2]"),
    idx_op(lambda n: list(range(n))[::-1], "[list reversed]"), idx_op(lambda n: (n - 1, 0), "[tuple]"),
    idx_op(lambda n: torch.arange(n) % 2 == 0, "[bool]"), idx_op(lambda n: torch.tensor([n - 1, n - 1]), "[long]"),
    op_clone, op_copy, op_same, op_clone_edit, op_orig_edit, op_update, op_update_nofeat, op_set, op_transform,
]


def start(bi, al):
    if bi == 0:
        return build([(2, 3, 2)], al, 0.5, (1.0, 2.0, 3.0), torch.full((1, 3), 0.5), torch.tensor([[1.0, 2.0, 3.0]]))
    if bi == 1:
        return build([(2, 2, 2), (3, 2, 4)], al, salt=1)
    if bi == 2:
        vm, tm = torch.rand(3, 3, generator=torch.Generator().manual_seed(1)) + 0.3, torch.arange(9.0).reshape(3, 3) - 4
        return build([(3, 2, 4), (2, 2, 2), (2, 3, 3)], al, vm, tm, vm, tm, salt=1)
    if bi == 3:
        vm = torch.tensor([[0.2], [1.1], [3.0]])
        return build([(2, 3, 2)] * 3, al, vm, (0.0, 1.0, 0.0), vm.repeat(1, 3), torch.tensor([[0.0, 1.0, 0.0]]).repeat(3, 1), feats=False)
    if bi == 4:
        return build([(1, 2, 3), (2, 1, 1)], al, salt=3, feats=True, c=2)
    tm = torch.tensor([[0.5, -1.0, 2.0]] * 2)
    v, m = build([(2, 2, 3)] * 2, al, (1.0, 2.0, 0.5), tm, torch.tensor([[1.0, 2.0, 0.5]] * 2), tm)
    # the result of a differentiable computation
    s = torch.ones((), requires_grad=True)
    v = Volumes(v.densities() * s, v.features() * s, voxel_size=(1.0, 2.0, 0.5), volume_translation=tm, align_corners=al)
    with torch.no_grad():
        check(v, m, "batch 5")
    return v, m


def run_history(case, rec):
    _, bi, al, first, depth = case
    for hist in itertools.chain([(first,)], itertools.product([first], range(len(OPS))), itertools.product([first], *[range(len(OPS))] * (depth - 1))):
        if bi == 5 and any(OPS[o] in (op_orig_edit,) for o in hist):
            continue
        names = [OPS[o].__name__ for o in hist]
        v, m = start(bi, al)
        objs = [(v, m)]
        ok = True
        with torch.no_grad():
            for k, o in enumerate(hist):
                r = OPS[o](objs[-1][0], objs[-1][1], k)
                if r is None:
                    ok = False
                    break
                objs.append(r)
                rec.step()
            if not ok:
                continue
            for j, (v, m) in enumerate(objs):
                if j in (0, len(objs) - 1) or len(hist) < 3:
                    check(v, m, "batch %d align_corners=%s after %s, object %d" % (bi, al, " ".join(names), j))
        rec.trace()
        rec.state([bi, al, hist])


def run_locator(case, rec):
    """the locator by itself: ways of giving the sizes"""
    for al in (True, False):
        for sizes in ([(2, 3, 4)] * 2, [(2, 3, 4), (3, 2, 2)], [(1, 3, 2), (2, 2, 2)]):
            forms = [torch.tensor(sizes), [list(s) for s in sizes], [torch.tensor(s) for s in sizes], tuple(tuple(s) for s in sizes)]
            if len(set(sizes)) == 1:
                forms.append(sizes[0])
                forms.append(list(sizes[0]))
            for f in forms:
                loc = VolumeLocator(batch_size=2, grid_sizes=f, device=torch.device("cpu"), voxel_size=(0.5, 1.0, 2.0), volume_translation=(1.0, 0.0, -1.0), align_corners=al)
                expect(loc.get_grid_sizes().tolist() == [list(s) for s in sizes], "VolumeLocator sizes from %s" % (f,))
                g = loc.get_coord_grid()
                for i, s in enumerate(sizes):
                    m = Model(s, None, None, torch.tensor([0.5, 1.0, 2.0]), torch.tensor([1.0, 0.0, -1.0]), al)
                    expect_close("VolumeLocator grid %s align_corners=%s" % (s, al), g[i, :s[0], :s[1], :s[2]], to_world(m, local_grid(s, al)), atol=1e-5)
                c = loc.clone()
                c.get_grid_sizes().add_(1)
                expect(loc.get_grid_sizes().tolist() == [list(s) for s in sizes], "VolumeLocator clone shares the sizes")
                rec.step()
    rec.trace()
    rec.state(case)


def run_errors(case, rec):
    d = torch.rand(2, 1, 2, 3, 2)
    v = Volumes(d, torch.rand(2, 3, 2, 3, 2))
    for fn, kinds in (
        (lambda: Volumes(torch.rand(2, 2, 2, 2)), ValueError), (lambda: Volumes([torch.rand(2, 2, 2)]), ValueError), (lambda: Volumes("a"), ValueError),
        (lambda: Volumes([torch.rand(1, 2, 2, 2), torch.rand(2, 2, 2, 2)]), ValueError), (lambda: Volumes(d, torch.rand(2, 3, 2, 2, 2)), ValueError),
        (lambda: Volumes(d, torch.rand(1, 3, 2, 3, 2)), ValueError), (lambda: Volumes(d, voxel_size=(1.0, 2.0)), ValueError),
        (lambda: Volumes(d, volume_translation=(1.0, 2.0)), ValueError), (lambda: Volumes(d, volume_translation=torch.rand(3, 3)), ValueError),
        (lambda: v[2], IndexError), (lambda: v[1.0], IndexError), (lambda: v["a"], IndexError), (lambda: v[torch.tensor([0.0])], IndexError),
        (lambda: v[torch.tensor([[0]])], IndexError), (lambda: v.update_padded(torch.rand(2, 1, 2, 3, 3)), ValueError),
        (lambda: v.update_padded(torch.rand(1, 1, 2, 3, 2)), ValueError), (lambda: v.update_padded(d, torch.rand(2, 1, 2, 3)), ValueError),
    ):
        try:
            fn()
        except kinds:
            rec.step()
            continue
        raise Violation("a wrong call of Volumes is accepted")
    rec.trace()
    rec.state(case)
