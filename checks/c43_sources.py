"""C43: the data sets and data set providers serve exactly the models, views, frames and splits that are on disk."""
import gzip
import itertools
import json
import math
import os
import shutil
import struct
import tempfile
import warnings
import zlib

import numpy as np
import torch
from mc.core import Violation, expect, expect_close

PROPERTY = "C43"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
BOUNDS = {
    "quick": "ShapeNetCore: every directory tree of 2 categories x up to 2 models x (complete, no object file, stray file) x every request of categories x 2 "
             "versions x 3 kinds of textures; every selection of models to render; R2N2: every split of 3 models x views of 1..3 x every selection of views; binvox: "
             "every occupancy of 2^3 voxels x run lengths, every truncated header; extrinsics and voxel projections on a lattice of angles and distances; single "
             "scenes: every assignment of 4 frames to 3 splits x known frames x masks; rendered meshes: 1..3 views x ranges x distances x lights; JSON providers: "
             "every labelling of 5 frames of 2 sequences with the subsets of a task x every switch; SQL provider: every labelling of 4 frames x 8 places of the lists x every switch; joins of maps: every pattern of missing sets",
    "thorough": "6 frames, 3 categories of models, 5 frames in single scenes, 3^3 voxels",
}
ASSUMPTIONS = [
    "annotation files are those C31 and C29 write; image files are C31's business",
    "R2N2 models have their rendering metadata (voxels without it cannot be aligned); voxel grids have extent along every axis",
    "every sequence of an evaluation batch of version 2 has frames in the training set if known frames are added",
]
warnings.filterwarnings("ignore")
f64 = torch.float64


def put(path, data, mode="w"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, mode) as f:
        f.write(data)


def png(path, rgb):
    """an RGBA png file written by hand; rgb (H, W, 3) bytes"""
    h, w = rgb.shape[:2]
    raw = b"".join(b"\0" + bytes(np.concatenate([rgb[r], np.full((w, 1), 200)], 1).astype(np.uint8).ravel().tolist()) for r in range(h))
    chunk = lambda t, d: struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    put(path, b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""), "wb")


# ---------------------------------------------------------------- models of ShapeNet
OFFSETS = {"airplane": "02691156", "basket": "02801938", "bench": "02828884", "car": "02958343"}


def model_obj(k, tex, size=1.0):
    """a tetrahedron of its own size; tex: none, plain (colour of a material) or image"""
    v = [(0, 0, 0), (1 + 0.1 * k, 0, 0), (0, 1 + 0.2 * k, 0), (0, 0, 1 + 0.3 * k)]
    v = [tuple(size * x for x in p) for p in v]
    s = "" if tex == "none" else "mtllib m.mtl\n"
    s += "".join("v %g %g %g\n" % p for p in v)
    if tex == "image":
        s += "vt 0.1 0.1\nvt 0.9 0.1\nvt 0.1 0.9\n"
    if tex != "none":
        s += "usemtl a\n"
    faces = [(1, 2, 3), (1, 2, 4), (1, 3, 4), (2, 3, 4)][: 2 + k % 3]
    s += "".join("f " + " ".join("%d/%d" % (i, j + 1) if tex == "image" else "%d" % i for j, i in enumerate(f)) + "\n" for f in faces)
    color = [0.25 * (k % 4) + 0.1, 0.5, 0.75]
    return s, torch.tensor(v, dtype=torch.float32), torch.tensor(faces) - 1, color


def write_model(folder, name, k, tex, size=1.0):
    s, v, f, color = model_obj(k, tex, size)
    path = os.path.join(folder, name)
    put(path, s)
    here = os.path.dirname(path)
    if tex == "plain":
        put(here + "/m.mtl", "newmtl a\nKd %g %g %g\n" % tuple(color))
    if tex == "image":
        put(here + "/m.mtl", "newmtl a\nmap_Kd t.png\n")
        png(here + "/t.png", np.broadcast_to(np.array([[[round(255 * c) for c in color]]]), (2, 2, 3)))
        color = [round(255 * c) / 255 for c in color]
    if tex == "none":
        color = [1.0, 1.0, 1.0]
    return v, f, color


def check_item(it, synset, model, label, data, load, res, what):
    v, f, color = data
    expect(it["synset_id"] == synset and it["model_id"] == model and it["label"] == label, lambda: "%s: item is %s %s %s" % (what, it["synset_id"], it["model_id"], it["label"]))
    expect_close(what + ": verts", it["verts"], v, 1e-6, 0)
    expect(torch.equal(it["faces"], f), what + ": faces")
    if load:
        expect_close(what + ": textures", it["textures"], torch.tensor(color).expand(len(f), res, res, 3), 1e-5, 0)
    else:
        expect(it["textures"] is None, what + ": textures")


def run_tree(case, rec, root):
    from pytorch3d.datasets import collate_batched_meshes, ShapeNetCore

    version, tex, load, res = case["version"], case["tex"], case["load"], case["res"]
    name = {1: "model.obj", 2: "models/model_normalized.obj"}[version]
    labels = case["labels"]
    n = 0
    # what a category holds: a tuple of entries, or missing altogether
    contents = [None, (), ("full",), ("empty",), ("full", "full"), ("full", "empty"), ("empty", "full"), ("full", "file")]
    for combo in itertools.product(contents, repeat=len(labels)):
        n += 1
        d = root + "/t%d" % n
        os.makedirs(d + "/not_a_category")
        put(d + "/README", "x")
        want = {}
        for label, c in zip(labels, combo):
            if c is None:
                continue
            folder = d + "/" + OFFSETS[label]
            os.makedirs(folder)
            want[label] = {}
            for i, kind in enumerate(c):
                m = "m%s%d" % (label[:2], i)
                if kind == "full":
                    want[label][m] = write_model(folder + "/" + m, name, i + 2 * labels.index(label), tex)
                elif kind == "empty":
                    os.makedirs(folder + "/" + m)
                else:
                    put(folder + "/" + m, "x")
        requests = [None] + [list(p) for r in range(len(labels) + 1) for p in itertools.permutations(labels, r)] + [[labels[0], OFFSETS[labels[0]]], ["no such thing", labels[-1]]]
        for request in requests:
            for ids in (False, True):
                if request is None and ids:
                    continue
                ask = request if not ids else [OFFSETS.get(r, r) for r in request]
                what = "ShapeNetCore of %s, synsets %s" % (dict(zip(labels, combo)), ask)
                ds = ShapeNetCore(d, synsets=ask, version=version, load_textures=load, texture_resolution=res)
                rec.step()
                cats = set(want) if request is None else {l for l in want if l in request}
                pairs = sorted((OFFSETS[l], m) for l in cats for m in want[l])
                got = list(zip(ds.synset_ids, ds.model_ids))
                expect(len(ds) == len(pairs) and sorted(got) == pairs, lambda: "%s: models %s, want %s" % (what, got, pairs))
                expect(ds.synset_inv == {l: OFFSETS[l] for l in cats}, lambda: "%s: synset_inv %s" % (what, ds.synset_inv))
                expect(set(ds.synset_num_models) == {OFFSETS[l] for l in cats} == set(ds.synset_start_idxs), what + ": categories")
                for l in cats:
                    s, k = ds.synset_start_idxs[OFFSETS[l]], ds.synset_num_models[OFFSETS[l]]
                    expect({m for c, m in got[s: s + k]} == set(want[l]) and k == len(want[l]) and all(c == OFFSETS[l] for c, m in got[s: s + k]),
                           lambda: "%s: category %s is said to be at %d..%d of %s" % (what, l, s, s + k, got))
                if request is None or not ids:
                    items = []
                    for i, (c, m) in enumerate(got):
                        l = [x for x in labels if OFFSETS[x] == c][0]
                        items.append(ds[i])
                        check_item(items[-1], c, m, l, want[l][m], load, res, "%s, item %d" % (what, i))
                    for r in range(len(items) + 1) if request is None else ():
                        for sel in itertools.permutations(range(len(items)), r):
                            batch = collate_batched_meshes([items[i] for i in sel])
                            if not sel:
                                expect(batch is None, what + ": empty batch")
                                continue
                            expect(batch["model_id"] == [items[i]["model_id"] for i in sel] and batch["label"] == [items[i]["label"] for i in sel], what + ": collated ids")
                            mesh = batch["mesh"]
                            expect(len(mesh) == r and all(torch.equal(a, items[i]["verts"]) and torch.equal(b, items[i]["faces"]) for a, b, i in
                                                          zip(mesh.verts_list(), mesh.faces_list(), sel)), what + ": collated meshes")
                            expect((mesh.textures is not None) == load, what + ": collated textures")
                            if load:
                                expect(all(torch.equal(a, items[i]["textures"]) for a, i in zip(mesh.textures.atlas_list(), sel)), what + ": collated atlas")
                rec.state((version, tex, load, combo, tuple(ask) if ask is not None else None))
        rec.trace()
    for bad in (0, 3):
        expect(raises(ValueError, lambda: ShapeNetCore(root, version=bad)), "version %d: not refused" % bad)


def raises(exc, fn):
    try:
        fn()
    except exc:
        return True
    return False


def run_select(case, rec, root):
    """which models are rendered, by which cameras"""
    from pytorch3d.datasets import ShapeNetCore
    from pytorch3d.renderer import AmbientLights, FoVPerspectiveCameras, HardFlatShader, HardPhongShader, look_at_view_transform, RasterizationSettings

    load = case["load"]
    labels, members = ("airplane", "basket"), {"airplane": 2, "basket": 1}
    k = 0
    for l in labels:
        for i in range(members[l]):
            write_model("%s/%s/m%d" % (root, OFFSETS[l], k), "model.obj", k, "plain")
            k += 1
    ds = ShapeNetCore(root, load_textures=load)
    settings = RasterizationSettings(image_size=8)
    eyes = [look_at_view_transform(2.5, 20.0, 40.0), look_at_view_transform(3.5, 50.0, 100.0), look_at_view_transform(3, -20.0, 220.0)]
    lights = AmbientLights()

    def cam(sel):
        return FoVPerspectiveCameras(R=torch.cat([eyes[i][0] for i in sel]), T=torch.cat([eyes[i][1] for i in sel]))

    ref = {}
    for i in range(3):
        for e in range(3):
            ref[ds.model_ids[i], e] = ds.render(idxs=[i], cameras=cam([e]), raster_settings=settings, lights=lights, shader_type=HardFlatShader)[0]
    keys = list(ref)
    expect(all((ref[a] - ref[b]).abs().max() > 0.01 for a, b in itertools.combinations(keys, 2)), "the scenes should differ")

    def named(images, models, cams, what):
        expect(len(images) == len(models), lambda: "%s: %d images" % (what, len(images)))
        for j, (m, e) in enumerate(zip(models, cams)):
            expect_close("%s: image %d, model %s by camera %d" % (what, j, m, e), images[j], ref[m, e], 1e-6, 0)

    kw = dict(raster_settings=settings, lights=lights, shader_type=HardFlatShader)
    for r in (1, 2, 3):
        for sel in itertools.product(range(3), repeat=r):
            ms = [ds.model_ids[i] for i in sel]
            named(ds.render(idxs=list(sel), cameras=cam([1]), **kw), ms, [1] * r, "idxs %s" % (sel,))
            named(ds.render(model_ids=ms, cameras=cam([2]), **kw), ms, [2] * r, "model ids %s" % ms)
            named(ds.render(model_ids=ms, categories=["basket"], idxs=[0], cameras=cam([2]), **kw), ms, [2] * r, "model ids first %s" % ms)
            cs = [(j + sel[0]) % 3 for j in range(r)]
            if r > 1:
                named(ds.render(idxs=list(sel), cameras=cam(cs), **kw), ms, cs, "idxs %s, one camera each" % (sel,))
            cs = [(j + sel[0]) % 3 for j in range(2 * r)]
            named(ds.render(idxs=list(sel), cameras=cam(cs), **kw), [m for m in ms for _ in range(2)], cs, "idxs %s, two cameras each" % (sel,))
            rec.step(5)
            if r == 2:
                expect(raises(ValueError, lambda: ds.render(idxs=list(sel), cameras=cam([0, 1, 2]), **kw)), "3 cameras for 2 models")
            rec.state(("sel", sel))
    expect(raises(ValueError, lambda: ds.render(model_ids=["m0", "zz"], **kw)), "unknown model")
    expect(raises(ValueError, lambda: ds.render(categories=["car"], **kw)), "category not loaded")
    expect(raises(ValueError, lambda: ds.render(categories=["airplane"], sample_nums=[1, 2], **kw)), "numbers of samples")
    for bad in ([3], [0, -1]):
        expect(raises(IndexError, lambda: ds.render(idxs=bad, **kw)), "index %s" % bad)
    of = {l: {m for c, m in zip(ds.synset_ids, ds.model_ids) if c == OFFSETS[l]} for l in labels}

    def which(images, e):
        out = []
        for im in images:
            hit = [m for m in ds.model_ids if (ref[m, e] - im).abs().max() < 1e-5]
            expect(len(hit) == 1, "rendered something else")
            out.append(hit[0])
        return out

    for seed in range(case["seeds"]):
        torch.manual_seed(seed)
        for cats in (["airplane"], ["basket"], ["airplane", "basket"], ["basket", "airplane"], [OFFSETS["basket"], "airplane"]):
            for nums in (None, [1], [2], [3], [1, 2], [2, 1], [2, 2]):
                if nums and len(nums) not in (1, len(cats)):
                    continue
                got = which(ds.render(categories=cats, sample_nums=nums, cameras=cam([0]), **kw), 0)
                each = [1] * len(cats) if nums is None else nums if len(nums) == len(cats) else nums * len(cats)
                expect(len(got) == sum(each), lambda: "categories %s x %s: %s" % (cats, nums, got))
                p = 0
                for c, q in zip(cats, each):
                    pool = of[c] if c in of else of["basket"]
                    part = got[p: p + q]
                    p += q
                    expect(set(part) <= pool and (q > len(pool) or len(set(part)) == q), lambda: "categories %s x %s: %s from category %s" % (cats, nums, part, c))
                rec.state(("cat", seed, tuple(cats), tuple(nums or ())))
        for nums in (None, [1], [2], [3], [5]):
            got = which(ds.render(sample_nums=nums, cameras=cam([0]), **kw), 0)
            q = (nums or [1])[0]
            expect(len(got) == q and (q > 3 or len(set(got)) == q), lambda: "%s random models: %s" % (q, got))
            rec.step()
    rec.trace()


# ---------------------------------------------------------------- R2N2
def eye_of(azim, elev, dist):
    a, e = math.radians(azim), math.radians(elev)
    return dist * torch.tensor([math.cos(a) * math.cos(e), math.sin(e), math.sin(a) * math.cos(e)], dtype=f64)


def look(azim, elev, dist):
    """left, up and forward of a camera which looks at the origin, and its centre"""
    c = eye_of(azim, elev, dist)
    f = -c / c.norm()
    up = torch.tensor([0.0, 1, 0], dtype=f64)
    up = up - (up @ f) * f
    up = up / up.norm()
    return torch.linalg.cross(up, f), up, f, c


def runs(bits, cut):
    """binvox run lengths, cut into pieces of at most `cut`"""
    out = b""
    for v, g in itertools.groupby(bits):
        k = len(list(g))
        while k:
            out += bytes([v, min(k, cut)])
            k -= min(k, cut)
    return out


def binvox(size, bits, cut=255, translate=(0.5, -1, 2), scale=1.5):
    return b"#binvox 1\ndim %d %d %d\n" % (size, size, size) + b"translate %g %g %g\nscale %g\ndata\n" % (translate + (scale,)) + runs(bits, cut)


def run_binvox(case, rec, root):
    import io as _io
    from pytorch3d.datasets.r2n2.utils import align_bbox, read_binvox_coords

    size, cut = case["size"], case["cut"]
    n = size ** 3
    if n <= 8:
        patterns = itertools.product((0, 1), repeat=n)
    else:  # all unions of two intervals
        ends = list(itertools.combinations(range(n + 1), 2))
        patterns = ([1 if a <= i < b or c <= i < d else 0 for i in range(n)] for a, b in ends[:: case["step"]] for c, d in ends[:: case["step"]])
    for bits in patterns:
        bits = list(bits)
        if not any(bits):
            continue
        for dtype in (torch.float32, torch.int64):
            got = read_binvox_coords(_io.BytesIO(binvox(size, bits, cut)), dtype=dtype)
            want = [(i // (size * size), i % size, i % (size * size) // size) for i in range(n) if bits[i]]
            expect(got.dtype == dtype and sorted(map(tuple, got.tolist())) == sorted(want), lambda: "binvox %s, runs of %d: %s, want %s" % (bits, cut, got.tolist(), want))
        rec.step()
        src = got.float()
        if all(src[:, i].max() > src[:, i].min() for i in range(3)):
            tgt = torch.tensor([[-1.0, 0, 2], [0.5, 3, 2.5], [1, 0.25, 2.25]])
            out = align_bbox(src, tgt)
            lo, hi = src.double().min(0).values, src.double().max(0).values
            a, b = tgt.double().min(0).values, tgt.double().max(0).values
            expect_close("aligned boxes", out, a + (src.double() - lo) / (hi - lo) * (b - a), 1e-5, 1e-5)
    rec.state(("binvox", size, cut))
    good = binvox(size, [1] * n, cut)
    head = good.split(b"\n")[:5]
    for k in range(5):
        for bad in (b"", b"x", head[k] + b" 1", head[k].replace(b" ", b"_", 1), head[k].replace(b"i", b"j")):
            if bad == head[k] or (k == 3 and bad == head[k]):
                continue
            data = b"\n".join(head[:k] + [bad] + head[k + 1:]) + b"\n" + runs([1] * n, cut)
            expect(raises(ValueError, lambda: read_binvox_coords(_io.BytesIO(data))), lambda: "header line %d is %r: not refused" % (k + 1, bad))
        data = b"\n".join(head[:k])
        expect(raises(ValueError, lambda: read_binvox_coords(_io.BytesIO(data))), "header cut at line %d: not refused" % (k + 1))
        rec.step()
    expect(raises(ValueError, lambda: read_binvox_coords(_io.BytesIO(good.replace(b"dim %d" % size, b"dim %d" % (size + 1))))), "box with different sides: not refused")
    rec.trace()


def run_extrinsic(case, rec, root):
    from pytorch3d.datasets import BlenderCamera
    from pytorch3d.datasets.r2n2.utils import compute_extrinsic_matrix, project_verts, voxelize

    grid = torch.tensor(list(itertools.product((-0.3, -0.1, 0.0, 0.2), repeat=3)))
    V = case["V"]
    for azim, elev, dist in itertools.product((0, 30, 90, 135, 200.5, 300), (-20, 0, 25.5, 60), (0.7, 0.8, 1.5)):
        what = "azimuth %g, elevation %g, distance %g" % (azim, elev, dist)
        left, up, f, c = look(azim, elev, dist)
        RT = compute_extrinsic_matrix(azim, elev, dist)
        p = grid.double()
        h = torch.cat([p, torch.ones(len(p), 1)], 1)
        got = (h @ RT.double().T)[:, :3]
        x, y, depth = (p - c) @ left, (p - c) @ up, (p - c) @ f
        expect_close(what + ": camera coordinates", got, torch.stack([-x, y, -depth], 1), 1e-5, 1e-5)
        P = torch.tensor([[2.1875, 0.0, 0.0, 0.0], [0.0, 2.1875, 0.0, 0.0], [0.0, 0.0, -1.002002, -0.2002002], [0.0, 0.0, -1.0, 0.0]]).mm(RT)
        ok = depth > 0.1
        w = torch.stack([-2.1875 * x / depth, 2.1875 * y / depth, (1.002002 * depth - 0.2002002) / depth], 1)
        expect_close(what + ": projections", project_verts(grid, P)[ok], w[ok], 1e-4, 1e-4)
        both = project_verts(torch.stack([grid, grid + 0.01]), torch.stack([P, P]))
        expect_close(what + ": batch of projections", both[0][ok], w[ok], 1e-4, 1e-4)
        # one voxel per point
        for i in range(len(p)):
            if not ok[i]:
                continue
            q = torch.tensor([2.1875 * x[i] / depth[i], w[i, 1], 2 * (w[i, 2] - 0.67) / 0.25 - 1])
            cell = 0.5 * (V - 1) * (q.double() + 1)
            if (cell - cell.floor() - 0.5).abs().min() < 1e-3:
                rec.count("between two voxels")
                continue
            cell = cell.round().long()
            inside = bool(((cell >= 0) & (cell < V)).all())
            keep = grid[i: i + 1].clone()
            vox = voxelize(keep, P, V)
            expect(torch.equal(keep, grid[i: i + 1]), what + ": voxelize changes its input")
            on = vox.nonzero().tolist()
            expect(tuple(vox.shape) == (V, V, V) and on == ([[cell[2].item(), cell[1].item(), cell[0].item()]] if inside else []),
                   lambda: "%s: point %s is in voxels %s, want %s" % (what, grid[i].tolist(), on, cell.tolist()))
            rec.step()
        al = voxelize(grid.clone(), P, V)
        one = torch.zeros_like(al)
        for i in range(len(p)):
            one |= voxelize(grid[i: i + 1].clone(), P, V)
        expect(torch.equal(al, one), what + ": voxels of all points")
        rec.state((azim, elev, dist))
        # a camera of the library with this matrix
        Rm = torch.stack([left, up, f], 1).float()[None]
        Tm = -(Rm[0].T @ c.float())[None]
        K = torch.tensor([[[2.1875, 0, 0, 0], [0, 2.1875, 0, 0], [0, 0, -1.002002, -0.2002002], [0, 0, 1, 0]]])
        cam = BlenderCamera(R=Rm, T=Tm, K=K)
        got = cam.transform_points(grid)
        expect_close(what + ": BlenderCamera", got[ok][:, :2], torch.stack([2.1875 * x / depth, 2.1875 * y / depth], 1)[ok], 1e-4, 1e-4)
    rec.trace()


def run_r2n2(case, rec, root):
    from pytorch3d.datasets import BlenderCamera, collate_batched_R2N2, R2N2
    from pytorch3d.renderer import AmbientLights, HardFlatShader, RasterizationSettings

    views, have, load, voxels = case["views"], case["have"], case["load"], case["voxels"]
    # airplane holds m0 and m1, bench m2; views[i] are those in the split, have[i] whether the model is on disk
    where = ["airplane", "airplane", "bench"]
    sn, rn = root + "/sn", root + "/rn"
    split = {OFFSETS["airplane"]: {}, OFFSETS["bench"]: {}, "99999999": {"zz": [0]}}
    data, meta = {}, {}
    for i in range(3):
        m, syn = "m%d" % i, OFFSETS[where[i]]
        split[syn][m] = list(views[i])
        if have[i]:
            data[m] = write_model("%s/%s/%s" % (sn, syn, m), "model.obj", i, "plain", 0.25)
        folder = "%s/ShapeNetRendering/%s/%s/rendering" % (rn, syn, m)
        meta[m] = [(40.0 * v + 70 * i, 10.0 * v + i, 0.0, 0.6 + 0.1 * v, 25.0) for v in range(4)]
        put(folder + "/rendering_metadata.txt", "".join("%g %g %g %g %g\n" % t for t in meta[m]))
        for v in range(4):
            png(folder + "/%02d.png" % v, np.full((3, 4, 3), 10 * v + i) + np.arange(12).reshape(3, 4, 1) * np.array([1, 5, 9]))
        if voxels:
            bits = [1 if (a, b, c) != (1, 1, i % 2) else 0 for a in range(2) for c in range(2) for b in range(2)]
            put("%s/ShapeNetVoxels/%s/%s/model.binvox" % (rn, syn, m), binvox(2, bits), "wb")
    os.makedirs(sn, exist_ok=True)
    put(root + "/split.json", json.dumps({"train": split, "val": {}, "test": {OFFSETS["bench"]: {"m2": [1]}}}))
    present = [i for i in range(3) if have[i]]
    import contextlib, io as _io

    def make(**kw):
        with contextlib.redirect_stdout(_io.StringIO()):
            return R2N2("train", sn, rn, root + "/split.json", load_textures=load, texture_resolution=2, return_voxels=voxels, **kw)

    expect(raises(ValueError, lambda: R2N2("all", sn, rn, root + "/split.json")), "unknown split")
    for everything in (True, False):
        torch.manual_seed(sum(have))
        ds = make(return_all_views=everything)
        what = "R2N2 of views %s, on disk %s, all views %s" % (views, have, everything)
        got = list(zip(ds.synset_ids, ds.model_ids))
        expect(got == [(OFFSETS[where[i]], "m%d" % i) for i in present], lambda: "%s: models %s" % (what, got))
        dirs = {where[i] for i in present}
        expect(set(ds.synset_inv) == dirs, lambda: "%s: categories %s" % (what, ds.synset_inv))
        loaded = [list(v) for v in ds.views_per_model_list]
        for j, i in enumerate(present):
            expect(loaded[j] == list(views[i]) if everything else len(loaded[j]) == 1 and loaded[j][0] in views[i], lambda: "%s: views %s" % (what, loaded))

        def check(it, i, vs, tag):
            m = "m%d" % i
            check_item(it, OFFSETS[where[i]], m, where[i], data[m], load, 2, tag)
            expect(tuple(it["images"].shape) == (len(vs), 3, 4, 3) and tuple(it["K"].shape) == (len(vs), 4, 4), lambda: "%s: shapes %s" % (tag, it["images"].shape))
            cams = BlenderCamera(R=it["R"], T=it["T"], K=it["K"])
            pts = torch.tensor([[0.0, 0, 0], [0.2, 0.1, -0.3], [-0.1, 0.3, 0.25]])
            xy = cams.transform_points(pts.expand(len(vs), 3, 3))
            zz = cams.get_world_to_view_transform().transform_points(pts.expand(len(vs), 3, 3))[..., 2]
            for q, v in enumerate(vs):
                img = np.full((3, 4, 3), 10 * v + i) + np.arange(12).reshape(3, 4, 1) * np.array([1, 5, 9])
                expect_close(tag + ": image of view %d" % v, it["images"][q], torch.from_numpy(img / 255.0).float(), 1e-5, 0)
                az, el, _, ratio, _ = meta[m][v]
                left, up, f, c = look(az, el, ratio * 1.75)
                p = pts.double() - c
                depth = p @ f
                expect_close(tag + ": points seen by view %d" % v, xy[q, :, :2], torch.stack([2.1875 * (p @ left) / depth, 2.1875 * (p @ up) / depth], 1), 1e-4, 1e-4)
                expect_close(tag + ": depths seen by view %d" % v, zz[q], depth, 1e-4, 1e-4)
            if voxels:
                expect(tuple(it["voxels"].shape) == (len(vs), 128, 128, 128), lambda: "%s: voxels %s" % (tag, it["voxels"].shape))
                bits = [(a, b, c) for a in range(2) for b in range(2) for c in range(2) if (a, b, c) != (1, 1, i % 2)]
                src = torch.tensor(bits, dtype=f64)
                lo, hi = data[m][0].double().min(0).values, data[m][0].double().max(0).values
                pos = lo + src * (hi - lo)
                for q, v in enumerate(vs):
                    az, el, _, ratio, _ = meta[m][v]
                    left, up, f, c = look(az, el, ratio * 1.75)
                    p = pos - c
                    depth = p @ f
                    z = (1.002002 * depth - 0.2002002) / depth
                    cell = 0.5 * 127 * (torch.stack([2.1875 * (p @ left) / depth, 2.1875 * (p @ up) / depth, 2 * (z - 0.67) / 0.25 - 1], 1) + 1)
                    sure = ((cell - cell.floor() - 0.5).abs() > 1e-2).all(1) & (depth > 0.1)
                    cell = cell.round().long()
                    ins = ((cell >= 0) & (cell < 128)).all(1)
                    vox = it["voxels"][q]
                    expect(bool((depth > 0.1).all()), "the scene should be in front of the camera")
                    for u in range(len(cell)):
                        if sure[u] and ins[u]:
                            expect(vox[cell[u, 2], cell[u, 1], cell[u, 0]] == 1, lambda: "%s: voxel %s of view %d is off" % (tag, cell[u].tolist(), v))
                    most = len({tuple(u) for u in cell[ins].tolist()})
                    expect(int(vox.sum()) <= most + int((~sure).sum()), lambda: "%s: %d voxels of view %d, want %d" % (tag, int(vox.sum()), v, most))
            else:
                expect("voxels" not in it, tag + ": voxels")

        items = {}
        for j, i in enumerate(present):
            items[i] = ds[j]
            check(items[i], i, loaded[j], "%s, item %d" % (what, j))
            rec.step()
            for r in (1, 2):
                for vs in itertools.permutations(range(4), r):
                    good = all(v in loaded[j] for v in vs)
                    if voxels and (r == 2 or not good):
                        continue
                    for form in ("list", "tensor") + (("int",) if r == 1 else ()):
                        if voxels and form == "tensor":
                            continue
                        ask = {"list": list(vs), "tensor": torch.tensor(vs), "int": vs[0]}[form]
                        check(ds[j, ask], i, list(vs) if good else loaded[j], "%s, item %d, views %s" % (what, j, ask))
                        rec.step()
        expect(not present or raises(TypeError, lambda: ds[0, "a"]), what + ": a string of views")
        for r in range(1, len(present) + 1):
            for sel in itertools.permutations(present, r):
                with contextlib.redirect_stdout(_io.StringIO()):
                    batch = collate_batched_R2N2([items[i] for i in sel])
                same = len({len(items[i]["R"]) for i in sel}) == 1
                for key in ("images", "R", "T", "K") + (("voxels",) if voxels else ()):
                    g = batch[key]
                    expect(torch.is_tensor(g) == same and len(g) == r and all(torch.equal(g[q], items[i][key]) for q, i in enumerate(sel)), lambda: "%s: collated %s of models %s" % (what, key, sel))
                expect(batch["model_id"] == ["m%d" % i for i in sel] and len(batch["mesh"]) == r, what + ": collated")
        if not load and present:
            continue
        kw = dict(raster_settings=RasterizationSettings(image_size=6), lights=AmbientLights(), shader_type=HardFlatShader)
        if present and not voxels:
            singles = {}
            for j, i in enumerate(present):
                for q, v in enumerate(loaded[j]):
                    it = items[i]
                    singles[i, v] = ds.render(idxs=[j], view_idxs=[v], cameras=BlenderCamera(R=it["R"][q: q + 1], T=it["T"][q: q + 1], K=it["K"][q: q + 1]), **kw)[0]
            for j, i in enumerate(present):
                got = ds.render(model_ids=["m%d" % i], **kw)
                expect(len(got) == len(loaded[j]), what + ": renders")
                for q, v in enumerate(loaded[j]):
                    expect_close("%s: model %d by view %d" % (what, i, v), got[q], singles[i, v], 1e-5, 0)
                got = ds.render(idxs=[j], view_idxs=[loaded[j][-1]], **kw)
                expect_close("%s: model %d by its last view" % (what, i), got, singles[i, loaded[j][-1]][None], 1e-5, 0)
            if len({len(v) for v in loaded}) == 1:
                got = ds.render(idxs=list(range(len(present))), **kw)
                want = [singles[i, v] for j, i in enumerate(present) for v in loaded[j]]
                expect(len(got) == len(want), what + ": renders of all models")
                expect_close(what + ": renders of all models", got, torch.stack(want), 1e-5, 0)
        rec.state((tuple(map(tuple, views)), tuple(have), everything))
    rec.trace()


# ---------------------------------------------------------------- one scene
def run_single(case, rec, root):
    from pytorch3d.implicitron.dataset.single_sequence_dataset import SingleSceneDatasetMapProviderBase
    from pytorch3d.implicitron.tools.config import expand_args_fields
    from pytorch3d.renderer import PerspectiveCameras
    from torch.utils.data import DataLoader

    n = case["n"]
    images = torch.arange(n * 3 * 2 * 4, dtype=torch.float32).reshape(n, 3, 2, 4)
    fg = torch.arange(n * 8, dtype=torch.float32).reshape(n, 1, 2, 4) + 1000
    poses = [PerspectiveCameras(focal_length=float(i + 1), T=torch.tensor([[float(i), 0, 0]])) for i in range(n)]

    class Provider(SingleSceneDatasetMapProviderBase):
        def _load_data(self):
            self.poses = poses
            self.images = images
            self.fg_probabilities = fg if case["fg"] else None
            self.i_split = splits

    expand_args_fields(Provider)
    for assign in itertools.product(range(3), repeat=n):
        if assign[0] != case["first"] or 0 not in assign:
            continue
        splits = [np.array([i for i in reversed(range(n)) if assign[i] == s], dtype=int) for s in range(3)]
        batches = {}
        for known in (None, 0, 1, 2, 5):
            what = "frames in splits %s, %s known frames" % (assign, known)
            p = Provider(base_dir="x", object_name="thing", n_known_frames_for_test=known)
            dm = p.get_dataset_map()
            expect([i for i in splits[0]] == [int(c) - 1 for c in p.get_all_train_cameras().focal_length[:, 0]], what + ": train cameras")
            for k, (name, ds) in enumerate((("train", dm.train), ("val", dm.val), ("test", dm.test))):
                tag = "%s, %s" % (what, name)
                want = [(i, "known" if k == 0 else "unseen") for i in splits[k]] + ([(i, "known") for i in splits[0]] if k and known is not None else [])
                expect(len(ds) == len(want), lambda: "%s: %d frames, want %d" % (tag, len(ds), len(want)))
                rec.step()
                for j, (i, kind) in enumerate(want):
                    fd = ds[j]
                    expect(torch.equal(fd.image_rgb, images[i]), tag + ": image %d" % j)
                    expect((fd.fg_probability is None) if not case["fg"] else torch.equal(fd.fg_probability, fg[i]), tag + ": mask %d" % j)
                    expect(fd.camera.focal_length[0, 0] == i + 1, tag + ": camera %d" % j)
                    expect(fd.frame_type == kind and fd.frame_number == j and fd.sequence_category == "thing" and fd.image_size_hw.tolist() == [2, 4] and
                           fd.sequence_name == list(ds.sequence_names())[0], lambda: "%s: frame %d is a %s frame" % (tag, j, fd.frame_type))
                expect(raises(IndexError, lambda: ds[len(want)]), tag + ": index out of range")
                for sub in (None, ["known"], ["unseen"], ["known", "unseen"], []):
                    got = [idx for _, _, idx in ds.sequence_frames_in_order("one_sequence", sub)]
                    expect(got == [j for j, (i, kind) in enumerate(want) if sub is None or kind in sub], lambda: "%s: frames of %s: %s" % (tag, sub, got))
                    expect(got == list(ds.sequence_indices_in_order("one_sequence", sub)), tag + ": indices in order")
                if want:
                    expect(ds.category_to_sequence_names() == {"thing": list(ds.sequence_names())}, tag + ": categories")
                    loaded = list(DataLoader(ds, batch_size=2, collate_fn=ds.frame_data_type.collate))
                    expect(torch.equal(torch.cat([b.image_rgb for b in loaded]), images[[i for i, _ in want]]), tag + ": loader")
                eb = ds.get_eval_batches()
                if k < 2:
                    expect(eb is None, tag + ": eval batches")
                    continue
                expect(len(eb) == len(splits[2]), tag + ": eval batches")
                for j, b in enumerate(eb):
                    extra = b[1:]
                    m = 0 if known is None else min(known, len(splits[0]))
                    expect(b[0] == j and len(extra) == m == len(set(extra)) and all(len(splits[2]) <= e < len(want) for e in extra), lambda: "%s: eval batches %s" % (tag, eb))
                batches[known] = eb
                again = Provider(base_dir="x", object_name="thing", n_known_frames_for_test=known).get_dataset_map().test.get_eval_batches()
                expect(again == eb, tag + ": eval batches differ when loaded again")
                if known:
                    expect(all(b[: len(a)] == a for a, b in zip(batches[known - 1 if known < 5 else 2], eb)), tag + ": eval batches depend on the number of known frames")
            rec.state((assign, known))
    rec.trace()


def run_mesh(case, rec, root):
    from pytorch3d.implicitron.dataset.data_source import ImplicitronDataSource
    from pytorch3d.implicitron.dataset.rendered_mesh_dataset_map_provider import RenderedMeshDatasetMapProvider
    from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args
    from pytorch3d.renderer import HardPhongShader, MeshRasterizer, MeshRenderer, PointLights, RasterizationSettings
    from pytorch3d.renderer.blending import BlendParams
    from pytorch3d.structures import Meshes
    from pytorch3d.renderer import TexturesVertex

    verts = torch.tensor([[3.0, 1, 2], [5, 1.5, 2], [3.5, 4, 2.5], [4, 2, 5]])
    faces = torch.tensor([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
    color = (0.2, 0.4, 0.8)
    if case["file"] == "ply":
        path = root + "/m.ply"
        put(path, "ply\nformat ascii 1.0\nelement vertex 4\nproperty float x\nproperty float y\nproperty float z\nproperty uchar red\nproperty uchar green\nproperty uchar blue\n"
            "element face 4\nproperty list uchar int vertex_indices\nend_header\n" + "".join("%g %g %g 51 102 204\n" % tuple(v.tolist()) for v in verts) + "".join("3 %d %d %d\n" % tuple(f.tolist()) for f in faces))
    else:
        path = root + "/m.obj"
        put(path, "mtllib m.mtl\n" + "".join("v %g %g %g\n" % tuple(v.tolist()) for v in verts) + "vt 0.1 0.1\nvt 0.9 0.1\nvt 0.1 0.9\nusemtl a\n" + "".join("f %d/1 %d/2 %d/3\n" % tuple((f + 1).tolist()) for f in faces))
        put(root + "/m.mtl", "newmtl a\nmap_Kd t.png\n")
        png(root + "/t.png", np.broadcast_to(np.array([[[51, 102, 204]]]), (2, 2, 3)))
    expand_args_fields(RenderedMeshDatasetMapProvider)
    centred = verts.double() - verts.double().mean(0)
    centred = centred / centred.abs().max()
    for views, rng, dist, res, point in itertools.product((1, 2, 3), (180, 60), (2.7, 4.0), (7, 10), (True, False)):
        what = "rendered %s: %d views within %g, distance %g, %d pixels, point light %s" % (case["file"], views, rng, dist, res, point)
        kw = dict(num_views=views, data_file=path, azimuth_range=rng, distance=dist, resolution=res, use_point_light=point)
        p = RenderedMeshDatasetMapProvider(**kw)
        dm = p.get_dataset_map()
        expect(dm.val is None and dm.test is None and len(dm.train) == views, what + ": data sets")
        cams = p.get_all_train_cameras()
        expect(len(cams) == views, what + ": train cameras")
        for k in range(views):
            az = math.radians((-rng + (2.0 * rng * k / (views - 1) if views > 1 else 0.0)) + 180)
            c = dist * torch.tensor([math.sin(az), 0, math.cos(az)], dtype=f64)
            f = -c / c.norm()
            up = torch.tensor([0.0, 1, 0], dtype=f64)
            left = torch.linalg.cross(up, f)
            fd = dm.train[k]
            pts = torch.tensor([[0.0, 0, 0], [0.3, -0.2, 0.5]])
            for cam in (fd.camera, cams[k]):
                q = pts.double() - c
                g = math.tan(math.radians(60) / 2)
                expect_close(what + ": camera %d" % k, cam.transform_points(pts).reshape(2, 3)[:, :2], torch.stack([(q @ left) / (q @ f) / g, (q @ up) / (q @ f) / g], 1), 1e-4, 1e-4)
            expect(tuple(fd.image_rgb.shape) == (3, res, res) and tuple(fd.fg_probability.shape) == (1, res, res) and fd.frame_type == "known" and fd.frame_number == k, what + ": shapes of frame %d" % k)
            d = centred - c
            xy = torch.stack([(d @ left) / (d @ f), (d @ up) / (d @ f)], 1) / math.tan(math.radians(60) / 2)
            sure = 0
            for i, j in itertools.product(range(res), repeat=2):
                px = torch.tensor([1 - (2 * j + 1) / res, 1 - (2 * i + 1) / res], dtype=f64)
                inside, near = False, False
                for t in faces.tolist():
                    a, b, e = xy[t[0]], xy[t[1]], xy[t[2]]
                    cr = [((v[0] - u[0]) * (px[1] - u[1]) - (v[1] - u[1]) * (px[0] - u[0])).item() for u, v in ((a, b), (b, e), (e, a))]
                    inside |= all(x > 0 for x in cr) or all(x < 0 for x in cr)
                    near |= min(abs(x) for x in cr) < 1e-3
                if near:
                    continue
                sure += 1
                expect(fd.fg_probability[0, i, j] == float(inside), lambda: "%s: mask of frame %d at %d, %d is %g" % (what, k, i, j, fd.fg_probability[0, i, j]))
                if not inside:
                    expect(fd.image_rgb[:, i, j].abs().max() == 0, what + ": background")
                elif not point:
                    expect_close(what + ": frame %d at %d, %d" % (k, i, j), fd.image_rgb[:, i, j], torch.tensor(color), 2e-3, 0)
            expect(sure > res, "most pixels should be decided")
            if point:
                mesh = Meshes([centred.float()], [faces], textures=TexturesVertex([torch.tensor(color).expand(4, 3)]))
                light = PointLights(location=[[0.0, 0.0, -3.0]])
                im = MeshRenderer(MeshRasterizer(cameras=cams[k], raster_settings=RasterizationSettings(image_size=res)),
                                  HardPhongShader(cameras=cams[k], lights=light, blend_params=BlendParams(background_color=(0.0, 0.0, 0.0))))(mesh)[0, ..., :3]
                expect_close(what + ": shaded frame %d" % k, fd.image_rgb.permute(1, 2, 0), im, 5e-3, 0)
            rec.step()
        rec.state((views, rng, dist, res, point))
    # a data source makes the sets and loaders of its providers, and asks for the cameras once
    expand_args_fields(ImplicitronDataSource)
    args = get_default_args(ImplicitronDataSource)
    args.dataset_map_provider_class_type = "RenderedMeshDatasetMapProvider"
    args.dataset_map_provider_RenderedMeshDatasetMapProvider_args.update(dict(kw, num_views=3))
    for cls in ("SequenceDataLoaderMapProvider", "SimpleDataLoaderMapProvider", "TrainEvalDataLoaderMapProvider"):
        args.data_loader_map_provider_class_type = cls
        src = ImplicitronDataSource(**args)
        sets, loaders = src.get_datasets_and_dataloaders()
        expect(len(sets.train) == 3 and sets.val is None and sets.test is None and loaders.val is None and loaders.test is None and loaders.train is not None, cls + ": sets and loaders")
        calls = []
        orig = src.dataset_map_provider.get_all_train_cameras
        object.__setattr__(src.dataset_map_provider, "get_all_train_cameras", lambda: calls.append(1) or orig())
        a, b = src.all_train_cameras, src.all_train_cameras
        expect(a is b and len(calls) == 1 and len(a) == 3, cls + ": train cameras")
        if cls != "SequenceDataLoaderMapProvider":
            got = [int(i) for batch in loaders.train for i in batch.frame_number]
            expect(sorted(got) == [0, 1, 2], lambda: "%s: loads frames %s" % (cls, got))
        rec.step()
    rec.trace()


# ---------------------------------------------------------------- JSON data sets
DS = dict(load_images=False, load_depths=False, load_depth_masks=False, load_masks=False, load_point_clouds=False, box_crop=False, image_height=None, image_width=None,
          remove_empty_masks=False)


def json_rows(seqs, cat):
    """frames of a category; the k-th has focal length 1.5 + k"""
    per, rows = {}, []
    for s in seqs:
        n = per.get(s, 0)
        per[s] = n + 1
        number = (4, 0, 7, 2, 9, 1)[n]
        rows.append((s, number, "%s/%s/images/f%d.jpg" % (cat, s, number)))
    return rows


def json_write(root, cat, rows, base):
    from pytorch3d.implicitron.dataset import types

    fas = [types.FrameAnnotation(sequence_name=s, frame_number=n, frame_timestamp=0.1 * n, image=types.ImageAnnotation(path=p, size=(6, 8)),
                                 mask=types.MaskAnnotation(path="m.png", mass=100.0),
                                 viewpoint=types.ViewpointAnnotation(R=((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), T=(float(base + k), 0.0, 2.0), focal_length=(1.5 + base + k, 2.0),
                                                                     principal_point=(0.0, 0.0), intrinsics_format="ndc_isotropic")) for k, (s, n, p) in enumerate(rows)]
    sas = [types.SequenceAnnotation(sequence_name=s, category=cat, viewpoint_quality_score=1.0) for s in dict.fromkeys(r[0] for r in rows)]
    for name, objs in (("frame_annotations.jgz", fas), ("sequence_annotations.jgz", sas)):
        os.makedirs("%s/%s" % (root, cat), exist_ok=True)
        with gzip.open("%s/%s/%s" % (root, cat, name), "wt", compresslevel=1) as f:
            types.dump_dataclass(objs, f)


def ids(ds):
    return None if ds is None else [(ds[i].sequence_name, int(ds[i].frame_number)) for i in range(len(ds))]


def quiet():
    import logging

    for n in ("json_index_dataset", "json_index_dataset_map_provider_v2", "json_index_dataset_map_provider"):
        logging.getLogger("pytorch3d.implicitron.dataset." + n).setLevel(logging.ERROR)


SUB1 = ("train_known", "train_unseen", "test_known", "test_unseen")


def run_json1(case, rec, root):
    from pytorch3d.implicitron.dataset.json_index_dataset_map_provider import JsonIndexDatasetMapProvider
    from pytorch3d.implicitron.tools.config import expand_args_fields

    quiet()
    expand_args_fields(JsonIndexDatasetMapProvider)
    task, seqs = case["task"], case["seqs"]
    rows = json_rows(seqs, "cup")
    json_write(root, "cup", rows, 0)
    put(root + "/cup/eval_batches_%s.json" % task, "[]")
    for labels in itertools.product(SUB1, repeat=len(rows) - 1):
        labels = (case["first"],) + labels
        if len(set(labels)) < 2:
            continue
        lists = {s: [r for r, l in zip(rows, labels) if l == s] for s in SUB1}
        put(root + "/cup/set_lists.json", json.dumps(lists))
        lab = {r[:2]: l for r, l in zip(rows, labels)}
        inside = [r for r in rows if task == "multisequence" or lab[r[:2]].startswith("test")]
        seq_in = list(dict.fromkeys(r[0] for r in inside))
        # every frame of a sequence, the sequences in both orders
        batches = []
        for s in reversed(seq_in):
            mine = [r for r in inside if r[0] == s]
            batches += [mine, mine[:1]] + ([mine[::-1]] if len(mine) > 1 else [])
        put(root + "/cup/eval_batches_%s.json" % task, json.dumps(batches))
        order = list(dict.fromkeys(b[0][0] for b in batches))
        pick = [((), i) for i in range(len(order))] if task == "singlesequence" else [((), -1)] + [((s,), -1) for s in order]
        for restrict, sid in pick:
            chosen = [order[sid]] if task == "singlesequence" else list(restrict) or order + [r[0] for r in rows]
            for on_train, only in ((False, False), (True, False), (False, True)):
                what = "CO3D %s, frames %s, sequences %s%s, test on train %s, only test %s" % (task, list(zip([r[:2] for r in rows], labels)), restrict, sid, on_train, only)
                tr = ["test_known"] if task == "singlesequence" else ["train_known"]
                te = ["test_known", "test_unseen"] + ([] if task == "singlesequence" else ["train_known", "train_unseen"])
                want_train = [r[:2] for r in rows if lab[r[:2]] in tr and r[0] in chosen]
                want_test = [r[:2] for r in rows if lab[r[:2]] in te and r[0] in chosen]
                if not want_train and not only or not want_test:
                    continue  # refused as empty, see C31
                for nf in ((-1, 1) if not on_train and not only else (-1,)):
                    p = JsonIndexDatasetMapProvider(category="cup", dataset_root=root, task_str=task, test_on_train=on_train, only_test_set=only, restrict_sequence_name=restrict,
                                                    test_restrict_sequence_id=sid, n_frames_per_sequence=nf, dataset_JsonIndexDataset_args=DS)
                    dm = p.get_dataset_map()
                    rec.step()
                    if only:
                        expect(dm.train is None, what + ": there is a train set")
                    elif nf == -1:
                        expect(sorted(ids(dm.train)) == sorted(want_train), lambda: "%s: train %s, want %s" % (what, ids(dm.train), want_train))
                    else:
                        got = ids(dm.train)
                        expect(set(got) <= set(want_train) and sorted(s for s, _ in got) == sorted({s for s, _ in want_train}), lambda: "%s: one frame per sequence: train %s" % (what, got))
                    if on_train:
                        expect(dm.val is dm.train and dm.test is dm.train, what + ": val and test are not the train set")
                        continue
                    for name in ("val", "test"):
                        expect(sorted(ids(dm[name])) == sorted(want_test), lambda: "%s: %s %s, want %s" % (what, name, ids(dm[name]), want_test))
                    all_ids = ids(dm.test)
                    got = [[all_ids[i] for i in b] for b in dm.test.get_eval_batches()]
                    wb = [[tuple(r[:2]) for r in b] for b in batches if b[0][0] in chosen]
                    expect(got == wb, lambda: "%s: eval batches %s, want %s" % (what, got, wb))
                    expect(dm.val.get_eval_batches() is None, what + ": val has eval batches")
                    if not only and nf == -1:
                        cams = p.get_all_train_cameras()
                        if task == "multisequence":
                            expect(cams is None, what + ": train cameras")
                        else:
                            expect(sorted(float(x) for x in cams.focal_length[:, 0]) == [1.5 + k for k, r in enumerate(rows) if r[:2] in want_train], what + ": train cameras")
        rec.state(labels)
    base = dict(category="cup", dataset_root=root, dataset_JsonIndexDataset_args=DS)
    for bad in (dict(task_str="singlesequence", test_restrict_sequence_id=-1), dict(task_str="singlesequence", test_restrict_sequence_id=0, restrict_sequence_name=("s0",)),
                dict(task_str=task, test_restrict_sequence_id=0, only_test_set=True, test_on_train=True)):
        if bad["task_str"] == task:
            expect(raises(ValueError, lambda: JsonIndexDatasetMapProvider(**base, **bad)), lambda: "%s: not refused" % bad)
    rec.trace()


def run_json2(case, rec, root):
    from pytorch3d.implicitron.dataset.json_index_dataset_map_provider_v2 import get_available_subset_names, JsonIndexDatasetMapProviderV2
    from pytorch3d.implicitron.tools.config import expand_args_fields

    quiet()
    expand_args_fields(JsonIndexDatasetMapProviderV2)
    seqs = case["seqs"]
    rows = json_rows(seqs, "cup")
    json_write(root, "cup", rows, 0)
    base = dict(category="cup", dataset_root=root, subset_name="mine", dataset_JsonIndexDataset_args=DS)
    put(root + "/cup/set_lists/set_lists_other_0.json", json.dumps({"train": [], "val": [], "test": []}))
    short = lambda r: r[:2] if case["short"] else r
    for labels in itertools.product(("train", "val", "test", "train test"), repeat=len(rows) - 1):
        labels = (case["first"],) + labels
        # a list may name the frames in any order
        lists = {s: [short(r) for r, l in zip(rows, labels) if s in l][:: -1 if s == "test" else 1] for s in ("train", "val", "test")}
        if not lists["test"] or not lists["train"] or not lists["val"]:
            continue
        put(root + "/cup/set_lists/set_lists_mine.json", json.dumps(lists))
        batches = []
        for s in dict.fromkeys(r[0] for r in lists["test"]):
            mine = [r for r in lists["test"] if r[0] == s]
            batches += [mine[:1]] + ([mine[::-1], mine[1:]] if len(mine) > 1 else [])
        put(root + "/cup/eval_batches/eval_batches_mine.json", json.dumps(batches))
        can = {r[0] for r in lists["test"]} <= {r[0] for r in lists["train"]}
        prev = None
        for on_train, only, known, evals in [(True, False, 0, True), (False, True, 0, True), (False, False, 0, True), (False, False, 0, False)] + ([(False, False, k, True) for k in (1, 2, 5)] if can else []):
            p = JsonIndexDatasetMapProviderV2(**base, test_on_train=on_train, only_test_set=only, n_known_frames_for_test=known, load_eval_batches=evals)
            dm = p.get_dataset_map()
            rec.step()
            what = "CO3Dv2, lists %s, test on train %s, only test %s, %d known frames, eval batches %s" % (lists, on_train, only, known, evals)
            want = {s: [tuple(r[:2]) for r in lists[s]] for s in lists}
            if only:
                expect(dm.train is None, what + ": there is a train set")
            else:
                expect(sorted(ids(dm.train)) == sorted(want["train"]), lambda: "%s: train %s" % (what, ids(dm.train)))
                cams = p.get_all_train_cameras()
                if len({r[0] for r in want["train"]}) > 1:
                    expect(cams is None, what + ": train cameras")
                else:
                    expect(sorted(float(x) for x in cams.focal_length[:, 0]) == [1.5 + k for k, r in enumerate(rows) if r[:2] in want["train"]], what + ": train cameras")
            if on_train:
                expect(dm.val is dm.train and dm.test is dm.train, what + ": val and test are not the train set")
                continue
            expect(sorted(ids(dm.val)) == sorted(want["val"]), lambda: "%s: val %s" % (what, ids(dm.val)))
            got_ids = ids(dm.test)
            if not evals:
                expect(dm.test.get_eval_batches() is None, what + ": eval batches")
            else:
                got = [[got_ids[i] for i in b] for b in dm.test.get_eval_batches()]
                wb = [[tuple(r[:2]) for r in b] for b in batches]
                expect(len(got) == len(wb), lambda: "%s: eval batches %s" % (what, got))
                added = set()
                for g, w in zip(got, wb):
                    pool = [r for r in want["train"] if r[0] == w[0][0]]
                    extra = g[len(w):]
                    added |= set(extra)
                    expect(g[: len(w)] == w and len(extra) == min(known, len(pool)) == len(set(extra)) and set(extra) <= set(pool), lambda: "%s: eval batch %s, want %s and %d of %s" % (what, g, w, known, pool))
                expect(sorted(got_ids) == sorted(set(want["test"]) | added), lambda: "%s: test %s" % (what, got_ids))
                if known > 1:
                    expect(all(b[: len(a)] == a for a, b in zip(prev, got)), what + ": eval batches depend on the number of known frames")
                prev = got
            expect(dm.val.get_eval_batches() is None, what + ": val has eval batches")
        rec.state(labels)
    expect(sorted(get_available_subset_names(root, "cup")) == ["mine", "other_0"], "available subsets")
    expect(raises(ValueError, lambda: JsonIndexDatasetMapProviderV2(**dict(base, subset_name="none"))), "unknown subset: not refused")
    expect(raises(ValueError, lambda: JsonIndexDatasetMapProviderV2(**dict(base, category="none"))), "unknown category: not refused")
    expect(raises(ValueError, lambda: JsonIndexDatasetMapProviderV2(**base, only_test_set=True, test_on_train=True)), "only_test_set and test_on_train: not refused")
    rec.trace()


def run_json3(case, rec, root):
    """several categories"""
    from pytorch3d.implicitron.dataset.json_index_dataset_map_provider_v2 import JsonIndexDatasetMapProviderV2
    from pytorch3d.implicitron.tools.config import expand_args_fields

    quiet()
    expand_args_fields(JsonIndexDatasetMapProviderV2)
    lists = {}
    for c, (cat, seqs) in enumerate((("cup", ("a", "a", "b")), ("ball", ("c", "d", "c", "d")), ("car", ("e", "e")))):
        rows = json_rows(seqs, cat)
        json_write(root, cat, rows, 10 * c)
        lists[cat] = {"train": rows[:-1], "val": rows[:1], "test": rows[1:]}
        put(root + "/%s/set_lists/set_lists_mine.json" % cat, json.dumps(lists[cat]))
        lists[cat]["batches"] = [rows[1:2], rows[:0:-1]] if cat != "cup" else [rows[2:]]
        put(root + "/%s/eval_batches/eval_batches_mine.json" % cat, json.dumps(lists[cat]["batches"]))
    for r in (1, 2, 3):
        for cats in itertools.permutations(lists, r):
            for on_train, only, evals in case["modes"]:
                what = "CO3Dv2 categories %s, test on train %s, only test %s, eval batches %s" % (cats, on_train, only, evals)
                p = JsonIndexDatasetMapProviderV2(category=", ".join(cats), dataset_root=root, subset_name="mine", dataset_JsonIndexDataset_args=DS, test_on_train=on_train, only_test_set=only,
                                                  load_eval_batches=evals, num_load_workers=2)
                dm = p.get_dataset_map()
                want = {s: [tuple(x[:2]) for c in cats for x in lists[c][s]] for s in ("train", "val", "test")}
                if on_train:
                    want["val"] = want["test"] = want["train"]
                for s in ("train", "val", "test"):
                    if s == "train" and only:
                        expect(dm.train is None, what + ": there is a train set")
                        continue
                    got = ids(dm[s])
                    expect(sorted(got) == sorted(want[s]), lambda: "%s: %s %s, want %s" % (what, s, got, want[s]))
                if evals and not on_train:
                    t = ids(dm.test)
                    got = [[t[i] for i in b] for b in dm.test.get_eval_batches()]
                    wb = [[tuple(x[:2]) for x in b] for c in cats for b in lists[c]["batches"]]
                    expect(got == wb, lambda: "%s: eval batches %s, want %s" % (what, got, wb))
                c2s = (dm.val if only else dm.train).category_to_sequence_names()
                expect(set(c2s) == set(cats), lambda: "%s: categories %s" % (what, c2s))
                rec.state((cats, on_train, only, evals))
                rec.step()
    rec.trace()


def run_sqlmap(case, rec, root):
    """the provider over a data base: every labelling of frames x where the lists are x every switch"""
    from checks import c31_datasets as c31
    from pytorch3d.implicitron.dataset import types
    from pytorch3d.implicitron.dataset.sql_dataset_provider import SqlIndexDatasetMapProvider
    from pytorch3d.implicitron.tools.config import expand_args_fields

    import logging

    import sqlalchemy as sa

    for n in ("sql_dataset", "sql_dataset_provider"):
        logging.getLogger("pytorch3d.implicitron.dataset." + n).setLevel(logging.ERROR)
    expand_args_fields(SqlIndexDatasetMapProvider)
    rows = c31.make_rows(case["assign"], ("a1",) * len(case["assign"]))
    c31.write_tables(root, rows, types, sql=True)
    keys = [c31.ident(r) for r in rows]
    cat_of = c31.CATS
    base = dict(dataset_root=root, metadata_basename="db.sqlite",
                dataset_SqlIndexDataset_args=dict(remove_empty_masks=False, frame_data_builder_FrameDataBuilder_args=dict(c31.NO_BLOBS)))

    def write_lists(path, lists):
        if path.endswith(".json"):
            put(path, json.dumps({s: [(k[0], k[1], "%s/img_%03d.png" % k) for k in ks] for s, ks in lists.items()}))
            return
        os.makedirs(os.path.dirname(path), exist_ok=True)
        engine = sa.create_engine("sqlite:///" + path)
        t = sa.Table("set_lists", sa.MetaData(), sa.Column("sequence_name", sa.String), sa.Column("frame_number", sa.Integer), sa.Column("_image_path", sa.String), sa.Column("subset", sa.String))
        t.create(engine)
        with engine.connect() as c:
            for s, ks in lists.items():
                for k in ks:
                    c.execute(t.insert().values(sequence_name=k[0], frame_number=k[1], _image_path="%s/img_%03d.png" % k, subset=s))
            c.commit()
        engine.dispose()

    # where the lists are, the arguments that name them, the category
    places = [("set_lists/set_lists_mine.json", dict(subset_list_name="mine"), None), ("set_lists/set_lists_mine.sqlite", dict(subset_list_name="mine"), "cup,ball"),
              ("cup/set_lists/set_lists_mine.sqlite", dict(subset_list_name="mine"), "cup"), ("any/where.json", dict(subset_lists_path="any/where.json"), None),
              ("any/where.json", dict(subset_lists_path="any/where"), "cup"), ("any/where.sqlite", dict(subset_lists_path=root + "/any/where"), None), (None, {}, None), (None, {}, "ball")]
    switches = [(t, o, g) for t in (False, True) for o in (False, True) for g in (False, True) if not (t and o)]
    names = ("train", "val", "test")
    turn = case["first"]
    for rest in itertools.product(range(3), repeat=len(rows) - 1):
        labels = (case["first"],) + rest
        lists = {s: [k for k, l in zip(keys, labels) if names[l] == s] for s in names}
        # a decoy with the same name at the other places, with the labels moved on by one
        decoy = {names[(i + 1) % 3]: lists[s] for i, s in enumerate(names)}
        turn += 1
        place, named, category = places[turn % len(places)]
        for sub in ("/set_lists", "/cup", "/any"):
            shutil.rmtree(root + sub, ignore_errors=True)
        if place:
            write_lists(root + "/" + place, lists)
            if "subset_list_name" in named:
                write_lists(root + ("/set_lists/set_lists_mine.json" if place.startswith("cup/") else "/cup/set_lists/set_lists_mine.json"), decoy)
        held = [k for k in keys if category is None or cat_of[k[0]] in category.split(",")]
        batches = []
        for s in dict.fromkeys(k[0] for k in lists["test"]):
            mine = [k for k in lists["test"] if k[0] == s]
            batches += [mine[:1]] + ([mine[::-1]] if len(mine) > 1 else [])
        put(root + "/eval/b.json", json.dumps(batches))
        for (on_train, only, ignore), known, evals in [(s, 0, e) for s in switches for e in (False, True)] + [((False, o, False), k, True) for o in (False, True) for k in (1, 2, 5)]:
            what = "SQL maps, lists %s at %s, category %s, test on train %s, only test %s, ignore subsets %s, eval batches %s, %d train frames" % (lists, place, category, on_train, only, ignore, evals, known)
            rec.step()
            make = lambda: SqlIndexDatasetMapProvider(**base, **named, **({"category": category} if category else {}), **({"eval_batches_path": ("eval/b.json", "eval/b")[turn % 2]} if evals else {}),
                                                      test_on_train=on_train, only_test_set=only, ignore_subsets=ignore, eval_batch_num_training_frames=known)
            whole = ignore or place is None  # the data set is not partitioned
            same = on_train or (ignore and not only)
            want = {s: held if whole else [k for k in held if k in lists[s]] for s in names}
            want_test = want["test"] + (want["train"] if known and not whole else [])
            need = ["train"] if same else ["test"] if only else ["train", "val", "test"]
            if any(not (want_test if s == "test" else want[s]) for s in need):
                expect(raises(ValueError, make), what + ": an empty set is not refused")
                continue
            dm = make().get_dataset_map()
            if only:
                expect(dm.train is None and dm.val is None, what + ": there are train and val sets")
            else:
                expect(sorted(ids(dm.train)) == sorted(want["train"]), lambda: "%s: train %s" % (what, ids(dm.train)))
            if same:
                expect(dm.val is dm.train and dm.test is dm.train, what + ": val and test are not the train set")
                continue
            expect(only or sorted(ids(dm.val)) == sorted(want["val"]), lambda: "%s: val %s" % (what, ids(dm.val)))
            expect(sorted(ids(dm.test)) == sorted(want_test), lambda: "%s: test %s, want %s" % (what, ids(dm.test), want_test))
            expect(only or dm.val.get_eval_batches() is None and dm.train.get_eval_batches() is None, what + ": train or val have eval batches")
            got = dm.test.get_eval_batches()
            if not evals:
                expect(got is None, what + ": eval batches")
                continue
            got = [[tuple(k) for k in b] for b in got]
            wb = [b for b in batches if category is None or cat_of[b[0][0]] in category.split(",")]
            expect(len(got) == len(wb), lambda: "%s: eval batches %s, want %s" % (what, got, wb))
            for g, w in zip(got, wb):
                pool = [k for k in want["train"] if k[0] == w[0][0]]
                extra = g[len(w):]
                expect(g[: len(w)] == w and (whole or len(extra) == min(known, len(pool)) == len(set(extra))) and set(extra) <= set(pool), lambda: "%s: eval batch %s, want %s and %d of %s" % (what, g, w, known, pool))
                for k in g:
                    fd = dm.test[k]
                    expect((fd.sequence_name, int(fd.frame_number)) == k, what + ": eval batches point elsewhere")
        rec.state((case["assign"], labels))
    put(root + "/set_lists/set_lists_mine.json", json.dumps({s: [(k[0], k[1], "%s/img_%03d.png" % k) for k in keys] for s in names}))
    for bad, err in (({"subset_list_name": "none"}, FileNotFoundError), ({"subset_lists_path": "none.json"}, FileNotFoundError), ({"subset_list_name": "mine", "subset_lists_path": "set_lists/set_lists_mine.json"}, ValueError),
                     ({"subset_list_name": "mine", "only_test_set": True, "test_on_train": True}, ValueError), ({"subset_list_name": "mine", "metadata_basename": "none.sqlite"}, ValueError)):
        expect(raises(err, lambda: SqlIndexDatasetMapProvider(**dict(base, **bad))), "SQL maps with %s: not refused" % bad)
    rec.trace()


def run_maps(case, rec, root):
    """joining maps joins the sets of the same name, once"""
    from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap

    class Toy:
        def __init__(self, items):
            self.items = items

        def join(self, others):
            self.items = self.items + [x for o in others for x in o.items]

    names = ("train", "val", "test")
    pats = [p for p in itertools.product((0, 1), repeat=3)] + ["same"]
    for r in (1, 2, 3):
        for combo in itertools.product(pats, repeat=r):
            maps, want = [], {s: [] for s in names}
            for k, p in enumerate(combo):
                if p == "same":
                    t = Toy([(k, "all")])
                    maps.append(DatasetMap(t, t, t))
                    for s in names:
                        want[s].append((k, "all"))
                else:
                    maps.append(DatasetMap(*[Toy([(k, s)]) if b else None for b, s in zip(p, names)]))
                    for b, s in zip(p, names):
                        if b:
                            want[s].append((k, s))
            if "same" in combo and len(set(combo)) > 1:
                continue
            expect([d for d in maps[0].iter_datasets()] == [d for d in (maps[0].train, maps[0].val, maps[0].test) if d is not None], "iter_datasets")
            maps[0].join(maps[1:])
            for s in names:
                got = None if maps[0][s] is None else maps[0][s].items
                expect(got == (want[s] or None), lambda: "join of maps with sets %s: %s is %s, want %s" % (combo, s, got, want[s]))
            for k in range(1, r):
                for s in names:
                    d = maps[k][s]
                    expect(d is None or maps[0][s] is d or len(d.items) == 1, "join changes the other maps")
            rec.state(combo)
            rec.step()
    expect(raises(ValueError, lambda: maps[0]["all"]), "unknown set")
    rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = []
    for version in (1, 2):
        for tex, load, res in (("none", True, 2), ("plain", True, 3), ("image", True, 2), ("image", False, 4)):
            out.append({"kind": "tree", "version": version, "tex": tex, "load": load, "res": res, "labels": ["airplane", "car"] if not (deep and version == 1 and tex == "none") else ["airplane", "car", "bench"]})
    out += [{"kind": "select", "load": l, "seeds": 12 if deep else 3} for l in (True, False)]
    for views in (((0, 1, 2), (1, 3), (0,)), ((2,), (2,), (3,)), ((3, 0), (1, 2), (2, 1))) + ((((0, 1, 2, 3), (3, 2, 1), (1, 0)),) if deep else ()):
        for have in itertools.product((True, False), repeat=3):
            if any(have):
                out.append({"kind": "r2n2", "views": views, "have": have, "load": True, "voxels": False})
    out += [{"kind": "r2n2", "views": ((0, 1), (2, 3), (1, 3)), "have": (True, True, True), "load": False, "voxels": False}]
    out += [{"kind": "r2n2", "views": v, "have": (True, True, True), "load": True, "voxels": True} for v in (((0,), (1,), (2,)), ((3, 1), (0,), (2, 0)))]
    out += [{"kind": "binvox", "size": 2, "cut": c, "step": 1} for c in (1, 3, 255)] + [{"kind": "binvox", "size": 3, "cut": c, "step": 7 if deep else 31} for c in (2, 255)]
    out += [{"kind": "extrinsic", "V": v} for v in (8, 16) + ((31,) if deep else ())]
    n = 5 if deep else 4
    out += [{"kind": "single", "n": n, "fg": fg, "first": f} for fg in (False, True) for f in range(3)]
    out += [{"kind": "mesh", "file": f} for f in ("ply", "obj")]
    s1 = ("s1", "s0", "s0", "s1") + (("s2",) if deep else ())
    out += [{"kind": "json1", "task": t, "seqs": s1, "first": f} for t in ("singlesequence", "multisequence") for f in SUB1]
    out += [{"kind": "json2", "seqs": s1, "first": f, "short": sh} for f in ("train", "val", "test", "train test") for sh in (False, True)]
    out += [{"kind": "json3", "modes": [m]} for m in ((False, False, True), (True, False, True), (False, True, True), (False, False, False))]
    for assign in ((0, 0, 1, 1), (0, 1, 0, 2), (2, 2, 2, 0)) + (((1, 0, 0, 1, 2),) if deep else ()):
        out += [{"kind": "sqlmap", "assign": assign, "first": f} for f in range(3)]
    out += [{"kind": "maps"}]
    return out


def run(case, rec):
    root = tempfile.mkdtemp(prefix="verif_c43_")
    try:
        globals()["run_" + case["kind"]](case, rec, root)
    finally:
        shutil.rmtree(root)
