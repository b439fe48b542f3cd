"""C04: the colour at a face and barycentric position survives every operation on textured meshes."""
import itertools
import math

import torch
from mc.core import expect, expect_close

from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.textures import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene

PROPERTY = "C04"
ASSUMPTIONS = [
    "float32, CPU; UV coordinates inside [0, 1]; texture maps of at least 2x2 texels",
    "every batch of a history has at least one face (a batch of nothing but empty meshes has no texture values)",
    "maps of different sizes in one batch are resized by bilinear interpolation (documented); they are explored with "
    "colour gradients, which that resizing keeps exactly",
    "the multiple-maps-per-mesh textures do not support joining or submeshes (documented NotImplementedError)",
]
BOUNDS = {
    "quick": "all op-op histories over 18 operations, and op-warm-op over 3 accessor groups, for 22 batches covering "
             "per-vertex, atlas, UV (list, tensor, shared, different sizes, both corner modes, 3 padding modes, nearest) "
             "and multi-map UV textures; every face x 9 barycentric positions x 2 layers",
    "thorough": "as quick with op-op-op and warm-op-warm-op histories",
}
C = 3
BARY = torch.tensor([[1.0, 0, 0], [0, 1, 0], [0, 0, 1], [0.5, 0.5, 0], [0.2, 0.3, 0.5], [0.7, 0.1, 0.2],
                     [0.05, 0.9, 0.05], [0.34, 0.33, 0.33], [0.15, 0.05, 0.8]])
SHAPES = {
    "e": (0, []),
    "t": (3, [[0, 1, 2]]),
    "q": (4, [[0, 1, 2], [2, 1, 3]]),
    "k": (4, [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]),
    "u": (5, [[4, 0, 2], [0, 4, 3], [3, 2, 0]]),
}
_BASE = torch.tensor([[0.0, 0, 0], [1.0, 0.125, 0.25], [0.25, 1.0, -0.5], [0.5, 0.375, 1.0], [-0.75, 0.5, 0.625]])
_UV = torch.tensor([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.3, 0.6], [0.8, 0.45], [0.13, 0.27]])


def hashvals(*shape, salt=0):
    n = 1
    for s in shape:
        n *= s
    x = (torch.arange(n, dtype=torch.float64) + 1 + 37 * salt) * 0.6180339887498949
    return (x - x.floor()).float().reshape(shape)


def gradmap(H, W, salt):
    y = torch.linspace(0, 1, H)[:, None].expand(H, W)
    x = torch.linspace(0, 1, W)[None].expand(H, W)
    a = hashvals(C, 3, salt=salt)
    return torch.stack([a[c, 0] + a[c, 1] * x - a[c, 2] * y for c in range(C)], -1).contiguous()


# --------------------------------------------------------------- reference samplers: value at (face, bary)
def ref_vertex(faces, feats):
    return torch.stack([torch.stack([sum(b[j] * feats[f[j]] for j in range(3)) for b in BARY]) for f in faces]) \
        if len(faces) else torch.zeros(0, len(BARY), feats.shape[1])


def ref_atlas(faces, atlas):
    out = torch.zeros(len(faces), len(BARY), atlas.shape[-1])
    R = atlas.shape[1]
    for i in range(len(faces)):
        for k, b in enumerate(BARY.tolist()):
            x, y = min(int(b[0] * R), R - 1), min(int(b[1] * R), R - 1)
            # each of the R*R cells of the (w0, w1) square is split by its diagonal; the upper half mirrors
            if (b[0] + b[1]) * R - (x + y) > 1.0 + 1e-6:
                x, y = R - 1 - x, R - 1 - y
            out[i, k] = atlas[i, y, x]
    return out


def texel(img, x, y, mode):
    H, W, _ = img.shape
    if 0 <= x < W and 0 <= y < H:
        return img[y, x]
    if mode == "zeros":
        return torch.zeros(img.shape[-1])
    return img[min(max(y, 0), H - 1), min(max(x, 0), W - 1)]


def ref_uv_point(img, u, v, align, pmode, smode):
    H, W, _ = img.shape
    x, y = (u * (W - 1), (1 - v) * (H - 1)) if align else (u * W - 0.5, (1 - v) * H - 0.5)
    if smode == "nearest":
        if min(abs(x % 1 - 0.5), abs(y % 1 - 0.5)) < 1e-3:
            return torch.full((img.shape[-1],), math.nan)  # halfway between two texels: either is right
        return texel(img, int(round(x)), int(round(y)), pmode)
    x0, y0 = math.floor(x), math.floor(y)
    fx, fy = x - x0, y - y0
    r = torch.zeros(img.shape[-1])
    for dx, wx in ((0, 1 - fx), (1, fx)):
        for dy, wy in ((0, 1 - fy), (1, fy)):
            if wx * wy > 1e-9:
                r = r + wx * wy * texel(img, x0 + dx, y0 + dy, pmode)
    return r


def ref_uv(faces, fuv, uv, img, align, pmode, smode, ids=None):
    out = torch.zeros(len(faces), len(BARY), img.shape[-1])
    for i in range(len(faces)):
        im = img if ids is None else img[int(ids[i])]
        for k, b in enumerate(BARY):
            p = (b[:, None] * uv[fuv[i]]).sum(0)
            out[i, k] = ref_uv_point(im, float(p[0]), float(p[1]), align, pmode, smode)
    return out


# --------------------------------------------------------------- construction
def build(cfg):
    """-> Meshes, model; model: per mesh the table [faces, bary, C]"""
    kind, names = cfg[0], cfg[1]
    opt = cfg[2] if len(cfg) > 2 else {}
    verts, faces = [], []
    for i, s in enumerate(names):
        n, f = SHAPES[s]
        verts.append((_BASE[:n] * (1 + 0.5 * i)).reshape(n, 3))
        faces.append(torch.tensor(f, dtype=torch.int64).reshape(-1, 3))
    V, F = max(len(v) for v in verts), max(len(f) for f in faces)
    if kind in ("vl", "vp"):
        feats = [hashvals(len(v), C, salt=i) for i, v in enumerate(verts)]
        tables = [ref_vertex(f.tolist(), x) for f, x in zip(faces, feats)]
        if kind == "vp":
            p = torch.zeros(len(verts), V, C)
            for i, x in enumerate(feats):
                p[i, : len(x)] = x
            tex = TexturesVertex(p)
        else:
            tex = TexturesVertex(feats)
    elif kind in ("al", "ap"):
        R = opt.get("R", 2)
        at = [hashvals(len(f), R, R, C, salt=i) for i, f in enumerate(faces)]
        tables = [ref_atlas(f, x) for f, x in zip(faces, at)]
        if kind == "ap":
            p = torch.zeros(len(faces), F, R, R, C)
            for i, x in enumerate(at):
                p[i, : len(x)] = x
            tex = TexturesAtlas(p)
        else:
            tex = TexturesAtlas(at)
    else:
        align, pmode, smode = opt.get("align", True), opt.get("pad", "border"), opt.get("mode", "bilinear")
        sizes = opt.get("sizes", [[3, 4]] * len(names))
        uvs = [_UV[(i % 2):].clone() for i in range(len(names))]
        fuv = [torch.tensor([[(3 * a + b + i + j) % len(uvs[i]) for b in range(3)] for a, j in enumerate(range(len(f)))],
                            dtype=torch.int64).reshape(-1, 3) for i, f in enumerate(faces)]
        kw = dict(align_corners=align, padding_mode=pmode, sampling_mode=smode)
        if kind == "um":
            M = opt["M"]
            maps = [hashvals(M, *sizes[i], C, salt=i) for i in range(len(names))]
            ids = [torch.tensor([(a + i) % M for a in range(len(f))], dtype=torch.int64) for i, f in enumerate(faces)]
            tables = [ref_uv(f, q, u, m, align, pmode, smode, d) for f, q, u, m, d in zip(faces, fuv, uvs, maps, ids)]
            tex = TexturesUV(maps=maps, faces_uvs=fuv, verts_uvs=uvs, maps_ids=ids, **kw)
        else:
            if opt.get("grad"):
                maps = [gradmap(*sizes[i], salt=i) for i in range(len(names))]
            elif opt.get("shared"):
                one = hashvals(*sizes[0], C)
                maps = [one if i != 1 else hashvals(*sizes[0], C, salt=5) for i in range(len(names))]
            else:
                maps = [hashvals(*sizes[i], C, salt=i) for i in range(len(names))]
            tables = [ref_uv(f, q, u, m, align, pmode, smode) for f, q, u, m in zip(faces, fuv, uvs, maps)]
            if kind == "up":
                n = max(len(u) for u in uvs)
                up = torch.zeros(len(uvs), n, 2)
                fp = torch.zeros(len(uvs), F, 3, dtype=torch.int64)
                for i in range(len(uvs)):
                    up[i, : len(uvs[i])] = uvs[i]
                    fp[i, : len(fuv[i])] = fuv[i]
                tex = TexturesUV(maps=torch.stack(maps), faces_uvs=fp, verts_uvs=up, **kw)
            else:
                tex = TexturesUV(maps=maps, faces_uvs=fuv, verts_uvs=uvs, **kw)
    return Meshes(verts=verts, faces=faces, textures=tex), tables


def observe(m, model, where):
    expect(len(m) == len(model), where + ": batch length")
    if not model or not any(len(t) for t in model):
        return
    nf = [len(t) for t in model]
    expect(m.num_faces_per_mesh().tolist() == nf, where + ": faces per mesh")
    expect(m.textures is not None, where + ": texture lost")
    B = len(BARY)
    W = max(nf) * B
    pix = torch.full((len(nf), 2, W, 2), -1, dtype=torch.int64)
    bary = torch.zeros(len(nf), 2, W, 2, 3)
    want = torch.zeros(len(nf), 2, W, 2, C)
    off = 0
    for i, t in enumerate(model):
        n = nf[i] * B
        if n:
            fid = torch.arange(nf[i]).repeat_interleave(B) + off
            bb = BARY.repeat(nf[i], 1)
            col = t.reshape(n, C)
            perm = (torch.arange(n) * 7 + 3) % n if n % 7 else torch.arange(n).flip(0)
            for h, k, q in ((0, 0, torch.arange(n)), (0, 1, perm), (1, 0, torch.arange(n).flip(0)), (1, 1, torch.arange(n))):
                pix[i, h, :n, k] = fid[q]
                bary[i, h, :n, k] = bb[q]
                want[i, h, :n, k] = col[q]
        off += nf[i]
    got = m.sample_textures(Fragments(pix_to_face=pix, zbuf=None, bary_coords=bary, dists=None))
    expect(tuple(got.shape) == tuple(want.shape), where + ": texel shape %s want %s" % (tuple(got.shape), tuple(want.shape)))
    use = (pix >= 0)[..., None] & ~torch.isnan(want)
    zero = torch.zeros_like(want)
    expect_close(where + ": sampled colour", torch.where(use, got, zero), torch.where(use, want, zero), atol=2e-4)
    tex = m.textures
    kw = {"faces_packed": m.faces_packed()} if isinstance(tex, TexturesVertex) else {}
    corner = tex.faces_verts_textures_packed(**kw)
    expect(tuple(corner.shape[:2]) == (sum(nf), 3), where + ": corner texture shape")
    if not isinstance(tex, TexturesAtlas):
        ref = torch.cat([t[:, :3] for t in model])
        expect_close(where + ": colour at the face corners", torch.where(torch.isnan(ref), ref, corner), ref, atol=2e-4)


WARM = {
    "w_sample": lambda m: m.textures.faces_verts_textures_packed(m.faces_packed())
    if isinstance(m.textures, TexturesVertex) else m.textures.faces_verts_textures_packed(),
    "w_padded": lambda m: (m.textures.verts_features_padded() if isinstance(m.textures, TexturesVertex) else
                           m.textures.atlas_padded() if isinstance(m.textures, TexturesAtlas) else
                           (m.textures.faces_uvs_padded(), m.textures.verts_uvs_padded(), m.textures.maps_padded())),
    "w_list": lambda m: (m.textures.verts_features_list() if isinstance(m.textures, TexturesVertex) else
                         m.textures.atlas_list() if isinstance(m.textures, TexturesAtlas) else
                         (m.textures.faces_uvs_list(), m.textures.verts_uvs_list(), m.textures.maps_list())),
}


def _li(n):
    return [n - 1, 0] + ([n - 1] if n > 1 else [])


def _sub_idx(model):
    out = []
    for t in model:
        n = len(t)
        out.append([] if n == 0 else [torch.tensor([0])] if n == 1 else [torch.tensor([n - 1]), torch.tensor([1, 0])])
    return out


def _smash_clone(m, mod):
    c = m.clone()
    t = c.textures
    if isinstance(t, TexturesVertex):
        xs = [t.verts_features_padded()] + list(t.verts_features_list())
    elif isinstance(t, TexturesAtlas):
        xs = [t.atlas_padded()] + list(t.atlas_list())
    else:
        xs = [t.maps_padded(), t.verts_uvs_padded()] + list(t.maps_list()) + list(t.verts_uvs_list())
    for x in xs:
        x.fill_(0.123)
    return m


OPS = {
    "clone": (lambda m, mod: m.clone(), lambda mod: list(mod)),
    "detach": (lambda m, mod: m.detach(), lambda mod: list(mod)),
    "smash_clone": (_smash_clone, lambda mod: list(mod)),
    "get_last": (lambda m, mod: m[-1], lambda mod: [mod[-1]]),
    "get_slice": (lambda m, mod: m[1:], lambda mod: mod[1:]),
    "get_list": (lambda m, mod: m[_li(len(mod))], lambda mod: [mod[i] for i in _li(len(mod))]),
    "get_bool": (lambda m, mod: m[torch.tensor([i % 2 == 0 for i in range(len(mod))])], lambda mod: mod[::2]),
    "get_long": (lambda m, mod: m[torch.tensor(_li(len(mod)))], lambda mod: [mod[i] for i in _li(len(mod))]),
    "extend": (lambda m, mod: m.extend(2), lambda mod: [x for x in mod for _ in range(2)]),
    "join": (lambda m, mod: join_meshes_as_batch([m[0:1], m]), lambda mod: mod[:1] + mod),
    "join_int": (lambda m, mod: join_meshes_as_batch([m[0], m]), lambda mod: mod[:1] + mod),
    "scene": (lambda m, mod: join_meshes_as_scene(m), lambda mod: [torch.cat(mod)]),
    "scene_list": (lambda m, mod: join_meshes_as_scene([m, m[0]]), lambda mod: [torch.cat(mod + mod[:1])]),
    "submeshes": (lambda m, mod: m.submeshes(_sub_idx(mod)),
                  lambda mod: [t[s] for t, sel in zip(mod, _sub_idx(mod)) for s in sel]),
    "split": (lambda m, mod: m.split([1, len(mod) - 1])[1], lambda mod: mod[1:]),
    "offset": (lambda m, mod: m.offset_verts(torch.tensor([1.0, 2.0, 3.0])), lambda mod: list(mod)),
    "scale": (lambda m, mod: m.scale_verts(2.0), lambda mod: list(mod)),
    "update": (lambda m, mod: m.update_padded(m.verts_padded() * 2), lambda mod: list(mod)),
}

U = {"uv": "ul"}
CONFIGS = [
    ["vl", ["q", "t"]], ["vl", ["t", "k", "u"]], ["vp", ["q", "k"]], ["vl", ["u"]], ["vl", ["q", "e", "t"]],
    ["al", ["t", "k"], {"R": 2}], ["al", ["q", "u", "t"], {"R": 3}], ["ap", ["k", "k"], {"R": 1}], ["al", ["q", "e"], {"R": 2}],
    ["ul", ["q", "t"], {"sizes": [[3, 4], [3, 4]]}],
    ["ul", ["t", "k"], {"sizes": [[4, 2], [3, 5]], "grad": True}],
    ["ul", ["q", "t", "u"], {"sizes": [[2, 6], [5, 3], [2, 2]], "grad": True}],
    ["ul", ["k", "q"], {"sizes": [[2, 5], [2, 5]], "align": False}],
    ["ul", ["u", "t", "q"], {"sizes": [[4, 3]] * 3, "align": False, "pad": "zeros"}],
    ["ul", ["q", "t", "k"], {"sizes": [[3, 4]] * 3, "shared": True}],
    ["ul", ["q", "t", "k"], {"sizes": [[4, 3]] * 3, "shared": True, "align": False}],
    ["up", ["q", "q"], {"sizes": [[3, 4]] * 2}],
    ["ul", ["t", "q"], {"sizes": [[5, 4]] * 2, "mode": "nearest", "align": False}],
    ["ul", ["k"], {"sizes": [[2, 3]], "pad": "reflection"}],
    ["um", ["q", "t"], {"sizes": [[3, 4]] * 2, "M": 2}],
    ["um", ["t", "k", "q"], {"sizes": [[2, 3]] * 3, "M": 4, "align": False}],
    ["um", ["k", "q"], {"sizes": [[3, 3]] * 2, "M": 1}],
]
NO_MULTI = {"join", "join_int", "scene", "scene_list", "submeshes"}
CHUNK = 2
BUDGET = {"quick": 400, "thorough": 0}


def cases(tier):
    warm, ops = list(WARM), list(OPS)
    out = []
    for cfg in CONFIGS:
        use = [o for o in ops if cfg[0] != "um" or o not in NO_MULTI]
        seqs = [[]] + [[w] for w in warm] + [[a] for a in use] + [[w, a] for w in warm for a in use]
        seqs += [[a, b] for a in use for b in use]
        seqs += [[a, "prev", b] for a in use for b in use] if tier == "thorough" else []
        if tier == "thorough":
            seqs += [[a, w, b] for w in warm for a in use for b in use]
            seqs += [[w, a, b] for w in warm for a in use for b in use]
            seqs += [[a, b, c] for a in use for b in use for c in use]
            seqs += [[w, a, x, b] for w in warm for x in warm for a in use for b in use]
        elif cfg[0] in ("vl", "al"):
            seqs += [[a, w, b] for w in warm for a in use for b in use]
        for i in range(0, len(seqs), 16):
            out.append([cfg, seqs[i: i + 16]])
    return out


_TAB = {}


def run_history(cfg, hist, rec):
    m, model = build(cfg)
    objs = [[m, model]]
    cur, parent = 0, {0: 0}
    for op in hist:
        if op == "prev":
            cur = parent[cur]
            continue
        m, model = objs[cur]
        if not model or not any(len(t) for t in model):
            break
        if op in WARM:
            WARM[op](m)
            rec.step()
            continue
        real, ref = OPS[op]
        mod = ref(model)
        if not any(len(t) for t in mod) or (op in ("join", "join_int", "scene_list", "split") and not len(model[0])):
            break  # a batch with nothing but meshes without faces has no texture values to keep
        obj = real(m, model)
        rec.step()
        if obj is m:
            objs[cur][1] = mod
            continue
        objs.append([obj, mod])
        parent[len(objs) - 1] = cur
        cur = len(objs) - 1
    for i, (o, mod) in enumerate(objs):
        observe(o, mod, "object %d of history %s on %s" % (i, hist, cfg))
    rec.trace()
    rec.state([objs[-1][1], len(objs), cfg[0]])


def run(case, rec):
    cfg, hists = case
    for h in hists:
        try:
            run_history(cfg, h, rec)
        except Exception as e:
            e.case = [cfg, [h]]
            raise
        rec.sample({"batch": cfg, "history": h})
