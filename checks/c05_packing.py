"""C05: rectangle packing and merging texture images, for every multiset of small sizes."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.textures import TexturesUV
from pytorch3d.renderer.mesh.utils import pack_rectangles, pack_unique_rectangles, Rectangle

PROPERTY = "C05"
ASSUMPTIONS = ["positive integer sizes, at least two rectangles",
               "images merged with align_corners=True have at least 2x2 texels (one texel has no extent there)"]
BOUNDS = {
    "quick": "packing: every ordered list of 2, 3 or 4 rectangles with sides 1..6, 1..4, 1..4; every multiset (up to turning) of "
             "4 sides 1..7, 5 sides 1..8, 6 sides 1..6, 7 and 8 sides 1..5, 9 sides 1..4, 10 sides 1..3; identical-image "
             "patterns: every set partition of 2..5 images x sides 1..3 (5: 1..2); merged maps: every ordered pair and triple of "
             "images with sides 1..4, sharing patterns, both corner modes, 3 paddings, 48 uv positions each",
    "thorough": "as quick, with ordered triples of sides 1..5, multisets of 4 and 5 sides 1..10, 6 sides 1..8, 7 sides 1..6, 10 sides 1..4",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 2


def check_layout(sizes, plan, groups=None):
    W, H = plan.total_size
    expect(len(plan.locations) == len(sizes), "sizes %s: %d locations" % (sizes, len(plan.locations)))
    occ = 0
    seen = {}
    for i, (s, loc) in enumerate(zip(sizes, plan.locations)):
        w, h = (s[1], s[0]) if loc.flipped else s
        if not (loc.x >= 0 and loc.y >= 0 and loc.x + w <= W and loc.y + h <= H):
            raise Violation("sizes %s: rectangle %d at %s leaves the map %s" % (sizes, i, tuple(loc), (W, H)))
        g = i if groups is None else groups[i]
        if g in seen:
            if seen[g][:3] != tuple(loc)[:3]:
                raise Violation("sizes %s: identical images at different places" % (sizes,))
            if loc.is_first:
                raise Violation("sizes %s: two first uses of one image" % (sizes,))
            continue
        if not loc.is_first:
            raise Violation("sizes %s: rectangle %d is not marked as the first of its image" % (sizes, i))
        seen[g] = tuple(loc)
        row = (1 << h) - 1
        bits = 0
        for x in range(loc.x, loc.x + w):
            bits |= row << (x * H + loc.y)
        if occ & bits:
            raise Violation("sizes %s: rectangle %d overlaps an earlier one in %s" % (sizes, i, plan.locations))
        occ |= bits


def partitions(n):
    def rec(i, cur, k):
        if i == n:
            yield tuple(cur)
            return
        for g in range(k + 1):
            yield from rec(i + 1, cur + [g], max(k, g + 1))
    return list(rec(0, [], 0))


def sides(k):
    return [(a, b) for a in range(1, k + 1) for b in range(1, a + 1)]


def ordered(k):
    return [(a, b) for a in range(1, k + 1) for b in range(1, k + 1)]


def cases(tier):
    t = tier == "thorough"
    out = []
    for k, n in [(2, 6), (3, 5 if t else 4), (4, 4)]:
        for s in ordered(n):
            out.append(["ordered", k, n, list(s)])
    multi = [(4, 10 if t else 7), (5, 10 if t else 8), (6, 8 if t else 6), (7, 6 if t else 5), (8, 5), (9, 4), (10, 4 if t else 3)]
    for k, n in multi:
        for i, s in enumerate(sides(n)):
            for j in range(i, len(sides(n))):
                out.append(["multi", k, n, i, j])
    for k in range(2, 6):
        for p in partitions(k):
            out.append(["unique", list(p), 3 if k < 5 or t else 2])
    for align in (True, False):
        for pad in ("border", "zeros", "reflection"):
            lo = 2 if align else 1
            for s in [s for s in ordered(4) if min(s) >= lo]:
                out.append(["maps", 2, 4, list(s), align, pad])
            n3 = 4
            for s in [s for s in ordered(n3) if min(s) >= lo]:
                out.append(["maps", 3, n3, list(s), align, pad])
    return out


def _h(shape, salt):
    n = shape[0] * shape[1] * 2
    x = (torch.arange(n, dtype=torch.float64) + 1 + 31 * salt) * 0.6180339887498949
    return (x - x.floor()).float().reshape(*shape, 2)


G = torch.linspace(0, 1, 7)
UV = torch.stack(torch.meshgrid(G, G, indexing="ij"), -1).reshape(-1, 2)
FUV = torch.arange(48).reshape(-1, 3)
BARY = torch.tensor([[1.0, 0, 0], [0, 1, 0], [0, 0, 1]])


def ref_sample(img, uv, align, pad):
    H, W, _ = img.shape
    x = uv[:, 0] * (W - 1) if align else uv[:, 0] * W - 0.5
    y = (1 - uv[:, 1]) * (H - 1) if align else (1 - uv[:, 1]) * H - 0.5
    out = torch.zeros(len(uv), img.shape[-1])
    x0, y0 = x.floor(), y.floor()
    for dx in (0, 1):
        for dy in (0, 1):
            xx, yy = (x0 + dx).long(), (y0 + dy).long()
            w = (1 - (x - xx).abs()) * (1 - (y - yy).abs())
            v = img[yy.clamp(0, H - 1), xx.clamp(0, W - 1)]
            if pad == "zeros":
                v = v * ((xx >= 0) & (yy >= 0) & (xx < W) & (yy < H))[:, None]
            out += w[:, None] * v
    return out


def check_maps(shapes, groups, align, pad):
    imgs = {}
    maps = []
    for s, g in zip(shapes, groups):
        if g not in imgs:
            imgs[g] = _h(s, g)
        maps.append(imgs[g])
    n = len(maps)
    tex = TexturesUV(maps=maps, faces_uvs=[FUV] * n, verts_uvs=[UV[:48].clone() for _ in range(n)], align_corners=align, padding_mode=pad)
    one = tex.join_scene()
    nf = n * len(FUV)
    pix = torch.arange(nf).repeat_interleave(3)[None, None, :, None]
    bary = BARY.repeat(nf, 1)[None, None, :, None]
    got = one.sample_textures(Fragments(pix_to_face=pix, zbuf=None, bary_coords=bary, dists=None)).reshape(n, 48, 2)
    want = torch.stack([ref_sample(m, UV[:48], align, pad) for m in maps])
    expect_close("images %s groups %s align %s padding %s: colour after merging into one map" % (shapes, groups, align, pad),
                 got, want, atol=1e-3)


def run(case, rec):
    kind = case[0]
    if kind == "replay":
        check_layout(case[1], pack_rectangles([tuple(s) for s in case[1]]))
        return
    if kind == "ordered":
        _, k, n, first = case
        for rest in itertools.product(ordered(n), repeat=k - 1):
            sizes = [tuple(first)] + list(rest)
            _pack(sizes, rec)
    elif kind == "multi":
        _, k, n, i, j = case
        s = sides(n)
        for rest in itertools.combinations_with_replacement(range(j, len(s)), k - 2):
            sizes = [s[i], s[j]] + [s[r] for r in rest]
            # alternate the orientation and order deterministically so that both forms occur
            sizes = [(b, a) if (q + len(rest)) % 2 else (a, b) for q, (a, b) in enumerate(sizes)]
            _pack(sizes[::2] + sizes[1::2], rec)
    elif kind == "unique":
        _, groups, n = case
        u = max(groups) + 1
        for sz in itertools.product(ordered(n), repeat=u):
            rects = [Rectangle(sz[g][0], sz[g][1], 1000 + 7 * g) for g in groups]
            plan = pack_unique_rectangles(rects)
            rec.step()
            rec.trace()
            try:
                check_layout([sz[g] for g in groups], plan, groups)
            except Violation as e:
                raise Violation("images %s groups %s: %s" % (sz, groups, e))
            rec.state([plan.total_size, plan.locations])
    else:
        _, k, n, first, align, pad = case
        lo = 2 if align else 1
        for rest in itertools.product([s for s in ordered(n) if min(s) >= lo], repeat=k - 1):
            shapes = [tuple(first)] + list(rest)
            for groups in partitions(k):
                if any(groups[a] == groups[b] and shapes[a] != shapes[b] for a in range(k) for b in range(a)):
                    continue
                check_maps(shapes, groups, align, pad)
                rec.step()
                rec.trace()
                rec.state([shapes, groups, align, pad])
    rec.sample({"case": case})


def _pack(sizes, rec):
    try:
        plan = pack_rectangles(sizes)
        check_layout(sizes, plan)
    except Exception as e:
        e.case = ["replay", sizes]
        raise
    rec.step()
    rec.trace()
    rec.state(repr(plan).encode())
