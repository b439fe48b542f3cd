"""C25: samples drawn from surfaces and distributions lie where the distribution is.

The random generator is replaced by one that hands out every value of a lattice: one call of the real sampler then
covers every (face, barycentric draw) combination.  Each sample is compared with exact geometry.  Inverse-transform
sampling runs for every weight vector over an alphabet and every quantile of a lattice, for every batch size and
number of threads.
"""
import itertools
import math

import torch

from mc.core import Violation, expect, expect_close

PROPERTY = "C25"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 2
BOUNDS = {
    "quick": "all batches of up to 3 of 6 meshes (none, one, two, three faces, with zero-area faces and unused "
             "vertices), each with every textures kind, normals on/off, all faces x a 12x12 lattice of barycentric "
             "draws; sample_pdf: all weight vectors of up to 4 bins over {0, 1e-7, 0.5, 1, 3}, 3 bin layouts, 41 "
             "quantiles, C++ and Python, batch sizes 1..9 x 1..4 threads with guard rows",
    "thorough": "batches of up to 4 meshes, 24x24 lattice; weight vectors of up to 5 bins; batch sizes up to 17",
}
ASSUMPTIONS = [
    "random draws go through torch.multinomial/Tensor.multinomial and torch.rand; other sources are only checked for the "
    "draws that happen (legality, not proportionality)",
    "every non-empty mesh has a face of positive area; quantiles are exact to eps = 1e-5 of the total weight plus float error",
]
EPS = 1e-5


def mesh_pool():
    """(verts, faces); faces of one mesh are disjoint so that a point identifies its face."""
    tri = ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [(0, 1, 2)])
    two = ([(0, 0, 1), (2, 0, 1), (0, 1, 1), (5, 5, 5), (6, 5, 5), (5, 5, 6), (9, 9, 9)], [(0, 1, 2), (3, 4, 5)])
    # zero-area faces (repeated vertex, collinear) first, in the middle, last
    deg = ([(0, 0, 2), (1, 0, 2), (0, 2, 3), (3, 0, 2), (4, 0, 2), (3, 1, 2)],
           [(0, 0, 1), (2, 1, 0), (0, 1, 3), (3, 4, 5), (4, 4, 4)])
    big = ([(-4, 0, 0), (-1, 0, 0), (-4, 4, 0), (-4, 0, 7), (-4, 1, 7), (-4, 0, 8)], [(2, 0, 1), (3, 4, 5)])
    empty = ([], [])
    vertsonly = ([(1, 1, 1), (2, 2, 2)], [])
    return [tri, two, deg, big, empty, vertsonly]


def build(batch, kind):
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
    from pytorch3d.structures import Meshes

    pool = mesh_pool()
    verts = [torch.tensor(pool[i][0], dtype=torch.float32).reshape(-1, 3) for i in batch]
    faces = [torch.tensor(pool[i][1], dtype=torch.int64).reshape(-1, 3) for i in batch]
    tex = None
    if kind == "vertex":
        tex = TexturesVertex([torch.stack([torch.arange(len(v)).float() + 10 * n, torch.arange(len(v)).float() ** 2], 1)
                              .reshape(len(v), 2) for n, v in enumerate(verts)])
    elif kind == "uv":
        # a map that is linear in (u, v): bilinear look-up reproduces it exactly, align_corners=True
        H, W = 4, 5
        maps = torch.stack([torch.stack([torch.linspace(0, 1, W)[None].expand(H, W) + n,
                                         torch.linspace(1, 0, H)[:, None].expand(H, W) * 3], -1) for n in range(len(batch))])
        uvs = [torch.tensor([[((3 * k) % 7) / 7.0, ((2 * k) % 5) / 5.0] for k in range(max(len(v), 1))]) for v in verts]
        tex = TexturesUV(maps, faces, uvs)
    elif kind == "atlas":
        tex = TexturesAtlas([(torch.arange(len(f) * 3).reshape(-1, 1, 1, 3) + 100.0 * n) for n, f in enumerate(faces)])
    return verts, faces, tex, Meshes(verts, faces, tex)


class Draws:
    """Replaces the generator by all faces of positive probability x a lattice of uniform draws."""

    def __init__(self, L):
        self.L = L
        self.probs = None
        self.used_rand = self.used_multi = 0

    def lattice(self):
        L = self.L
        g = (torch.arange(L) + 0.5) / L
        uv = torch.stack(torch.meshgrid(g, g, indexing="ij"), 0).reshape(2, -1)
        # and the corners of what rand can return
        top = 1.0 - 2.0 ** -24
        extra = torch.tensor([[0.0, 0.0, top, top, 0.5], [0.0, top, 0.0, top, 0.0]])
        return torch.cat([uv, extra], 1)

    def multinomial(self, probs, num_samples, replacement=False, **k):
        self.used_multi += 1
        p = probs.detach()
        bad = ~torch.isfinite(p) | (p < 0)
        if bool(bad.any()) or bool((p.sum(-1) <= 0).any()):
            raise RuntimeError("probability tensor contains either `inf`, `nan` or element < 0, or sums to zero")
        self.probs = p.clone()
        n = self.lattice().shape[1]
        out = torch.zeros(p.shape[:-1] + (num_samples,), dtype=torch.int64)
        rows = p.reshape(-1, p.shape[-1])
        for r, row in enumerate(rows):
            support = row.nonzero().flatten().tolist()
            idx = [support[(s // n) % len(support)] for s in range(num_samples)]
            out.reshape(-1, num_samples)[r] = torch.tensor(idx)
        return out

    def rand(self, *size, dtype=None, device=None, **k):
        self.used_rand += 1
        if len(size) == 1 and not isinstance(size[0], int):
            size = tuple(size[0])
        lat = self.lattice()
        S = size[-1]
        rep = lat[:, torch.arange(S) % lat.shape[1]]
        if size[0] == 2:
            out = rep.reshape((2,) + (1,) * (len(size) - 2) + (S,)).expand(size)
        else:
            out = rep[self.used_rand % 2].expand(size)
        return out.clone().to(dtype or torch.float32)

    def __enter__(self):
        self.saved = (torch.multinomial, torch.Tensor.multinomial, torch.rand)
        torch.multinomial = self.multinomial
        me = self
        torch.Tensor.multinomial = lambda t, *a, **k: me.multinomial(t, *a, **k)
        torch.rand = self.rand
        return self

    def __exit__(self, *a):
        torch.multinomial, torch.Tensor.multinomial, torch.rand = self.saved


def locate(p, verts, faces):
    """For every point: (face, barycentric coordinates), -1 when on no face."""
    P = p.double()
    face = torch.full((len(P),), -1, dtype=torch.int64)
    bary = torch.zeros(len(P), 3, dtype=torch.float64)
    for f, (i, j, k) in enumerate(faces.tolist()):
        a, b, c = (verts[q].double() for q in (i, j, k))
        n = torch.linalg.cross(b - a, c - a)
        if n.norm() < 1e-9:
            continue
        w = torch.stack([torch.linalg.cross(b - P, c - P) @ n, torch.linalg.cross(c - P, a - P) @ n,
                         torch.linalg.cross(a - P, b - P) @ n], 1) / (n @ n)
        off = ((P - a) @ n / n.norm()).abs()
        ok = (w > -1e-5).all(1) & (off < 1e-4)
        face[ok] = f
        bary[ok] = w[ok]
    return face, bary


def run_mesh(case, rec):
    from pytorch3d.ops import sample_points_from_meshes

    _, batch, kind, L = case
    verts, faces, tex, meshes = build(batch, kind)
    what = "meshes %s textures=%s" % (batch, kind)
    if all(len(f) == 0 for f in faces):
        try:
            sample_points_from_meshes(meshes, 2)
        except ValueError:
            rec.trace()
            return
        raise Violation("%s: an empty batch is accepted" % what)
    n_lat = L * L + 5
    support = [sum(1 for t in f.tolist() if torch.linalg.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]]).norm() > 0)
               for v, f in zip(verts, faces)]
    lcm = math.lcm(*[s for s in support if s])
    S = lcm * n_lat
    first = None
    for normals, textures in itertools.product((False, True), (False, True)):
        if textures and kind == "none":
            continue
        for num in ((S, 1) if normals else (S,)):
            with Draws(L) as dr:
                out = sample_points_from_meshes(meshes, num, return_normals=normals, return_textures=textures)
            out = out if isinstance(out, tuple) else (out,)
            expect(len(out) == 1 + normals + textures, "%s: %d outputs" % (what, len(out)))
            check_samples(what, out, normals, textures, verts, faces, kind, num, rec)
            if num != S:
                continue
            if first is None:
                first = out[0]
                if dr.used_multi:
                    check_probs(what, dr.probs, verts, faces)
                    if dr.used_rand:
                        check_uniform(what, out[0], verts, faces, L)
            rec.step(S * len(batch))
    if kind == "none":
        try:
            sample_points_from_meshes(meshes, 2, return_textures=True)
        except ValueError:
            pass
        else:
            raise Violation("%s: textures sampled from a mesh without textures" % what)
    # real generator
    for seed in range(2):
        torch.manual_seed(seed)
        out = sample_points_from_meshes(meshes, 7, return_normals=True, return_textures=kind != "none")
        check_samples(what, out, True, kind != "none", verts, faces, kind, 7, rec)
    rec.trace()


def check_samples(what, out, normals, textures, verts, faces, kind, num, rec):
    pts = out[0]
    expect(tuple(pts.shape) == (len(verts), num, 3) and pts.dtype == torch.float32, "%s: samples of shape %s" % (what, tuple(pts.shape)))
    for n, (v, f) in enumerate(zip(verts, faces)):
        if len(f) == 0:
            for o in out:
                expect(tuple(o.shape[:2]) == (len(verts), num) and not o[n].any(), "%s: mesh %d has no faces but samples %s" % (what, n, o[n].flatten()[:4].tolist()))
            continue
        face, bary = locate(pts[n], v, f)
        if bool((face < 0).any()):
            i = int((face < 0).nonzero()[0])
            raise Violation("%s: sample %s of mesh %d lies on none of its faces of positive area" % (what, pts[n, i].tolist(), n))
        if normals:
            tri = v[f[face]].double()
            want = torch.linalg.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0])
            want = want / want.norm(dim=1, keepdim=True)
            expect_close("%s: normals of mesh %d" % (what, n), out[1][n], want, atol=1e-5, rtol=0)
        if textures:
            got = out[-1][n]
            if kind == "vertex":
                a = f[face].double()
                want = torch.stack([((a + 10 * n) * bary).sum(1), (a ** 2 * bary).sum(1)], 1)
            elif kind == "uv":
                uv = torch.stack([((3 * f[face]) % 7) / 7.0, ((2 * f[face]) % 5) / 5.0], -1).double()
                uv = (uv * bary[..., None]).sum(1)
                want = torch.stack([uv[:, 0] + n, uv[:, 1] * 3], 1)
            else:
                want = (torch.arange(len(f) * 3).reshape(-1, 3)[face] + 100.0 * n)
            expect_close("%s: texture at the samples of mesh %d" % (what, n), got, want, atol=2e-3, rtol=0)
        rec.state((what, n, num, face))


def check_probs(what, probs, verts, faces):
    """What the faces are drawn with is proportional to their areas."""
    valid = [n for n, f in enumerate(faces) if len(f)]
    rows = {len(valid): valid, len(verts): list(range(len(verts)))}.get(probs.shape[0])
    if probs.ndim != 2 or rows is None:
        return
    for row, n in zip(probs, rows):
        f, v = faces[n], verts[n]
        if len(f) == 0:
            continue
        area = torch.tensor([float(torch.linalg.cross((v[j] - v[i]).double(), (v[k] - v[i]).double()).norm()) for i, j, k in f.tolist()])
        if probs.shape[1] < len(f):
            return
        expect_close("%s: face probabilities of mesh %d" % (what, n), row[:len(f)] / row.sum(), area / area.sum(), atol=1e-6)
        expect(not row[len(f):].any(), "%s: padding of mesh %d has a positive probability" % (what, n))


def check_uniform(what, pts, verts, faces, L):
    """The lattice of draws spreads evenly over the face: 16 equal sub-triangles get their share."""
    for n, (v, f) in enumerate(zip(verts, faces)):
        if len(f) == 0:
            continue
        face, bary = locate(pts[n], v, f)
        for q in face.unique().tolist():
            b = bary[face == q]
            # cells of side 1/4: count by floors of the coordinates
            c = (b * 4).floor().clamp(max=3)
            cells = {}
            for key in map(tuple, torch.cat([c[:, :2], ((b[:, 0] * 4 - c[:, 0]) + (b[:, 1] * 4 - c[:, 1]) > 1)[:, None].double()], 1).tolist()):
                cells[key] = cells.get(key, 0) + 1
            share = len(b) / 16
            expect(len(cells) >= 16 and all(abs(k - share) <= 0.6 * share + 4 for k in cells.values() if k > 6),
                   "%s: samples on face %d of mesh %d are not even: %s of %d" % (what, q, n, sorted(cells.values()), len(b)))


# ---------------------------------------------------------------- inverse-transform sampling
BINS = {"unit": lambda n: [float(i) for i in range(n + 1)],
        "uneven": lambda n: [i * i * 0.5 - 2.0 for i in range(n + 1)],
        "repeat": lambda n: [0.0] + [float((i + 1) // 2) for i in range(1, n + 1)]}
ALPHA = (0.0, 1e-7, 0.5, 1.0, 3.0)


def quantiles(w):
    qs = [i / 20 for i in range(21)] + [1 - 2.0 ** -24, 2.0 ** -24]
    tot, acc = sum(w), 0.0
    if tot > 0:
        for x in w:
            acc += x
            for d in (-1e-3, 0.0, 1e-3):
                if 0 <= acc / tot + d <= 1:
                    qs.append(acc / tot + d)
    return sorted(set(qs))


def cdf_range(bins, w, x):
    """Lowest and highest cumulative probability at the point x (they differ where bins of no width have weight)."""
    tot = sum(w)
    lo = hi = 0.0
    for a, b, k in zip(bins, bins[1:], w):
        if a == b:
            hi += k if a <= x + 1e-5 * max(1, abs(x)) else 0
            lo += k if a < x - 1e-5 * max(1, abs(x)) else 0
        else:
            r = min(max((x - a) / (b - a), 0), 1) * k
            lo += r
            hi += r
    return lo / tot, hi / tot


def check_quantiles(what, bins, w, us, xs, tol):
    prev = None
    for u, x in zip(us, xs):
        expect(bins[0] - 1e-6 <= x <= bins[-1] + 1e-6, "%s: sample %r outside [%g, %g]" % (what, x, bins[0], bins[-1]))
        expect(prev is None or x >= prev - 1e-5, "%s: samples not in the order of the draws: %r after %r" % (what, x, prev))
        prev = x
        if sum(w) > 1e-3:
            lo, hi = cdf_range(bins, w, x)
            expect(lo - tol <= u <= hi + tol, "%s: sample %r for quantile %r, but the cumulative probability there is %r" % (what, x, u, lo))


def run_pdf(case, rec):
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf, sample_pdf_python

    _, n, layout = case
    bins = BINS[layout](n)
    ws = [w for w in itertools.product(ALPHA, repeat=n)]
    qs = [quantiles(w) for w in ws]
    S = max(map(len, qs))
    qs = [q + [q[-1]] * (S - len(q)) for q in qs]
    U = torch.tensor(qs)
    W = torch.tensor(ws)
    B = torch.tensor(bins)[None].expand(len(ws), -1).contiguous()
    real = torch.rand
    for name, fn in (("sample_pdf", sample_pdf), ("sample_pdf_python", sample_pdf_python)):
        calls = []

        def fake(*size, **k):
            calls.append(1)
            size = tuple(size[0]) if len(size) == 1 and not isinstance(size[0], int) else size
            return U.reshape(size).clone().to(k.get("dtype") or torch.float32)

        for shape in ((len(ws),), (1, len(ws))):
            keep = (B.clone(), W.clone())
            torch.rand = fake
            try:
                out = fn(B.reshape(shape + (-1,)), W.reshape(shape + (-1,)), S)
            finally:
                torch.rand = real
            expect(tuple(out.shape) == shape + (S,), "%s: output shape %s" % (name, tuple(out.shape)))
            expect(torch.equal(B, keep[0]) and torch.equal(W, keep[1]), "%s changed its inputs" % name)
            if calls:
                for w, u, x in zip(ws, U.tolist(), out.reshape(-1, S).tolist()):
                    what = "%s bins %s weights %s" % (name, bins, w)
                    check_quantiles(what, bins, w, u, x, 3e-5 * max(1.0, n / max(sum(w), 1e-9)))
            rec.step(len(ws) * S)
        for k in (1, 2, 5, 8):
            out = fn(B, W, k, det=True)
            us = torch.linspace(0, 1, k).tolist()
            for w, x in zip(ws, out.tolist()):
                check_quantiles("%s det n=%d bins %s weights %s" % (name, k, bins, w), bins, w, us, x,
                                3e-5 * max(1.0, n / max(sum(w), 1e-9)))
            one = fn(B[3], W[3], k, det=True)
            expect_close("%s without batch dimension" % name, one, out[3])
            # non-contiguous inputs
            nc = fn(B.t().contiguous().t(), W.t().contiguous().t(), k, det=True)
            expect_close("%s on transposed storage" % name, nc, out)
        torch.manual_seed(1)
        out = fn(B, W, 5)
        expect(bool(((out >= bins[0] - 1e-6) & (out <= bins[-1] + 1e-6)).all()), "%s: random samples outside the bins" % name)
        rec.trace(len(ws))
        for bad in ("negative", "shape", "batch"):
            w2 = W.clone()
            b2 = B
            if bad == "negative":
                w2[0, 0] = -1.0
            elif bad == "shape":
                b2 = torch.cat([B, B[:, -1:]], 1)
            elif name == "sample_pdf":
                b2 = B[:-1]
            if bad != "negative" and name != "sample_pdf":
                continue
            try:
                fn(b2, w2, 3)
            except ValueError:
                continue
            raise Violation("%s: %s weights/bins are accepted" % (name, bad))
    for w in ws:
        rec.state((n, layout, w))


def run_threads(case, rec):
    """Every split of a batch over threads: each row is computed, the rows around are not touched."""
    from pytorch3d import _C
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf

    _, threads, batch = case
    old = torch.get_num_threads()
    torch.set_num_threads(threads)
    try:
        rows = batch + 4
        bins = torch.arange(4.0)[None].expand(rows, 4).contiguous()
        W = torch.tensor([[1.0 + r, 2.0, 0.5 * (r % 3)] for r in range(rows)])
        U = torch.linspace(0, 0.99, 6)[None].expand(rows, 6).contiguous()
        out = U.clone()
        view = out[2:2 + batch]
        _C.sample_pdf(bins[2:2 + batch], W[2:2 + batch], view, EPS)
        for r in range(rows):
            if 2 <= r < 2 + batch:
                check_quantiles("%d threads, batch of %d, row %d" % (threads, batch, r - 2), [0.0, 1.0, 2.0, 3.0],
                                W[r].tolist(), U[r].tolist(), out[r].tolist(), 5e-5)
            else:
                expect(torch.equal(out[r], U[r]), "%d threads, batch of %d: row %d after the end of the batch is overwritten"
                       % (threads, batch, r - 2 - batch) if r >= 2 else "row before the batch is overwritten")
        full = sample_pdf(bins[:batch], W[:batch], 7, det=True)
        for r in range(batch):
            expect_close("%d threads, batch of %d: row %d alone" % (threads, batch, r), full[r],
                         sample_pdf(bins[r:r + 1], W[r:r + 1], 7, det=True)[0])
        rec.state((threads, batch))
        rec.step(batch)
        rec.trace()
    finally:
        torch.set_num_threads(old)


def cases(tier):
    quick = tier == "quick"
    out = []
    for threads in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 8):
        for batch in range(1, 10 if quick else 18):
            out.append(["threads", threads, batch])
    for n in range(1, 5 if quick else 6):
        for layout in BINS:
            out.append(["pdf", n, layout])
    L = 12 if quick else 24
    for k in (1, 2, 3) if quick else (1, 2, 3, 4):
        for batch in itertools.product(range(6), repeat=k):
            kinds = ("none", "vertex", "uv", "atlas")
            if k >= 3:
                kinds = (kinds[sum(batch) % 4], kinds[(sum(batch) + batch[0] + 1) % 4])
            for kind in sorted(set(kinds)):
                out.append(["mesh", list(batch), kind, L if k < 3 else 6])
    return out


def run(case, rec):
    {"mesh": run_mesh, "pdf": run_pdf, "threads": run_threads}[case[0]](case, rec)
    rec.sample({"case": case})
