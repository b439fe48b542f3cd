"""C22: mesh regularisers, Laplacians and Taubin smoothing of all small meshes in all small batches against their definitions."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from checks.c21_subdivision import REP, meshes_of
from pytorch3d.loss import mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency
from pytorch3d.ops import cot_laplacian, laplacian, norm_laplacian, taubin_smoothing
from pytorch3d.structures import Meshes

PROPERTY = "C22"
ASSUMPTIONS = ["float32 meshes", "non-degenerate faces for the cotangent weights and normals (faces of zero area only in the edge loss)",
               "a batch without any face gives a zero loss"]
BOUNDS = {
    "quick": "all sets of up to 3 oriented triangles on 4 vertices, alone and inside a batch of 3, every ordered pair of 14 representative meshes (open, closed, 3 and 4 faces "
             "on an edge, repeated faces, unused vertices, no faces, no vertices) and every triple of 8 of them; 3 Laplacian methods, 3 target lengths, gradients; 4 smoothing settings",
    "thorough": "as quick with all sets of up to 4 triangles on 4 vertices, all triples of the 14",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64
REP = REP + [
    (6, [(0, 1, 2), (0, 1, 3), (0, 1, 4), (1, 0, 5)]),  # four faces on an edge
    (5, [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1), (2, 1, 4), (4, 3, 2)]),  # closed pyramid
]
TRIP = [0, 1, 3, 5, 6, 7, 12, 13]


def cases(tier):
    th = tier == "thorough"
    out = []
    ms = meshes_of(4, 4 if th else 3)
    for lo in range(0, len(ms), 30):
        out.append(["all", 4 if th else 3, lo, min(lo + 30, len(ms))])
    for a in range(len(REP)):
        out.append(["batch", [a]])
        out.append(["taubin", [a]])
        for b in range(len(REP)):
            out.append(["batch", [a, b]])
            out.append(["taubin", [a, b]])
    t = range(len(REP)) if th else TRIP
    for a in t:
        for b in t:
            out.append(["triples", a, b] + (["all"] if th else []))
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def positions(V, salt):
    k = torch.arange(V * 3, dtype=f64) + 17 * salt
    return (((k * 0.7548776662 + 0.5698402909 * k * k + 0.0137 * k ** 3) % 1) * 4 - 2).reshape(V, 3).float()


def edges_of(faces):
    return sorted({tuple(sorted(p)) for f in faces for p in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0]))})


def ref_edge(v, faces, t):
    e = edges_of(faces)
    if not e:
        return None
    return torch.stack([((v[a] - v[b]).norm() - t) ** 2 for a, b in e]).mean()


def ref_uniform_L(V, faces):
    L = -torch.eye(V, dtype=f64)
    nb = {}
    for a, b in edges_of(faces):
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)
    for a, l in nb.items():
        for b in l:
            L[a, b] = 1.0 / len(l)
    return L


def ref_cot_L(v, faces):
    V = len(v)
    L = torch.zeros(V, V, dtype=f64)
    area = torch.zeros(V, dtype=f64)
    v = v.detach()
    for f in faces:
        p = v[list(f)]
        A = torch.linalg.cross(p[1] - p[0], p[2] - p[0]).norm() / 2
        for k in range(3):
            i, j, o = f[k], f[(k + 1) % 3], f[(k + 2) % 3]
            a, b = v[i] - v[o], v[j] - v[o]
            c = (a * b).sum() / torch.linalg.cross(a, b).norm()
            L[i, j] += c
            L[j, i] += c
            area[f[k]] += A
    return L, area


def ref_lap(v, faces, method):
    V = len(v)
    if V == 0 or (not faces):
        return None if not faces else None
    if method == "uniform":
        return ((ref_uniform_L(V, faces) @ v).norm(dim=1)).mean()
    L, area = ref_cot_L(v, faces)
    s = L.sum(1, keepdim=True)
    if method == "cot":
        w = torch.where(s > 1e-9, 1 / s.clamp(min=1e-9), torch.zeros_like(s))
        return (L @ v * w - v).norm(dim=1).mean()
    ia = torch.where(area > 0, 1 / area.clamp(min=1e-30), area)[:, None]
    return ((L @ v - s * v) * 0.25 * ia).norm(dim=1).mean()


def ref_normal(v, faces):
    at = {}
    for f in faces:
        for k in range(3):
            at.setdefault(tuple(sorted((f[k], f[(k + 1) % 3]))), []).append(f[(k + 2) % 3])
    ls = []
    for (a, b), opp in at.items():
        for i, j in itertools.combinations(opp, 2):
            n0 = torch.linalg.cross(v[b] - v[a], v[i] - v[a])
            n1 = -torch.linalg.cross(v[b] - v[a], v[j] - v[a])
            ls.append(1 - (n0 @ n1) / n0.norm() / n1.norm())
    return torch.stack(ls).mean() if ls else None


def compare(name, fn, ref, sel, salt, rec, atol=2e-5, rtol=2e-4, gtol=1e-3):
    vs = [positions(V, k + salt).requires_grad_(True) for k, (V, _) in enumerate(sel)]
    m = Meshes(verts=vs, faces=[torch.tensor(f, dtype=torch.int64).reshape(-1, 3) for _, f in sel])
    got = fn(m)
    v6 = [v.detach().double().requires_grad_(True) for v in vs]
    parts = [ref(v, f) if f else None for v, (_, f) in zip(v6, sel)]
    parts = [p for p in parts if p is not None]
    want = sum(parts) / len(sel) if parts else torch.zeros((), dtype=f64)
    expect(got.numel() == 1 and bool(torch.isfinite(got).all()), lambda: "%s of %s is %s" % (name, [f for _, f in sel], got))
    expect_close("%s of the batch %s" % (name, sel), got.reshape(()), want, atol=atol, rtol=rtol)
    expect(got.requires_grad, name + ": no gradient")
    if parts:
        live = [k for k, (V, _) in enumerate(sel) if V]
        g = torch.autograd.grad(got, [vs[k] for k in live], allow_unused=True)
        r = torch.autograd.grad(want, [v6[k] for k in live], allow_unused=True)
        sc = max([1.0] + [float(x.abs().max()) for x in r if x is not None])
        for k, a, b in zip(live, g, r):
            b = torch.zeros_like(v6[k]) if b is None else b
            a = torch.zeros_like(vs[k]) if a is None else a
            expect_close("%s: gradient for element %d of the batch %s" % (name, k, sel), a, b, atol=gtol * sc, rtol=gtol)
    else:
        got.sum().backward()
    rec.step()


def check_all(sel, salt, rec):
    for t in (0.0, 0.7, 3.0):
        compare("edge loss to %s" % t, (lambda m: mesh_edge_loss(m, t)) if t else mesh_edge_loss, lambda v, f: ref_edge(v, f, t), sel, salt, rec)
    ref = lambda method: (lambda v, f: ref_lap(v, f, method))
    # meshes without faces have vertices, too: their Laplacian is taken from the formula
    for method in ("uniform", "cot", "cotcurv"):
        compare_lap(method, sel, salt, rec)
    compare("normal consistency", mesh_normal_consistency, ref_normal, sel, salt, rec, atol=1e-4)


def compare_lap(method, sel, salt, rec):
    if not any(f for _, f in sel):
        sel2 = sel
        compare("Laplacian loss " + method, lambda m: mesh_laplacian_smoothing(m, method), lambda v, f: None, sel2, salt, rec)
        return

    def ref(v, f):
        return ref_lap(v, f, method)

    # a mesh with vertices and no faces takes part as isolated vertices, as unused vertices of other meshes do
    def fn(m):
        return mesh_laplacian_smoothing(m, method) if method != "uniform" or salt % 2 else mesh_laplacian_smoothing(m)

    vs = None
    if any(V and not f for V, f in sel):
        # the definition for isolated vertices: -v (uniform, cot), 0 (cotcurv)
        def ref2(v, f):
            return ref_lap(v, f, method) if f else (v.norm(dim=1).mean() if method != "cotcurv" and len(v) else None)

        compare_iso("Laplacian loss " + method, fn, ref2, sel, salt, rec)
    else:
        compare("Laplacian loss " + method, fn, ref, sel, salt, rec, gtol=3e-3, rtol=1e-3)


def compare_iso(name, fn, ref, sel, salt, rec):
    vs = [positions(V, k + salt) for k, (V, _) in enumerate(sel)]
    m = Meshes(verts=vs, faces=[torch.tensor(f, dtype=torch.int64).reshape(-1, 3) for _, f in sel])
    parts = [ref(v.double(), f) for v, (_, f) in zip(vs, sel)]
    want = sum(p for p in parts if p is not None) / len(sel)
    expect_close("%s of the batch %s" % (name, sel), fn(m).reshape(()), want, atol=2e-5, rtol=1e-3)
    rec.step()


def check_matrices(sel, salt, rec):
    vs = [positions(V, k + salt) for k, (V, _) in enumerate(sel)]
    fs = [torch.tensor(f, dtype=torch.int64).reshape(-1, 3) for _, f in sel]
    if not any(f for _, f in sel):
        return
    m = Meshes(verts=vs, faces=fs)
    vp, fp, ep = m.verts_packed(), m.faces_packed(), m.edges_packed()
    V = len(vp)
    off, packed = 0, []
    for n, f in sel:
        packed += [tuple(x + off for x in t) for t in f]
        off += n
    U = ref_uniform_L(V, packed)
    expect_close("laplacian() of %s" % sel, laplacian(vp, ep).to_dense(), U, atol=1e-6)
    expect_close("laplacian_packed() of %s" % sel, m.laplacian_packed().to_dense(), U, atol=1e-6)
    L, area = ref_cot_L(vp.double(), packed)
    gl, ga = cot_laplacian(vp, fp)
    expect_close("cot_laplacian of %s" % sel, gl.to_dense(), L, atol=1e-4, rtol=2e-3)
    ia = torch.where(area > 0, 1 / area.clamp(min=1e-30), area)[:, None]
    expect_close("inverse areas of %s" % sel, ga, ia, atol=1e-5, rtol=2e-3)
    N = torch.zeros(V, V, dtype=f64)
    for a, b in edges_of(packed):
        N[a, b] = N[b, a] = 1 / (vp[a].double() - vp[b].double()).norm()
    expect_close("norm_laplacian of %s" % sel, norm_laplacian(vp, ep).to_dense(), N, atol=1e-5, rtol=1e-4)
    rec.step(5)


def ref_taubin(v, faces, lambd, mu, it):
    v = v.double()
    e = edges_of(faces)
    for _ in range(it):
        for w in (lambd, mu):
            W = torch.zeros(len(v), len(v), dtype=f64)
            for a, b in e:
                W[a, b] = W[b, a] = 1 / ((v[a] - v[b]).norm() + 1e-12)
            s = W.sum(1, keepdim=True)
            avg = torch.where(s > 0, W @ v / s.clamp(min=1e-30), v)
            v = (1 - w) * v + w * avg
    return v


def run_taubin(case, rec):
    sel = [REP[i] for i in case[1]]
    if not any(f for _, f in sel):
        return
    vs = [positions(V, k + 3) for k, (V, _) in enumerate(sel)]
    fs = [torch.tensor(f, dtype=torch.int64).reshape(-1, 3) for _, f in sel]
    m = Meshes(verts=vs, faces=fs)
    for lambd, mu, it in ((0.53, -0.53, 10), (0.4, -0.2, 1), (0.7, -0.75, 2), (1.0, 0.0, 1), (0.3, -0.3, 0)):
        r = taubin_smoothing(m, lambd, mu, it) if it < 10 else taubin_smoothing(m)
        expect(len(r) == len(sel), "taubin_smoothing: number of meshes")
        for k, (V, f) in enumerate(sel):
            tag = "taubin_smoothing(%s, %s, %s) element %d of %s" % (lambd, mu, it, k, sel)
            expect_close(tag, r.verts_list()[k].reshape(-1, 3), ref_taubin(vs[k], f, lambd, mu, it), atol=2e-4, rtol=1e-3)
            expect_close(tag + ": faces", r.faces_list()[k], fs[k])
        for a, b in zip(m.verts_list(), vs):
            expect(torch.equal(a, b), "taubin_smoothing changed its input")
        rec.step()
    rec.trace()
    rec.state(case)


def run_all(case, rec):
    _, k, lo, hi = case
    for f in meshes_of(4, k)[lo:hi]:
        check_all([(4, f)], 1, rec)
        check_matrices([(4, f)], 1, rec)
        check_all([(3, [(0, 1, 2)]), (4, f), (4, f[::-1])], 2, rec)
        rec.trace()
        rec.state(f)


def run_batch(case, rec):
    sel = [REP[i] for i in case[1]]
    check_all(sel, 4, rec)
    check_matrices(sel, 4, rec)
    rec.trace()
    rec.state(case)


def run_triples(case, rec):
    a, b = case[1:3]
    for c in (range(len(REP)) if len(case) > 3 else TRIP):
        sel = [REP[a], REP[b], REP[c]]
        check_all(sel, 5, rec)
        rec.trace()
        rec.state([a, b, c])
