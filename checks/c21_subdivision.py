"""C21: mesh subdivision of all small meshes and batches, by the identity of every vertex (corner or edge midpoint)."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.ops import SubdivideMeshes
from pytorch3d.structures import Meshes

PROPERTY = "C21"
ASSUMPTIONS = ["a batch has at least one face (batches without any face have no packed form in this library)", "faces have three different vertices", "a prepared subdivision is used for meshes with the topology it was prepared for"]
BOUNDS = {
    "quick": "all sets of up to 3 oriented triangles on 4 vertices (incl. opposite copies and unused vertices), alone and repeated, every ordered pair and triple from 12 "
             "representative meshes incl. empty ones as batches, per-vertex features of 1 and 3 channels, gradients, with prepared topology for 1-3 other positions, "
             "subdivision repeated twice",
    "thorough": "as quick with all sets of up to 4 triangles on 4 vertices, sets of up to 2 on 5 vertices, and quadruples of representatives",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64


def tris(V):
    out = []
    for c in itertools.combinations(range(V), 3):
        out.append(c)
        out.append((c[0], c[2], c[1]))
    return out


def meshes_of(V, kmax):
    ts = tris(V)
    return [list(s) for k in range(1, kmax + 1) for s in itertools.combinations(ts, k)]


REP = [
    (0, []), (3, []), (3, [(0, 1, 2)]), (4, [(0, 1, 2), (2, 1, 3)]), (5, [(4, 2, 0)]), (4, [(0, 1, 2), (0, 2, 3), (0, 3, 1), (3, 2, 1)]),
    (5, [(0, 1, 2), (1, 0, 3), (0, 1, 4)]), (6, [(3, 4, 5), (0, 1, 2)]), (3, [(0, 1, 2), (0, 2, 1)]), (3, [(2, 0, 1), (2, 0, 1)]),
    (5, [(0, 1, 2), (0, 3, 4)]), (4, [(3, 2, 1), (1, 2, 0)]),
]


def cases(tier):
    th = tier == "thorough"
    out = []
    for V, k in ((4, 4 if th else 3),) + (((5, 2),) if th else ()):
        ms = meshes_of(V, k)
        for lo in range(0, len(ms), 40):
            out.append(["all", V, k, lo, min(lo + 40, len(ms))])
    n = len(REP)
    for a in range(n):
        out.append(["batch", [a]])
        out.append(["prepared", a])
        for b in range(n):
            out.append(["batch", [a, b]])
    for a in range(n):
        for b in range(n):
            out.append(["triples", a, b, 4 if th else 3])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def positions(V, salt=0, dtype=torch.float32):
    k = torch.arange(V * 3, dtype=f64) + 17 * salt
    return (((k * 0.7548776662 + 0.5698402909 * k * k + 0.0137 * k ** 3) % 1) * 4 - 2).reshape(V, 3).to(dtype)


def identify(nv, v, faces, tag):
    """new vertex -> ('v', i) or ('e', i, j) by position and order: the old vertices come first, in order"""
    V = len(v)
    edges = sorted({tuple(sorted(p)) for f in faces for p in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0]))})
    expect(nv.shape[0] == V + len(edges), "%s: %d vertices, want %d + %d" % (tag, nv.shape[0], V, len(edges)))
    expect_close(tag + ": the old vertices", nv[:V], v, atol=1e-6)
    ids = [(i,) for i in range(V)]
    left = dict((e, (v[e[0]].double() + v[e[1]].double()) / 2) for e in edges)
    for k in range(V, nv.shape[0]):
        p = nv[k].double()
        hit = [e for e, q in left.items() if float((p - q).abs().max()) < 1e-5]
        expect(len(hit) == 1, lambda: "%s: vertex %d at %s is not the midpoint of one edge (candidates %s)" % (tag, k, p.tolist(), hit))
        ids.append(hit[0])
        del left[hit[0]]
    return ids


def canon(t):
    i = t.index(min(t, key=lambda x: (len(x), x)))
    return t[i:] + t[:i]


def want_faces(faces):
    out = []
    for a, b, c in faces:
        ab, bc, ca = (tuple(sorted(p)) for p in ((a, b), (b, c), (c, a)))
        out += [((a,), ab, ca), ((b,), bc, ab), ((c,), ca, bc), (ab, bc, ca)]
    return sorted((canon(t) for t in out), key=repr)


def check_one(nv, nf, v, faces, tag):
    if len(faces) == 0:
        expect(nf.shape[0] == 0, tag + ": faces out of nothing")
        expect_close(tag + ": vertices", nv.reshape(-1, 3), v.reshape(-1, 3))
        return [(i,) for i in range(len(v))]
    ids = identify(nv, v, faces, tag)
    expect(tuple(nf.shape) == (4 * len(faces), 3), "%s: %s faces, want %d" % (tag, tuple(nf.shape), 4 * len(faces)))
    expect(int(nf.min()) >= 0 and int(nf.max()) < nv.shape[0], tag + ": face index out of range")
    got = sorted((canon(tuple(ids[i] for i in t)) for t in nf.tolist()), key=repr)
    expect(got == want_faces(faces), lambda: "%s: faces %s become %s" % (tag, faces, got))
    return ids


def check_feats(nfe, fe, ids, tag):
    want = torch.stack([fe[list(i)].double().mean(0) for i in ids]) if ids else fe.double()
    expect_close(tag + ": features", nfe, want, atol=1e-6)


def build(sel, dtype=torch.float32, salt=0):
    vs = [positions(V, k + salt, dtype) for k, (V, _) in enumerate(sel)]
    fs = [torch.tensor(f, dtype=torch.int64).reshape(-1, 3) for _, f in sel]
    return vs, fs


def check_batch(sel, tag, rec, sub=None, C=None, grad=False, salt=0):
    if not any(f for _, f in sel):
        return None
    vs, fs = build(sel, salt=salt)
    if grad:
        vs = [v.requires_grad_(True) for v in vs]
    m = Meshes(verts=vs, faces=fs)
    s = sub or SubdivideMeshes()
    feats = None
    if C is not None:
        feats = positions(sum(V for V, _ in sel), 91 + salt)[:, :1].repeat(1, C) * torch.arange(1, C + 1)
    before = (m.verts_packed().clone(), m.faces_packed().clone())
    r = s(m, feats) if feats is not None else s(m)
    nm, nfe = r if feats is not None else (r, None)
    expect(len(nm) == len(sel), tag + ": number of meshes")
    expect_close(tag + ": the given mesh", m.verts_packed(), before[0])
    o = 0
    flo = torch.split(feats, [V for V, _ in sel]) if feats is not None else None
    loss, want_g = 0, []
    for k, ((V, f), nv, nf) in enumerate(zip(sel, nm.verts_list(), nm.faces_list())):
        t = "%s element %d (%d vertices, faces %s)" % (tag, k, V, f)
        ids = check_one(nv.detach(), nf, vs[k].detach(), f, t)
        if feats is not None:
            fe = nfe[k, :len(ids)] if nfe.dim() == 3 else nfe[o:o + len(ids)]
            check_feats(fe, flo[k], ids, t)
        o += len(ids)
        if grad and V:
            w = positions(len(ids), 55)
            loss = loss + (nv * w).sum()
            g = torch.zeros(V, 3, dtype=f64)
            for i, e in enumerate(ids):
                for x in e:
                    g[x] += w[i].double() / len(e)
            want_g.append((k, g))
    if nfe is not None and nfe.dim() == 2:
        expect(nfe.shape[0] == o, tag + ": number of feature rows")
    if grad and want_g:
        gs = torch.autograd.grad(loss, [vs[k] for k, _ in want_g])
        for (k, g), got in zip(want_g, gs):
            expect_close("%s: gradient of the vertices of element %d" % (tag, k), got, g, atol=1e-5)
    rec.step()
    return nm


def run_all(case, rec):
    _, V, kmax, lo, hi = case
    for f in meshes_of(V, kmax)[lo:hi]:
        tag = "subdivision"
        nm = check_batch([(V, f)], tag, rec, C=1)
        check_batch([(V, f)], "prepared subdivision", rec, sub=SubdivideMeshes(nm_src([(V, f)])), C=3, salt=3)
        check_batch([(V, f), (3, [(0, 1, 2)]), (V, f[::-1])], tag + " in a batch", rec, grad=True)
        # twice
        v2, f2 = nm.verts_list()[0], nm.faces_list()[0]
        n2 = SubdivideMeshes()(nm)
        check_one(n2.verts_list()[0], n2.faces_list()[0], v2, [tuple(t) for t in f2.tolist()], tag + " repeated of %s" % (f,))
        rec.trace()
        rec.state([V, f])


def nm_src(sel):
    vs, fs = build(sel)
    return Meshes(verts=vs, faces=fs)


def run_batch(case, rec):
    sel = [REP[i] for i in case[1]]
    for C, grad in ((None, True), (1, False), (3, False)):
        nm = check_batch(sel, "batch %s" % case[1], rec, C=C, grad=grad)
    if sum(len(f) for _, f in sel):
        n2 = SubdivideMeshes()(nm)
        for k in range(len(sel)):
            check_one(n2.verts_list()[k], n2.faces_list()[k], nm.verts_list()[k], [tuple(t) for t in nm.faces_list()[k].tolist()],
                      "batch %s subdivided twice, element %d" % (case[1], k))
    # from padded tensors of equal sizes, when all are equal
    rec.trace()
    rec.state(case)


def run_triples(case, rec):
    _, a, b, n = case
    for rest in itertools.product(range(len(REP)), repeat=n - 2):
        sel = [REP[a], REP[b]] + [REP[i] for i in rest]
        check_batch(sel, "batch %s" % ([a, b] + list(rest)), rec, C=1)
        rec.trace()
        rec.state([a, b, rest])


def run_prepared(case, rec):
    V, f = REP[case[1]]
    if not f:
        return
    src = nm_src([(V, f)])
    sub = SubdivideMeshes(src)
    for n in (1, 2, 3):
        for how in ("list", "padded"):
            sel = [(V, f)] * n
            vs, fs = build(sel, salt=5)
            m = Meshes(verts=vs, faces=fs) if how == "list" else Meshes(verts=torch.stack(vs), faces=torch.stack(fs))
            fe = positions(n * V, 13)
            new = SubdivideMeshes()
            for C, feats in (("none", None), ("packed", fe), ("padded", fe.reshape(n, V, 3))):
                r = sub(m, feats) if feats is not None else sub(m)
                p, pf = r if feats is not None else (r, None)
                for k in range(n):
                    t = "prepared subdivision of %s, element %d of %d, from %s" % (f, k, n, how)
                    ids = check_one(p.verts_list()[k], p.faces_list()[k], vs[k], f, t)
                    if pf is not None:
                        expect(pf.dim() == 3 and pf.shape[0] == n, t + ": feature shape")
                        check_feats(pf[k], fe.reshape(n, V, 3)[k], ids, t)
                q = new(m, fe) if feats is not None else new(m)
                q, qf = q if feats is not None else (q, None)
                expect_close("prepared and new subdivision: vertices", p.verts_packed(), q.verts_packed(), atol=1e-6)
                expect_close("prepared and new subdivision: faces", p.faces_packed(), q.faces_packed())
                if pf is not None:
                    expect_close("prepared and new subdivision: features", pf.reshape(-1, 3), qf, atol=1e-6)
                rec.step()
            rec.trace()
            rec.state([case, n, how])
