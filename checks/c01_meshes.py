"""C01: a batch of meshes is one geometry, whichever view of it is asked for, after any history."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene

PROPERTY = "C01"
ASSUMPTIONS = [
    "float32, CPU; vertex values are small distinct multiples of 1/8",
    "a batch without a single valid mesh is only required to keep its lists, length and emptiness",
    "explicitly supplied vertex normals are followed through copies only (the documentation lets other operations forget them)",
]
BOUNDS = {
    "quick": "histories op-op over 23 operations for 10 batches (list, float64 list or padded construction; empty, "
             "faceless, uneven and equal-sized members) and, for 3 of them, accessors-op-op, op-accessors-op and "
             "op-back to the source-op over 6 groups of accessors, plus every batch of up "
             "to 2 of 6 shapes under every single operation with every accessor group before it; two observation orders; every single accessor - operation - single accessor on 1 batch",
    "thorough": "as quick, for every batch of up to 3 of 6 shapes at depth 1 and 14 batches with op-op-op and "
                "warm-op-warm-op histories",
}
BUDGET = {"quick": 400, "thorough": 0}

# (verts, faces) shapes; a value grid makes every vertex different
SHAPES = {
    "e": (0, []),
    "v": (2, []),
    "t": (3, [[0, 1, 2]]),
    "q": (4, [[0, 1, 2], [2, 1, 3]]),
    "k": (4, [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]),
    "u": (5, [[4, 0, 2], [0, 4, 3]]),
}
_BASE = torch.tensor([[0.0, 0.0, 0.0], [1.0, 0.125, 0.25], [0.25, 1.0, -0.5], [0.5, 0.375, 1.0], [-0.75, 0.5, 0.625]])


def shape(name, i):
    n, f = SHAPES[name]
    v = _BASE[:n].clone() * (1.0 + 0.5 * i) + torch.tensor([0.25 * i, -0.125 * i, 0.5 * i])
    return v.reshape(n, 3), torch.tensor(f, dtype=torch.int64).reshape(len(f), 3)


def build(cfg):
    kind, names = cfg
    items = [shape(s, i) for i, s in enumerate(names)]
    if kind == "list64":
        items = [(v.double(), f) for v, f in items]
    if kind.startswith("list"):
        model = [(v.clone(), f.clone()) for v, f in items]
        return Meshes(verts=[v for v, _ in items], faces=[f for _, f in items]), model
    V = max([len(v) for v, _ in items] + [0])
    F = max([len(f) for _, f in items] + [0])
    vp = torch.zeros(len(items), V, 3)
    fp = torch.full((len(items), F, 3), -1, dtype=torch.int64)
    for i, (v, f) in enumerate(items):
        vp[i, : len(v)] = v
        vp[i, len(v):] = 7.0 + i  # a padded construction has V real vertices everywhere
        fp[i, : len(f)] = f
    model = [(vp[i].clone(), items[i][1].clone()) for i in range(len(items))]
    return Meshes(verts=vp, faces=fp), model


# ------------------------------------------------------------------ reference model
def m_valid(model):
    return any(len(v) > 0 and len(f) > 0 for v, f in model)


def m_packed(model):
    vs, fs, off = [], [], 0
    for v, f in model:
        vs.append(v)
        fs.append(f + off)
        off += len(v)
    return torch.cat(vs), torch.cat(fs)


def m_edges(model):
    """per mesh: sorted list of unique undirected edges (packed vertex numbers)"""
    out, off = [], 0
    for v, f in model:
        s = set()
        for a, b, c in f.tolist():
            for x, y in ((a, b), (b, c), (c, a)):
                s.add((min(x, y) + off, max(x, y) + off))
        out.append(sorted(s))
        off += len(v)
    return out


def m_face_vec(v, f):
    return torch.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]], dim=1)


def m_vnormals(v, f):
    n = torch.zeros_like(v)
    if len(f):
        fv = m_face_vec(v, f)
        for i, (a, b, c) in enumerate(f.tolist()):
            for k in (a, b, c):
                n[k] += fv[i]
    return n / n.norm(dim=1, keepdim=True).clamp(min=1e-6)


def first_idx(counts):
    out, t = [], 0
    for c in counts:
        out.append(t)
        t += c
    return torch.tensor(out, dtype=torch.int64)


def owner(counts):
    return torch.tensor([i for i, c in enumerate(counts) for _ in range(c)], dtype=torch.int64)


def pad(items, n, value):
    out = torch.full((len(items), n, 3), value, dtype=items[0].dtype)
    for i, x in enumerate(items):
        out[i, : len(x)] = x
    return out


class _X:
    pass


_CACHE = {}


def expectations(model):
    key = b"|".join(v.numpy().tobytes() + b"/" + f.numpy().tobytes() for v, f in model)
    x = _CACHE.get(key)
    if x is not None:
        return x
    if len(_CACHE) > 20000:
        _CACHE.clear()
    x = _CACHE[key] = _X()
    nv = [len(v) for v, _ in model]
    nf = [len(f) for _, f in model]
    x.nv, x.nf = torch.tensor(nv), torch.tensor(nf)
    x.vp, x.fp = m_packed(model)
    x.edges = m_edges(model)
    x.vown, x.fown, x.vfirst, x.ffirst = owner(nv), owner(nf), first_idx(nv), first_idx(nf)
    x.vpad = pad([v for v, _ in model], max(nv), 0.0)
    x.fpad = pad([f for _, f in model], max(nf), -1)
    x.p2p = torch.tensor([i * max(nv) + j for i, n in enumerate(nv) for j in range(n)])
    fv = m_face_vec(x.vp, x.fp)
    nrm = fv.norm(dim=1)
    x.area = nrm / 2
    x.fn = fv / nrm.clamp(min=1e-6)[:, None]
    x.fn_per = list(x.fn.split(nf))
    x.fn_pad = pad(x.fn_per, max(nf), 0.0)
    x.vn_per = [m_vnormals(v, f) for v, f in model]
    x.vn = torch.cat(x.vn_per)
    x.vn_pad = pad(x.vn_per, max(nv), 0.0)
    n = len(x.vp)
    adj = torch.zeros(n, n)
    for es in x.edges:
        for a, b in es:
            adj[a, b] = adj[b, a] = 1
    deg = adj.sum(1)
    # the diagonal is -1 everywhere, as the uniform Laplacian is documented
    x.lap = torch.where(deg[:, None] > 0, adj / deg.clamp(min=1)[:, None], torch.zeros(())) - torch.eye(n)
    return x


def observe(m, model, order, where):
    """Compare everything m shows with the model."""
    expect(len(m) == len(model), where + ": batch length %d, want %d" % (len(m), len(model)))
    valid = m_valid(model)
    expect(bool(m.isempty()) == (not valid), where + ": emptiness")
    nv = [len(v) for v, _ in model]
    nf = [len(f) for _, f in model]

    def lists():
        vl, fl = m.verts_list(), m.faces_list()
        expect(len(vl) == len(fl) == len(model), where + ": list lengths")
        for i, (v, f) in enumerate(model):
            expect_close(where + ": verts_list[%d]" % i, vl[i], v, dtype=True)
            expect_close(where + ": faces_list[%d]" % i, fl[i].reshape(-1, 3), f)

    if not valid:
        lists()
        if len(model):
            expect(m.verts_packed().numel() == 0 and m.faces_packed().numel() == 0, where + ": packed of an empty batch")
            expect(m.verts_padded().shape[0] == len(model) and m.faces_padded().shape[0] == len(model),
                   where + ": padded of an empty batch")
            expect(m.edges_packed().numel() == 0, where + ": edges of an empty batch")
        return
    x = expectations(model)
    vp, fp, edges = x.vp, x.fp, x.edges

    def packed():
        expect_close(where + ": verts_packed", m.verts_packed(), vp, dtype=True)
        expect_close(where + ": faces_packed", m.faces_packed(), fp)
        expect_close(where + ": verts_packed_to_mesh_idx", m.verts_packed_to_mesh_idx(), x.vown)
        expect_close(where + ": faces_packed_to_mesh_idx", m.faces_packed_to_mesh_idx(), x.fown)
        expect_close(where + ": mesh_to_verts_packed_first_idx", m.mesh_to_verts_packed_first_idx(), x.vfirst)
        expect_close(where + ": mesh_to_faces_packed_first_idx", m.mesh_to_faces_packed_first_idx(), x.ffirst)

    def counts():
        expect_close(where + ": num_verts_per_mesh", m.num_verts_per_mesh(), x.nv)
        expect_close(where + ": num_faces_per_mesh", m.num_faces_per_mesh(), x.nf)
        expect([bool(x) for x in m.valid] == [a > 0 and b > 0 for a, b in zip(nv, nf)], where + ": valid flags")

    def padded():
        expect_close(where + ": verts_padded", m.verts_padded(), x.vpad, dtype=True)
        expect_close(where + ": faces_padded", m.faces_padded(), x.fpad)
        idx = m.verts_padded_to_packed_idx()
        expect_close(where + ": verts_padded_to_packed_idx", idx, x.p2p)

    def edge_views():
        e = m.edges_packed()
        got = [tuple(sorted(x)) for x in e.tolist()]
        flat = [x for es in edges for x in es]
        expect(sorted(got) == sorted(flat), lambda: where + ": edges %s, want %s" % (sorted(got), flat))
        ne = [len(x) for x in edges]
        expect_close(where + ": num_edges_per_mesh", m.num_edges_per_mesh(), torch.tensor(ne))
        expect_close(where + ": mesh_to_edges_packed_first_idx", m.mesh_to_edges_packed_first_idx(), first_idx(ne))
        own = m.edges_packed_to_mesh_idx().tolist()
        vown = owner(nv)
        expect(own == [int(vown[a]) for a, _ in got], where + ": edges_packed_to_mesh_idx")
        expect(own == owner(ne).tolist(), where + ": edges are grouped by mesh")
        f2e = m.faces_packed_to_edges_packed()
        expect(tuple(f2e.shape) == (len(fp), 3), where + ": faces_packed_to_edges_packed shape")
        for i, (a, b, c) in enumerate(fp.tolist()):
            for k, (x, y) in enumerate(((b, c), (c, a), (a, b))):
                expect(got[int(f2e[i, k])] == (min(x, y), max(x, y)),
                       where + ": edge %d of face %d (opposite to its vertex %d)" % (k, i, k))

    def face_views():
        expect_close(where + ": faces_areas_packed", m.faces_areas_packed(), x.area)
        fn, per = x.fn, x.fn_per
        expect_close(where + ": faces_normals_packed", m.faces_normals_packed(), fn, atol=1e-4)
        got = m.faces_normals_list()
        expect(len(got) == len(per), where + ": faces_normals_list length")
        for g, w in zip(got, per):
            expect_close(where + ": faces_normals_list", g, w, atol=1e-4)
        expect_close(where + ": faces_normals_padded", m.faces_normals_padded(), x.fn_pad, atol=1e-4)

    def vert_normals():
        per = x.vn_per
        expect_close(where + ": verts_normals_packed", m.verts_normals_packed(), x.vn, atol=1e-4)
        got = m.verts_normals_list()
        expect(len(got) == len(per), where + ": verts_normals_list length")
        for g, w in zip(got, per):
            expect_close(where + ": verts_normals_list", g, w, atol=1e-4)
        expect_close(where + ": verts_normals_padded", m.verts_normals_padded(), x.vn_pad, atol=1e-4)

    def lap():
        got = m.laplacian_packed()
        got = got.to_dense() if got.is_sparse else got
        # the diagonal is -1 everywhere, as the uniform Laplacian is documented
        expect_close(where + ": laplacian_packed", got, x.lap)

    def boxes():
        if all(nv):
            want = torch.stack([torch.stack([v.min(0)[0], v.max(0)[0]], 1) for v, _ in model])
            expect_close(where + ": bounding boxes", m.get_bounding_boxes(), want)

    steps = [lists, packed, counts, padded, edge_views, face_views, vert_normals, lap, boxes]
    for s in steps if order == 0 else reversed(steps):
        s()


# ------------------------------------------------------------------ operations
WARM = {
    "w_packed": lambda m: m.verts_packed(),
    "w_padded": lambda m: m.verts_padded(),
    "w_edges": lambda m: m.edges_packed(),
    "w_normals": lambda m: (m.verts_normals_packed(), m.faces_areas_packed()),
    "w_lap": lambda m: m.laplacian_packed(),
    "w_all": lambda m: (m.verts_padded(), m.edges_packed(), m.verts_normals_packed(), m.faces_normals_padded(),
                        m.laplacian_packed(), m.isempty() or m.verts_padded_to_packed_idx()),
}


def _offsets(model):
    n = sum(len(v) for v, _ in model)
    return (torch.arange(n * 3, dtype=model[0][0].dtype).reshape(n, 3) * 0.375) % 1.25 - 0.25


def _off(model):
    o = _offsets(model).split([len(v) for v, _ in model])
    return [(v + d, f) for (v, f), d in zip(model, o)]


def _off3(model):
    return [(v + torch.tensor([0.5, -0.25, 1.0]), f) for v, f in model]


def _scale(model):
    return [(v * 2.0, f) for v, f in model]


def _svec(model):
    return torch.tensor([0.5 + 0.75 * i for i in range(len(model))])


def _scalev(model):
    return [(v * s, f) for (v, f), s in zip(model, _svec(model))]


def _new_padded(model):
    V = max(len(v) for v, _ in model)
    out = torch.zeros(len(model), V, 3, dtype=model[0][0].dtype)
    for i, (v, _) in enumerate(model):
        out[i, : len(v)] = v.flip(0) * 0.5 + 0.125
    return out


def _upd(model):
    n = _new_padded(model)
    return [(n[i, : len(v)].clone(), f) for i, (v, f) in enumerate(model)]


def _pick(model, idx):
    return [model[i] for i in idx]


def _sub_idx(model):
    out = []
    for i, (_, f) in enumerate(model):
        n = len(f)
        if n == 0:
            out.append([])
        elif n == 1:
            out.append([torch.tensor([0])])
        else:
            out.append([torch.tensor([n - 1]), torch.tensor([1, 0])])
    return out


def _sub(model):
    out = []
    for (v, f), sel in zip(model, _sub_idx(model)):
        for s in sel:
            ff = f[s]
            keep = sorted(set(ff.flatten().tolist()))
            new = {k: i for i, k in enumerate(keep)}
            out.append((v[keep], torch.tensor([[new[x] for x in t] for t in ff.tolist()], dtype=torch.int64)))
    return out


def _scene(model):
    if len(model) == 1:
        return model
    return [m_packed(model)]


def _list_idx(n):
    return [n - 1, 0] + ([n - 1] if n > 1 else [])


# name -> (in place?, real, model, needs a valid batch?)
OPS = {
    "offset_": (True, lambda m, mod: m.offset_verts_(_offsets(mod)), _off, True),
    "offset3_": (True, lambda m, mod: m.offset_verts_(torch.tensor([0.5, -0.25, 1.0])), _off3, True),
    "scale_": (True, lambda m, mod: m.scale_verts_(2.0), _scale, True),
    "scalev_": (True, lambda m, mod: m.scale_verts_(_svec(mod)), _scalev, True),
    "offset": (False, lambda m, mod: m.offset_verts(_offsets(mod)), _off, True),
    "offset3": (False, lambda m, mod: m.offset_verts(torch.tensor([0.5, -0.25, 1.0])), _off3, True),
    "scale": (False, lambda m, mod: m.scale_verts(2.0), _scale, True),
    "scalev": (False, lambda m, mod: m.scale_verts(_svec(mod)), _scalev, True),
    "update": (False, lambda m, mod: m.update_padded(_new_padded(mod)), _upd, True),
    "clone": (False, lambda m, mod: m.clone(), lambda mod: list(mod), False),
    "detach": (False, lambda m, mod: m.detach(), lambda mod: list(mod), False),
    "tocopy": (False, lambda m, mod: m.to("cpu", copy=True), lambda mod: list(mod), False),
    "get_last": (False, lambda m, mod: m[-1], lambda mod: [mod[-1]], False),
    "get_slice": (False, lambda m, mod: m[1:], lambda mod: mod[1:], False),
    "get_list": (False, lambda m, mod: m[_list_idx(len(mod))], lambda mod: _pick(mod, _list_idx(len(mod))), False),
    "get_bool": (False, lambda m, mod: m[torch.tensor([i % 2 == 0 for i in range(len(mod))])],
                 lambda mod: mod[::2], False),
    "get_long": (False, lambda m, mod: m[torch.tensor(_list_idx(len(mod)))],
                 lambda mod: _pick(mod, _list_idx(len(mod))), False),
    "extend": (False, lambda m, mod: m.extend(2), lambda mod: [x for x in mod for _ in range(2)], False),
    "join": (False, lambda m, mod: join_meshes_as_batch([m[0:1], m]), lambda mod: mod[:1] + mod, False),
    "scene": (False, lambda m, mod: join_meshes_as_scene(m), _scene, True),
    "scene_list": (False, lambda m, mod: join_meshes_as_scene([m, m[0]]), lambda mod: [m_packed(mod + mod[:1])], True),
    "submeshes": (False, lambda m, mod: m.submeshes(_sub_idx(mod)), _sub, True),
    "split": (False, lambda m, mod: m.split([1, len(mod) - 1])[1], lambda mod: mod[1:], False),
}


def apply(name, m, model):
    inplace, real, ref, need_valid = OPS[name]
    if len(model) == 0 or (need_valid and not m_valid(model)):
        return None
    return inplace, real(m, model), ref(model)


def cases(tier):
    warm, ops = list(WARM), list(OPS)
    names = list(SHAPES)
    out = []
    # every small batch, one operation, every cache state
    maxlen = 2 if tier == "quick" else 3
    for n in range(0, maxlen + 1):
        for combo in itertools.product(names, repeat=n):
            for kind in ("list", "padded"):
                cfg = [kind, list(combo)]
                if kind == "padded" and n == 0:
                    continue
                out.append([cfg, [[]]])
                for w in [None] + warm:
                    out.append([cfg, [([w] if w else []) + [o] for o in ops]])
    deep = [["list", ["q", "t"]], ["padded", ["t", "q"]], ["list", ["t", "e", "u"]], ["list", ["k", "k"]],
            ["padded", ["q", "q"]], ["list", ["v", "q", "t"]], ["list", ["u"]], ["padded", ["t", "e", "q"]],
            ["list", ["e", "t"]], ["list64", ["q", "t"]]]
    if tier == "thorough":
        deep += [["list", ["t", "q", "k"]], ["padded", ["k", "u"]], ["list", ["e", "v"]], ["list", ["q", "e"]],
                 ["padded", ["v", "t"]]]
    seqs = [[a, b] for a in ops for b in ops + ["prev"]]
    seqs += [[w, a, b] for w in warm for a in ops for b in ops]
    seqs += [[a, w, b] for w in warm for a in ops for b in ops]
    seqs += [[a, "prev", b] for a in ops for b in ops if not OPS[a][0]]
    seqs += [["w_all", a, "prev", b] for a in ops for b in ops if not OPS[a][0]]
    if tier == "thorough":
        seqs += [[a, b, c] for a in ops for b in ops for c in ops]
        seqs += [[w, a, x, b] for w in warm for x in warm for a in ops for b in ops]
        seqs += [[w, a, "prev", x, b] for w in warm for x in warm for a in ops for b in ops if not OPS[a][0]]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for combo in itertools.product(["e", "t", "q", "u"] if tier == "quick" else names, repeat=n):
            out += [[[k, list(combo)], {"given": True}] for k in ("list", "padded") if any(SHAPES[x][1] for x in combo)]
    for cfg in deep[2:3] if tier == "quick" else deep:
        out += [[cfg, {"single": a}] for a in [None] + ACCESS]
    short = [q for q in seqs if len(q) == 2]
    for n, cfg in enumerate(deep):
        if tier == "quick" and n >= 3:
            seqs = short
        for i in range(0, len(seqs), 32):
            out.append([cfg, seqs[i: i + 32]])
    return out


CHUNK = 4


def run_history(cfg, hist, rec, order):
    m, model = build(cfg)
    objs = [[m, model]]
    cur = 0
    parent = {0: 0}
    for op in hist:
        if op == "prev":
            cur = parent[cur]
            continue
        m, model = objs[cur]
        if op in WARM:
            if len(model):
                WARM[op](m)
            rec.step()
            continue
        r = apply(op, m, model)
        if r is None:
            continue
        rec.step()
        inplace, obj, ref = r
        if inplace:
            expect(obj is m, "%s: an in-place operation returns its object" % op)
            objs[cur][1] = ref
        elif obj is m:  # joining a batch of one into a scene hands the same object back
            objs[cur][1] = ref
        else:
            objs.append([obj, ref])
            parent[len(objs) - 1] = cur
            cur = len(objs) - 1
    for i, (o, mod) in enumerate(objs):
        observe(o, mod, order, "object %d of history %s on %s" % (i, hist, cfg))
    rec.trace()
    rec.state([[v, f] for v, f in objs[-1][1]] + [len(objs)])


ACCESS = ["isempty", "verts_list", "faces_list", "verts_packed", "verts_packed_to_mesh_idx", "mesh_to_verts_packed_first_idx", "num_verts_per_mesh", "faces_packed",
          "faces_packed_to_mesh_idx", "mesh_to_faces_packed_first_idx", "verts_padded", "faces_padded", "num_faces_per_mesh", "edges_packed", "edges_packed_to_mesh_idx",
          "mesh_to_edges_packed_first_idx", "faces_packed_to_edges_packed", "num_edges_per_mesh", "verts_padded_to_packed_idx", "verts_normals_packed",
          "verts_normals_list", "verts_normals_padded", "faces_normals_packed", "faces_normals_list", "faces_normals_padded", "faces_areas_packed",
          "laplacian_packed", "get_bounding_boxes"]


def same(tag, got, want):
    if isinstance(want, (list, tuple)):
        expect(isinstance(got, (list, tuple)) and len(got) == len(want), tag + ": length")
        for g, w in zip(got, want):
            same(tag, g, w)
    elif torch.is_tensor(want):
        if want.layout == torch.sparse_coo:
            got, want = got.to_dense(), want.to_dense()
        expect(got.dtype == want.dtype, tag + ": dtype")
        expect_close(tag, got, want, atol=1e-5)
    else:
        expect(got == want, "%s: %s, want %s" % (tag, got, want))


def run_single(cfg, a, rec):
    """one accessor, one operation, one accessor: every accessor against a mesh freshly built from the model's lists"""
    for op in OPS:
        fresh = None
        for b in ACCESS:
            m, model = build(cfg)
            if a is not None and (a != "get_bounding_boxes" or all(len(v) for v, _ in model)):
                getattr(m, a)()
            r = apply(op, m, model)
            if r is None:
                break
            inplace, obj, ref = r
            if fresh is None:
                fresh = {}
                for mod, key in ((ref, "new"), (ref if inplace or obj is m else model, "old")):
                    for c in ACCESS:
                        if len(mod) and m_valid(mod) and (c != "get_bounding_boxes" or all(len(v) for v, _ in mod)):
                            fresh[key, c] = getattr(Meshes([v for v, _ in mod], [f for _, f in mod]), c)()
            for o, key in ((obj, "new"), (m, "old")):
                if (key, b) in fresh:
                    same("%s of the %s object after %s, %s on %s" % (b, key, a, op, cfg), getattr(o, b)(), fresh[key, b])
            rec.step()
        rec.trace()
    rec.state([cfg, a])
    rec.sample({"batch": cfg, "history": [a, "every operation", "every accessor"]})


KEEP = {"clone": lambda m: m.clone(), "detach": lambda m: m.detach(), "to copy": lambda m: m.to("cpu", copy=True), "to": lambda m: m.to("cpu"),
        "cpu": lambda m: m.cpu()}
GIVEN_READS = ["verts_normals_packed", "verts_normals_list", "verts_normals_padded"]


def run_given(cfg, rec):
    """normals given at construction, in both forms: every reading order, every earlier operation of a pair, every copy"""
    _, model = build(cfg)
    V = max([len(v) for v, _ in model] + [0])
    given = [torch.stack([torch.tensor([1.0 + i, 0.5 * j, -2.0 - j], dtype=v.dtype) for j in range(len(v))]) if len(v) else v.new_zeros(0, 3) for i, (v, _) in enumerate(model)]
    want = {"verts_normals_packed": torch.cat(given), "verts_normals_padded": pad(given, V, 0.0)}

    def read(m, order, where):
        for a in order:
            got = getattr(m, a)()
            if a == "verts_normals_list":
                expect(len(got) == len(given) and all(torch.equal(x, y) for x, y in zip(got, given)), "%s: the list of given normals is not what was given" % where)
            else:
                expect(got.shape == want[a].shape and torch.equal(got, want[a]), "%s: %s is not what was given" % (where, a))

    for form in ("list", "padded"):
        arg = [g.clone() for g in given] if form == "list" else want["verts_normals_padded"].clone()
        for order in itertools.permutations(GIVEN_READS):
            for w in [None] + [a for a in ACCESS if order[0] < order[1] < order[2] and a != "get_bounding_boxes" or all(len(v) for v, _ in model)]:
                base, _ = build(cfg)
                vs, fs = (base.verts_list(), base.faces_list()) if cfg[0].startswith("list") else (base.verts_padded(), base.faces_padded())
                m = Meshes(vs, fs, verts_normals=arg)
                expect(m.has_verts_normals(), "given normals are not known")
                if w:
                    getattr(m, w)()
                where = "%s, given as %s, after %s" % (cfg, form, w)
                read(m, order, where)
                for k, f in KEEP.items():
                    read(f(m), order, "%s, %s" % (where, k))
                read(m, order, where + ", again")
                rec.step(2 + len(KEEP))
            rec.trace()
        # what is derived from it has the given normals or the calculated ones
        m = Meshes(vs, fs, verts_normals=arg)
        for i in range(len(model)):
            if not m_valid([model[i]]):
                continue
            one = m[i].verts_normals_list()[0]
            calc = Meshes([model[i][0]], [model[i][1]]).verts_normals_list()[0]
            expect(torch.equal(one, given[i]) or torch.allclose(one, calc, atol=1e-6), "%s: normals of mesh %d alone are neither those given nor those calculated" % (cfg, i))
        o = m.offset_verts(torch.ones_like(m.verts_packed()))
        if m_valid(model):
            calc = Meshes([v + 1 for v, _ in model], [f for _, f in model]).verts_normals_packed()
            got = o.verts_normals_packed()
            expect(torch.allclose(got, calc, atol=1e-5) or torch.equal(got, want["verts_normals_packed"]), "%s: normals after an offset" % cfg)
        read(m, GIVEN_READS, "%s after an out of place offset" % cfg)
    for bad in ([g[:, :2] for g in given], [g for g in given][:-1], [torch.zeros(len(g) + 1, 3) for g in given], torch.zeros(len(given) + 1, V, 3), torch.zeros(len(given), V, 2), 3):
        try:
            Meshes(vs, fs, verts_normals=bad)
        except ValueError:
            continue
        raise Violation("%s: ill-shaped normals are accepted" % cfg)
    rec.state([cfg, "given"])
    rec.sample({"batch": cfg, "history": ["normals given as a list and padded", "every reading order"]})


def run(case, rec):
    cfg, hists = case
    if isinstance(hists, dict) and "given" in hists:
        return run_given(cfg, rec)
    if hists and isinstance(hists, dict):
        return run_single(cfg, hists["single"], rec)
    for k, h in enumerate(hists):
        for order in ((0, 1) if len(h) <= 2 else (k % 2,)):
            try:
                run_history(cfg, h, rec, order)
            except Exception as e:
                e.case = [cfg, [h]]
                raise
        rec.sample({"batch": cfg, "history": h})
