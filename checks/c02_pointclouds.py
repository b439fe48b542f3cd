"""C02: a batch of point clouds is one set of attributed points in every view, after any history."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.structures import Pointclouds, join_pointclouds_as_batch, join_pointclouds_as_scene

PROPERTY = "C02"
ASSUMPTIONS = [
    "CPU, float32 (one float64 batch); all coordinate and attribute values are distinct",
    "a batch in which every cloud is empty is only required to keep its lists, length and emptiness",
    "joining a batch of one cloud into a scene, and subsampling clouds already small enough, may hand the same object back",
]
BOUNDS = {
    "quick": "histories op-op over 26 operations for 15 batches x attribute layouts (points, normals, features each as "
             "list or padded tensor, or absent), accessors-op-op, op-accessors-op and op-back to source-op over 4 "
             "accessor groups for 6 of them; every layout of every batch of up to 2 sizes from {0,1,2,3} under every "
             "single operation with every accessor group before it; two observation orders",
    "thorough": "as quick with op-op-op and accessors-op-accessors-op histories for all 15, single operations for up to 3 clouds",
}
C = 2


def items_of(sizes, dtype=torch.float32):
    out = []
    for i, n in enumerate(sizes):
        r = torch.arange(n * 3, dtype=dtype).reshape(n, 3)
        p = r * 0.25 + 1.5 * i - 0.5 + torch.tensor([0.0, 0.5, -1.0], dtype=dtype)
        nn = r * 0.125 - 2.0 * i + 0.0625
        f = torch.arange(n * C, dtype=dtype).reshape(n, C) * 0.5 + 10.0 * (i + 1)
        out.append([p, nn, f])
    return out


def pad(rows, n, c):
    out = torch.zeros(len(rows), n, c, dtype=rows[0].dtype)
    for i, x in enumerate(rows):
        out[i, : len(x)] = x
    return out


def build(cfg):
    sizes, lay = cfg[0], cfg[1]
    dtype = torch.float64 if len(cfg) > 2 else torch.float32
    if lay[0] == "p":  # a padded tensor of points makes every cloud full size
        sizes = [max(sizes)] * len(sizes)
    items = items_of(sizes, dtype)
    P = max(sizes)
    model = [[p.clone(), n.clone() if lay[1] != "-" else None, f.clone() if lay[2] != "-" else None] for p, n, f in items]

    def aux(k, c, kind):
        if kind == "-":
            return None
        if kind == "l":
            return [x[k] for x in items]
        if kind == "e":  # empty clouds given without an attribute tensor
            return [x[k] if len(x[0]) else None for x in items]
        return pad([x[k] for x in items], P, c)

    pts = [x[0] for x in items] if lay[0] == "l" else pad([x[0] for x in items], P, 3)
    return Pointclouds(points=pts, normals=aux(1, 3, lay[1]), features=aux(2, C, lay[2])), model


def expect_list(name, got, model, k):
    if model[0][k] is None:
        expect(got is None, name + ": attribute appeared")
        return
    expect(got is not None and len(got) == len(model), name + ": attribute list lost or of wrong length")
    for i, row in enumerate(model):
        expect_close("%s[%d]" % (name, i), got[i], row[k], dtype=len(row[k]) > 0)


def valid(model):
    return any(len(p) for p, _, _ in model)


def observe(m, model, order, where):
    expect(len(m) == len(model), where + ": batch length")
    expect(bool(m.isempty()) == (not valid(model)), where + ": emptiness")
    if not model:
        return
    n = [len(x[0]) for x in model]
    names = ("points", "normals", "features")

    def lists():
        for k, nm in enumerate(names):
            got = getattr(m, nm + "_list")()
            if k and not valid(model) and (got is None or model[0][k] is None):
                continue
            expect_list("%s: %s_list" % (where, nm), got, model, k)

    if not valid(model):
        lists()
        expect(m.points_packed().numel() == 0 and m.points_padded().shape[0] == len(model), where + ": empty batch")
        return

    def packed():
        for k, nm in enumerate(names):
            want = None if model[0][k] is None else torch.cat([x[k] for x in model])
            expect_close("%s: %s_packed" % (where, nm), getattr(m, nm + "_packed")(), want, dtype=True)
        expect_close(where + ": packed_to_cloud_idx", m.packed_to_cloud_idx(),
                     torch.tensor([i for i, c in enumerate(n) for _ in range(c)]))
        expect_close(where + ": cloud_to_packed_first_idx", m.cloud_to_packed_first_idx(),
                     torch.tensor([sum(n[:i]) for i in range(len(n))]))

    def padded():
        for k, nm in enumerate(names):
            want = None if model[0][k] is None else pad([x[k] for x in model], max(n), 3 if k < 2 else C)
            expect_close("%s: %s_padded" % (where, nm), getattr(m, nm + "_padded")(), want, dtype=True)
        expect_close(where + ": padded_to_packed_idx", m.padded_to_packed_idx(),
                     torch.tensor([i * max(n) + j for i, c in enumerate(n) for j in range(c)]))

    def counts():
        expect_close(where + ": num_points_per_cloud", m.num_points_per_cloud(), torch.tensor(n))

    def geometry():
        if all(n):
            want = torch.stack([torch.stack([p.min(0)[0], p.max(0)[0]], 1) for p, _, _ in model])
            expect_close(where + ": bounding boxes", m.get_bounding_boxes(), want)
        b1 = torch.tensor([[-1.0, 0.0, -1.0], [1.25, 2.0, 0.5]], dtype=model[0][0].dtype)
        got = m.inside_box(b1)
        pk = torch.cat([x[0] for x in model])
        inside = ((pk >= b1[0]) & (pk <= b1[1])).all(1)
        expect_close(where + ": inside_box (one box)", got, inside)
        bn = torch.stack([b1 + 1.5 * i for i in range(len(model))])
        own = torch.tensor([i for i, c in enumerate(n) for _ in range(c)])
        inside = ((pk >= bn[own, 0]) & (pk <= bn[own, 1])).all(1)
        expect_close(where + ": inside_box (box per cloud)", m.inside_box(bn), inside)

    def get_cloud():
        for i in range(len(model)):
            p, nn, f = m.get_cloud(i)
            for g, w in zip((p, nn, f), model[i]):
                expect_close(where + ": get_cloud", g, w)

    steps = [lists, packed, padded, counts, geometry, get_cloud]
    for s in steps if order == 0 else reversed(steps):
        s()


WARM = {
    "w_packed": lambda m: m.points_packed(),
    "w_padded": lambda m: m.points_padded(),
    "w_lists": lambda m: (m.points_list(), m.features_list(), m.normals_list()),
    "w_all": lambda m: (m.normals_packed(), m.features_padded(), m.padded_to_packed_idx(), m.features_list()),
}


def _mapp(fn):
    return lambda mod: [[fn(i, r[0]), r[1], r[2]] for i, r in enumerate(mod)]


def _offsets(mod):
    n = sum(len(r[0]) for r in mod)
    return (torch.arange(n * 3, dtype=mod[0][0].dtype).reshape(n, 3) * 0.375) % 1.25 - 0.3125


def _off(mod):
    o = _offsets(mod).split([len(r[0]) for r in mod])
    return [[r[0] + d, r[1], r[2]] for r, d in zip(mod, o)]


def _o3(mod):
    return torch.tensor([0.5, -0.25, 1.0], dtype=mod[0][0].dtype)


def _svec(mod):
    return torch.tensor([0.5 + 0.75 * i for i in range(len(mod))], dtype=mod[0][0].dtype)


def _newpad(mod, k, c):
    P = max(len(r[0]) for r in mod)
    out = torch.zeros(len(mod), P, c, dtype=mod[0][0].dtype)
    for i, r in enumerate(mod):
        m = len(r[0])
        out[i, :m] = (torch.arange(m * c, dtype=out.dtype).reshape(m, c) + 1) * 0.375 + 5 * i + 100 * k
    return out


def _update(which):
    def real(m, mod):
        kw = {}
        if "n" in which:
            kw["new_normals_padded"] = _newpad(mod, 1, 3)
        if "f" in which:
            kw["new_features_padded"] = _newpad(mod, 2, C)
        return m.update_padded(_newpad(mod, 0, 3), **kw)

    def ref(mod):
        np_, nn, nf = _newpad(mod, 0, 3), _newpad(mod, 1, 3), _newpad(mod, 2, C)
        out = []
        for i, r in enumerate(mod):
            m = len(r[0])
            out.append([np_[i, :m], nn[i, :m] if "n" in which else r[1], nf[i, :m] if "f" in which else r[2]])
        return out

    return (False, real, ref, True)


def _subsample(maxes):
    """The random choice is read off the result: it must be a choice of distinct points of the right size."""

    def ref(mod, res):
        got = res.points_list()
        expect(len(got) == len(mod), "subsample: batch length")
        out = []
        for i, r in enumerate(mod):
            mx = maxes[i % len(maxes)]
            want = min(len(r[0]), mx)
            expect(len(got[i]) == want, "subsample: cloud %d has %d points, want %d" % (i, len(got[i]), want))
            idx = []
            names = ("points", "normals", "features")
            gl = [getattr(res, names[k] + "_list")() for k in range(3) if r[k] is not None]
            expect(all(g is not None for g in gl), "subsample: attribute lost")
            rows = torch.cat([r[k] for k in range(3) if r[k] is not None], 1)
            for row in torch.cat([g[i] for g in gl], 1):
                hits = ((rows - row).abs().max(1)[0] < 1e-6).nonzero().flatten().tolist()
                hits = [h for h in hits if h not in idx]
                expect(hits, "subsample: a point that is not of the cloud, or repeated")
                idx.append(hits[0])
            if len(r[0]) <= mx:
                expect(idx == list(range(len(r[0]))), "subsample: untouched cloud reordered")
            idx = torch.tensor(idx, dtype=torch.int64)
            out.append([x if x is None else x[idx] for x in r])
        return out

    real = (lambda m, mod: m.subsample(maxes[0])) if len(maxes) == 1 else \
        (lambda m, mod: m.subsample([maxes[i % len(maxes)] for i in range(len(mod))]))
    return (False, real, ref, False)


def _cat(mod):
    return [[None if mod[0][k] is None else torch.cat([r[k] for r in mod]) for k in range(3)]]


def _li(n):
    return [n - 1, 0] + ([n - 1] if n > 1 else [])


OPS = {
    "offset_": (True, lambda m, mod: m.offset_(_offsets(mod)), _off, False),
    "offset3_": (True, lambda m, mod: m.offset_(_o3(mod)), lambda mod: _mapp(lambda i, p: p + _o3(mod))(mod), False),
    "scale_": (True, lambda m, mod: m.scale_(2.0), _mapp(lambda i, p: p * 2), False),
    "scalev_": (True, lambda m, mod: m.scale_(_svec(mod)), lambda mod: _mapp(lambda i, p: p * _svec(mod)[i])(mod), False),
    "offset": (False, lambda m, mod: m.offset(_offsets(mod)), _off, False),
    "scale": (False, lambda m, mod: m.scale(2.0), _mapp(lambda i, p: p * 2), False),
    "scalev": (False, lambda m, mod: m.scale(_svec(mod)), lambda mod: _mapp(lambda i, p: p * _svec(mod)[i])(mod), False),
    "update": _update(""), "update_n": _update("n"), "update_f": _update("f"), "update_nf": _update("nf"),
    "clone": (False, lambda m, mod: m.clone(), lambda mod: [list(r) for r in mod], False),
    "detach": (False, lambda m, mod: m.detach(), lambda mod: [list(r) for r in mod], False),
    "tocopy": (False, lambda m, mod: m.to("cpu", copy=True), lambda mod: [list(r) for r in mod], False),
    "get_last": (False, lambda m, mod: m[-1], lambda mod: [mod[-1]], False),
    "get_slice": (False, lambda m, mod: m[1:], lambda mod: mod[1:], False),
    "get_list": (False, lambda m, mod: m[_li(len(mod))], lambda mod: [mod[i] for i in _li(len(mod))], False),
    "get_bool": (False, lambda m, mod: m[torch.tensor([i % 2 == 0 for i in range(len(mod))])], lambda mod: mod[::2], False),
    "get_long": (False, lambda m, mod: m[torch.tensor(_li(len(mod)))], lambda mod: [mod[i] for i in _li(len(mod))], False),
    "extend": (False, lambda m, mod: m.extend(2), lambda mod: [r for r in mod for _ in range(2)], False),
    "join": (False, lambda m, mod: join_pointclouds_as_batch([m[0:1], m]), lambda mod: mod[:1] + mod, False),
    "scene": (False, lambda m, mod: join_pointclouds_as_scene(m), lambda mod: mod if len(mod) == 1 else _cat(mod), True),
    "scene_list": (False, lambda m, mod: join_pointclouds_as_scene([m, m[0]]), lambda mod: _cat(mod + mod[:1]), True),
    "sub1": _subsample([1]), "sub21": _subsample([2, 1]),
    "split": (False, lambda m, mod: m.split([1, len(mod) - 1])[1], lambda mod: mod[1:], False),
}


def apply(name, m, model):
    inplace, real, ref, need_valid = OPS[name]
    if not model or (need_valid and not valid(model)):
        return None
    if name.startswith("get") or name in ("join", "extend", "split", "clone", "detach", "tocopy", "scale", "offset",
                                          "scalev") or name.startswith("sub"):
        if not valid(model):
            return None
    res = real(m, model)
    return inplace, res, (ref(model, res) if name.startswith("sub") else ref(model))


def norm(model):
    """A batch of empty clouds only cannot carry attributes of known width in every form."""
    return model


LAYOUTS = ["".join(x) for x in itertools.product("lp", "-lp", "-lp")]
CHUNK = 4
BUDGET = {"quick": 400, "thorough": 0}


def cases(tier):
    warm, ops = list(WARM), list(OPS)
    out = []
    for n in range(1, (2 if tier == "quick" else 3) + 1):
        for sizes in itertools.product([0, 1, 2, 3], repeat=n):
            for lay in LAYOUTS + ["lel", "lle", "lee", "l-e"]:
                if lay[0] == "p" and (len(set(sizes)) > 1 or max(sizes) == 0):
                    continue
                if "e" in lay and (0 not in sizes or max(sizes) == 0):
                    continue
                cfg = [list(sizes), lay]
                out.append([cfg, [[]] + [[w] for w in warm]])
                out.append([cfg, [[o] for o in ops]])
                if len(set(sizes)) > 1 or n == 1:
                    for w in warm:
                        out.append([cfg, [[w, o] for o in ops]])
    deep = [[[2, 3], "lll"], [[2, 2], "ppp"], [[2, 0, 1], "l-l"], [[1, 3], "lpp"], [[2, 2], "pll"], [[3], "lpl"],
            [[2, 3], "l--"], [[0, 2], "llp"], [[3, 1], "lp-"], [[2, 2], "lll"], [[2, 2], "plp"], [[1, 2, 1], "lle"[:2] + "l"],
            [[2, 1], "lll", 64], [[3], "p-l"], [[0, 1, 2], "lel"]]
    seqs = [[a, b] for a in ops for b in ops]
    full = seqs + [[w, a, b] for w in warm for a in ops for b in ops] + [[a, w, b] for w in warm for a in ops for b in ops]
    full += [[a, "prev", b] for a in ops for b in ops if not OPS[a][0]]
    full += [["w_all", a, "prev", b] for a in ops for b in ops if not OPS[a][0]]
    if tier == "thorough":
        full += [[a, b, c] for a in ops for b in ops for c in ops]
        full += [[w, a, x, b] for w in warm for x in warm for a in ops for b in ops]
    for k, cfg in enumerate(deep):
        q = full if (k < 6 or tier == "thorough") else seqs
        for i in range(0, len(q), 32):
            out.append([cfg, q[i: i + 32]])
    return out


def run_history(cfg, hist, rec, order):
    m, model = build(cfg)
    objs = [[m, model]]
    cur, parent = 0, {0: 0}
    for op in hist:
        if op == "prev":
            cur = parent[cur]
            continue
        m, model = objs[cur]
        if op in WARM:
            WARM[op](m)
            rec.step()
            continue
        r = apply(op, m, model)
        if r is None:
            continue
        rec.step()
        inplace, obj, ref = r
        if inplace:
            expect(obj is m, "%s: an in-place operation returns its object" % op)
            objs[cur][1] = ref
        elif obj is m:
            objs[cur][1] = ref
        else:
            objs.append([obj, ref])
            parent[len(objs) - 1] = cur
            cur = len(objs) - 1
    for i, (o, mod) in enumerate(objs):
        observe(o, mod, order, "object %d of history %s on %s" % (i, hist, cfg))
    rec.trace()
    rec.state([[[x for x in r if x is not None] for r in objs[-1][1]], len(objs)])


def run(case, rec):
    cfg, hists = case
    for k, h in enumerate(hists):
        for order in ((0, 1) if len(h) <= 2 else (k % 2,)):
            try:
                run_history(cfg, h, rec, order)
            except Exception as e:
                e.case = [cfg, [h]]
                raise
        rec.sample({"batch": cfg, "history": h})
