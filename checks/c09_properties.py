"""C09: element i of every parameter of a camera / light / material batch belongs to batch element i, through every
construction form and every short history of operations.

The model of a batch is a list of dictionaries (one per element). Real objects are built from all mixes of parameter
forms, driven through all operation sequences up to a depth, and compared with the model after every step.
"""
import itertools

import numpy as np
import torch

from mc.core import Violation, expect, expect_close, expect_raises

PROPERTY = "C09"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 4
BOUNDS = {
    "quick": "9 kinds of batched objects; all mixes of up to 4 parameters in 6 forms (default, number/tuple, list of N, "
             "tensor of N, tensor of 1, array of N) for N 1..3 and all mismatched sizes; all histories of up to 3 "
             "operations from 16 (index by int / negative / list / mask / long tensor, clone of either side, join with "
             "another batch before or after, gather, writing one element) from 3 starting layouts; results of "
             "projection and lighting of each element against the element built alone",
    "thorough": "histories of up to 4 operations",
}
ASSUMPTIONS = [
    "the user's own tensors passed without broadcasting may be shared with the object (documented constructors keep "
    "them), so writing through them is not a history of the object; fisheye cameras get every parameter for every "
    "element",
    "gather_props is asked of 1-D index tensors, as documented",
]

# parameter -> (shape of one element, candidate values per element as flat lists)
V3 = [[0.1, 0.7, 0.4], [0.9, 0.2, 0.5], [0.3, 0.6, 0.8]]
D3 = [[0.5, 1.0, -2.0], [-1.0, 0.25, 3.0], [2.0, -0.5, 1.5]]


def _rot(a, b):
    ca, sa, cb, sb = np.cos(a), np.sin(a), np.cos(b), np.sin(b)
    return (np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, cb, -sb], [0, sb, cb]])).tolist()


RS = [_rot(0.3, 0.2), _rot(-1.1, 0.7), _rot(2.0, -0.4)]
TS = [[0.1, -0.2, 3.0], [0.5, 0.25, 5.0], [-0.75, 0.3, 4.0]]
EYE = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]


def kinds():
    from pytorch3d.renderer import (AmbientLights, DirectionalLights, FoVOrthographicCameras, FoVPerspectiveCameras,
                                    Materials, OrthographicCameras, PerspectiveCameras, PointLights)
    from pytorch3d.renderer.utils import TensorProperties

    col = lambda d: ([d] * 3, [[x * (i + 1) / 3 for x in V3[i]] for i in range(3)])
    return {
        "point": (PointLights, {}, {
            "ambient_color": ([0.5] * 3, V3), "diffuse_color": ([0.3] * 3, V3[::-1]),
            "specular_color": ([0.2] * 3, col(0)[1]), "location": ([0, 1, 0], D3)}),
        "directional": (DirectionalLights, {}, {
            "ambient_color": ([0.5] * 3, V3), "diffuse_color": ([0.3] * 3, V3[::-1]),
            "specular_color": ([0.2] * 3, col(0)[1]), "direction": ([0, 1, 0], D3)}),
        "ambient": (AmbientLights, {}, {"ambient_color": ([1.0] * 3, V3)}),
        "materials": (Materials, {}, {
            "ambient_color": ([1.0] * 3, V3), "diffuse_color": ([1.0] * 3, V3[::-1]),
            "specular_color": ([1.0] * 3, col(0)[1]), "shininess": (64, [8.0, 3.0, 20.0])}),
        "generic": (TensorProperties, {}, {
            "x": (None, [1.0, 2.0, 3.0]), "y": (None, [[4.0, 5.0], [6.0, 7.0], [8.0, 9.0]]),
            "z": (None, [EYE, RS[0], RS[1]])}),
        "persp": (PerspectiveCameras, {"in_ndc": True}, {
            "focal_length": (1.0, [1.5, 2.0, 0.75]), "principal_point": ([0.0, 0.0], [[0.25, -0.5], [0.1, 0.3], [-0.2, 0]]),
            "R": (EYE, RS), "T": ([0.0] * 3, TS)}),
        "persp_scr": (PerspectiveCameras, {"in_ndc": False}, {
            "focal_length": (1.0, [[12.0, 9.0], [20.0, 31.0], [7.5, 15.0]]),
            "principal_point": ([0.0, 0.0], [[4.5, 2.0], [1.0, 7.5], [6.0, 3.25]]),
            "image_size": (None, [[6.0, 11.0], [9.0, 9.0], [13.0, 4.0]]), "T": ([0.0] * 3, TS)}),
        "ortho": (OrthographicCameras, {"in_ndc": True}, {
            "focal_length": (1.0, [[1.5, 1.0], [2.0, 0.5], [0.75, 3.0]]),
            "principal_point": ([0.0, 0.0], [[0.25, -0.5], [0.1, 0.3], [-0.2, 0]]), "R": (EYE, RS), "T": ([0.0] * 3, TS)}),
        "fov": (FoVPerspectiveCameras, {"degrees": True}, {
            "fov": (60.0, [45.0, 90.0, 70.0]), "aspect_ratio": (1.0, [1.5, 0.75, 2.0]), "znear": (1.0, [0.5, 1.5, 0.1]),
            "T": ([0.0] * 3, TS)}),
        "fov_rad": (FoVPerspectiveCameras, {"degrees": False}, {
            "fov": (60.0, [0.5, 1.0, 1.5]), "zfar": (100.0, [50.0, 20.0, 10.0]), "R": (EYE, RS), "T": ([0.0] * 3, TS)}),
        "fovortho": (FoVOrthographicCameras, {}, {
            "max_y": (1.0, [2.0, 0.5, 1.5]), "min_x": (-1.0, [-2.0, -0.5, -3.0]),
            "scale_xyz": ([1.0] * 3, [[2.0, 1.0, 0.5], [1.0, 3.0, 1.0], [0.5, 0.5, 2.0]]), "T": ([0.0] * 3, TS)}),
    }


CAMS = ("persp", "persp_scr", "ortho", "fov", "fov_rad", "fovortho")
FORMS = ("default", "one", "list", "tensor", "tensor1", "array")


def is_scalar(vals):
    return not isinstance(vals[0], list)


def form_value(form, vals, n, scalar):
    """(constructor value, per-element values or None when this parameter has one row)"""
    if form == "one":
        return (vals[0] if scalar else torch.tensor([vals[0]]).tolist()), None
    if form == "tensor1":
        return torch.tensor([vals[0]]), None
    v = vals[:n]
    if form == "list":
        return list(v), v
    if form == "tensor":
        return torch.tensor(v), v
    return np.array(v, dtype=np.float32), v


def build(kind, forms, n, table=None):
    """-> (object or exception, model)"""
    cls, fixed, params = (table or kinds())[kind]
    kw, rows = dict(fixed), {}
    sizes = set()
    for (name, (default, vals)), form in zip(params.items(), forms):
        f, m = (form if isinstance(form, tuple) else (form, n))
        if f == "default":
            rows[name] = None if default is None else ("row", default)
            continue
        value, per = form_value(f, vals, m, is_scalar(vals))
        kw[name] = value
        rows[name] = ("row", vals[0]) if per is None else ("all", per)
        sizes.add(1 if per is None else len(per))
    N = max(sizes | {1})
    bad = any(s not in (1, N) for s in sizes)
    if kind == "generic" and not sizes:
        return None, None, 0, True
    model = None
    if not bad:
        model = [{k: (None if v is None else (v[1] if v[0] == "row" or len(v[1]) == 1 and N > 1 and False else
                                              (v[1][i] if len(v[1]) == N else v[1][0])))
                  for k, v in rows.items()} for i in range(N)]
    return (lambda: cls(**kw)), model, N, bad


def attr_rows(obj, name):
    return getattr(obj, name)


def check_obj(obj, model, kind, name, table):
    params = table[kind][2]
    expect(len(obj) == len(model), lambda: "%s: length %d, want %d" % (name, len(obj), len(model)))
    for p in params:
        want = [m[p] for m in model]
        got = getattr(obj, p, None)
        if all(w is None for w in want):
            expect(got is None, "%s: %s appears from nowhere" % (name, p))
            continue
        w = torch.tensor(want, dtype=torch.float32)
        if p == "focal_length" and w.ndim == 1 and got.ndim == 2:
            w = w[:, None].expand_as(got)
        expect_close("%s: %s" % (name, p), got, w, 1e-6, 1e-6)
    for k, v in table[kind][1].items():
        real = getattr(obj, "_in_ndc" if k == "in_ndc" else k)
        expect(real == v, "%s: %s is %r" % (name, k, real))


PTS = torch.tensor([[0.2, -0.3, 0.5], [-0.4, 0.1, 1.0], [0.7, 0.8, -0.5]])


def single(kind, m, table):
    cls, fixed, params = table[kind]
    kw = dict(fixed)
    for p, v in m.items():
        if v is None:
            continue
        kw[p] = torch.tensor([v], dtype=torch.float32)
    return cls(**kw)


def results(obj, kind, n):
    """what every element of the batch computes, (n, ...)"""
    if kind in CAMS:
        pts = PTS[None].expand(n, -1, -1) + torch.tensor([0.0, 0.0, 3.0])
        kw = {} if kind != "persp_scr" or obj.get_image_size() is not None else {"image_size": ((8.0, 6.0),)}
        out = [obj.get_world_to_view_transform().transform_points(pts), obj.transform_points_ndc(pts, **kw),
               obj.get_camera_center()[:, None]]
        return torch.cat([o.reshape(n, -1) for o in out], 1)
    if kind in ("point", "directional", "ambient"):
        pts = PTS.reshape(1, 3, 1, 1, 3).expand(n, -1, -1, -1, -1)
        nrm = torch.tensor([[1.0, 2.0, 2.0], [-1.0, 0.5, 0.0], [0.3, -1.0, 1.0]]).reshape(1, 3, 1, 1, 3).expand_as(pts)
        d = obj.diffuse(nrm, pts)
        s = obj.specular(nrm, pts, torch.tensor([[0.0, 0.5, 2.0]]).expand(n, -1), torch.full((n,), 3.0))
        return torch.cat([d.reshape(n, -1), s.reshape(n, -1), obj.ambient_color], 1)
    return None


def check_results(obj, model, kind, name, table):
    if kind in ("materials", "generic") or not model:
        return
    got = results(obj, kind, len(model))
    want = torch.cat([results(single(kind, m, table), kind, 1) for m in model])
    expect_close(name + ": results of the elements", got, want, 1e-5, 1e-5)


# ---------------------------------------------------------------- operations
OPS = ["i0", "i-1", "list", "rev", "mask", "long", "clone", "source", "join", "joinpre", "to", "gather", "set0", "setlast",
       "setslice", "iall"]


def applicable(kind, op, n):
    cam = kind in CAMS
    if op in ("i0", "i-1", "list", "rev", "mask", "long", "join", "joinpre", "iall"):
        if not cam or n > 6:
            return False
    if op in ("gather", "set0", "setlast", "setslice") and cam:
        return False
    if kind == "generic" and op in ("clone", "source"):
        return True
    return True


def scramble(obj, params):
    """write over all the object's tensors in place"""
    for p in params:
        v = getattr(obj, p, None)
        if torch.is_tensor(v):
            for i in range(v.shape[0]):
                v[i] = 77.0


def clone_of(obj, kind):
    if kind == "generic":
        from pytorch3d.renderer.utils import TensorProperties

        return obj.clone(TensorProperties())
    return obj.clone()


def apply(op, obj, model, kind, table):
    """-> (new object, new model)"""
    n = len(model)
    params = table[kind][2]
    if op == "i0":
        return obj[0], [model[0]]
    if op == "i-1":
        return obj[-1], [model[-1]]
    if op == "list":
        idx = [n - 1, 0, n - 1]
        return obj[idx], [model[i] for i in idx]
    if op == "rev":
        idx = list(range(n))[::-1]
        return obj[torch.tensor(idx)], [model[i] for i in idx]
    if op == "iall":
        return obj[list(range(n))], list(model)
    if op == "mask":
        mask = torch.tensor([i % 2 == 0 for i in range(n)])
        return obj[mask], [m for i, m in enumerate(model) if i % 2 == 0]
    if op == "long":
        idx = [0, n - 1]
        return obj[torch.tensor(idx)], [model[i] for i in idx]
    if op == "clone":
        c = clone_of(obj, kind)
        d = clone_of(c, kind)
        scramble(c, params)
        return d, model
    if op == "source":
        c = clone_of(obj, kind)
        scramble(c, params)
        return obj, model
    if op == "join" or op == "joinpre":
        from pytorch3d.renderer.camera_utils import join_cameras_as_batch

        other_model = [dict(model[0], T=[9.0, 8.0, 7.0]), dict(model[-1], T=[-1.0, 2.0, 6.0])]
        cls, fixed, _ = table[kind]
        others = [single(kind, m, table) for m in other_model]
        if any(getattr(o, p, None) is not None and getattr(obj, p, None) is not None
               and getattr(o, p).shape[1:] != getattr(obj, p).shape[1:] for o in others for p in params):
            return obj, model
        if op == "join":
            return join_cameras_as_batch([obj] + others), model + other_model
        return join_cameras_as_batch([others[0], obj, others[1]]), [other_model[0]] + model + [other_model[1]]
    if op == "to":
        out = obj.to("cpu")
        return out, model
    if op == "gather":
        idx = [n - 1, 0, n - 1, n // 2]
        out = obj.gather_props(torch.tensor(idx))
        if n == 1:
            return out, model
        return out, [model[i] for i in idx]
    if op in ("set0", "setlast", "setslice"):
        new = [dict(m) for m in model]
        for p, (default, vals) in params.items():
            if model[0].get(p) is None:
                continue
            idxs = {"set0": [0], "setlast": [n - 1], "setslice": list(range(n))[:2]}[op]
            val = {"set0": 0.625, "setlast": 0.375, "setslice": 0.875}[op]
            row = getattr(obj, p)[0]
            value = torch.full_like(row, val)
            wide = value[None] if value.ndim > 1 else value
            if op == "setslice":
                obj[0:2].__setattr__(p, value[None].expand(len(idxs), *value.shape))
            elif op == "set0":
                obj[0].__setattr__(p, wide.tolist())
            else:
                obj[-1 if n > 1 else 0].__setattr__(p, wide)
            for i in idxs:
                new[i][p] = value.tolist()
            got = getattr(obj[idxs[0]], p)
            expect_close("reading %s back" % p, got, value, 0, 0)
        return obj, new
    raise AssertionError(op)


# ---------------------------------------------------------------- cases
def cases(tier):
    out = []
    table = kinds()
    for kind in table:
        np_ = len(table[kind][2])
        for n in (1, 2, 3):
            for first in FORMS:
                out.append({"kind": "forms", "obj": kind, "n": n, "first": first})
        out.append({"kind": "sizes", "obj": kind})
        depth = 4 if tier == "thorough" else 3
        for start in range(3):
            for op in OPS:
                out.append({"kind": "hist", "obj": kind, "start": start, "op": op, "depth": depth})
    out.append({"kind": "index"})
    out.append({"kind": "gather"})
    out.append({"kind": "fisheye"})
    return out


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def run_forms(case, rec):
    table = kinds()
    kind, n = case["obj"], case["n"]
    cls, fixed, params = table[kind]
    for rest in itertools.product(FORMS, repeat=len(params) - 1):
        forms = (case["first"],) + rest
        if kind == "generic" and all(f == "default" for f in forms):
            continue
        make, model, N, bad = build(kind, forms, n, table)
        name = "%s with %s, N=%d" % (kind, forms, n)
        rec.trace()
        rec.state([kind, forms, n])
        if kind == "persp_scr" and forms[2] == "default":
            continue
        obj = make()
        check_obj(obj, model, kind, name, table)
        check_results(obj, model, kind, name, table)
        rec.step()


def run_sizes(case, rec):
    """sizes which do not broadcast are refused, those that do are not"""
    table = kinds()
    kind = case["obj"]
    params = table[kind][2]
    k = len(params)
    for sizes in itertools.product((0, 1, 2, 3), repeat=k):
        if len(set(sizes) - {0}) == 0:
            continue
        forms = [("tensor", s) if s else "default" for s in sizes]
        if kind == "persp_scr" and sizes[2] == 0:
            continue
        make, model, N, bad = build(kind, forms, 1, table)
        name = "%s with sizes %s" % (kind, sizes)
        rec.trace()
        rec.state([kind, sizes])
        if bad:
            expect_raises(make, name + ": accepted", (ValueError, RuntimeError))
        else:
            obj = make()
            check_obj(obj, model, kind, name, table)
            check_results(obj, model, kind, name, table)


STARTS = [("tensor", 3), ("one", 1), ("mixed", 3)]


def start(kind, s, table):
    params = list(table[kind][2])
    label, n = STARTS[s]
    if label == "mixed":
        forms = ["tensor1" if i % 2 else "list" for i in range(len(params))]
    else:
        forms = [label] * len(params)
    make, model, N, bad = build(kind, forms, n, table)
    obj = make()
    return obj, model


def run_hist(case, rec):
    table = kinds()
    kind = case["obj"]
    if not applicable(kind, case["op"], 3):
        return
    seqs = [[case["op"]] + list(r) for d in range(case["depth"]) for r in itertools.product(OPS, repeat=d)]
    for seq in seqs:
        if not all(applicable(kind, op, 3) for op in seq):
            continue
        obj, model = start(kind, case["start"], table)
        kept = []  # earlier clones and their models: must never change
        done = []
        gathered = False
        for op in seq:
            n = len(model)
            if n == 0 or n > 12 or (gathered and op in ("setlast", "setslice")):
                break
            if op in ("clone", "source") and not gathered:
                kept.append((clone_of(obj, kind), [dict(m) for m in model]))
            obj, model = apply(op, obj, model, kind, table)
            if op == "gather" and n > 1:
                gathered = True  # the length of a gathered object is that of its source
            done.append(op)
            name = "%s start %s after %s" % (kind, STARTS[case["start"]], done)
            rec.step()
            if gathered:
                for p in table[kind][2]:
                    expect_close("%s: %s" % (name, p), getattr(obj, p), torch.tensor([m[p] for m in model],
                                                                                     dtype=torch.float32), 1e-6, 1e-6)
            else:
                check_obj(obj, model, kind, name, table)
            for c, m in kept:
                check_obj(c, m, kind, name + " (a clone made before)", table)
        rec.trace()
        rec.state([kind, case["start"], done, [sorted(m.items()) for m in model]])
        # the results only depend on the batch and the last operations: once per batch reached by each pair of them
        if not gathered and rec.state([kind, done[-2:], [sorted(m.items()) for m in model]]):
            check_results(obj, model, kind, "%s start %s after %s" % (kind, STARTS[case["start"]], done), table)


def run_index(case, rec):
    """every index of every batch size, in and out of range"""
    table = kinds()
    for kind in CAMS:
        for n in (1, 2, 3):
            forms = ["tensor"] * len(table[kind][2])
            make, model, N, bad = build(kind, forms, n, table)
            cam = make()
            for i in range(-n, n + 2):
                rec.trace()
                rec.state([kind, n, i])
                if i >= n:
                    expect_raises(lambda: cam[i], "%s[%d] of %d accepted" % (kind, i, n), (IndexError,))
                    continue
                check_obj(cam[i], [model[i]], kind, "%s[%d]" % (kind, i), table)
            for k in (1, 2, 3):
                for idx in itertools.product(range(n), repeat=k):
                    want = [model[i] for i in idx]
                    check_obj(cam[list(idx)], want, kind, "%s[%s]" % (kind, idx), table)
                    check_obj(cam[torch.tensor(idx)], want, kind, "%s[tensor %s]" % (kind, idx), table)
                    rec.step(2)
            for mask in itertools.product((False, True), repeat=n):
                if any(mask):
                    check_obj(cam[torch.tensor(mask)], [m for m, k in zip(model, mask) if k], kind,
                              "%s[mask %s]" % (kind, mask), table)
                    rec.step()
            for wrong in (n - 1, n + 1):
                if wrong:
                    expect_raises(lambda: cam[torch.ones(wrong, dtype=torch.bool)], "%s: mask of %d for %d" % (kind, wrong, n),
                                  (ValueError, IndexError))
            for bad_index in ([True] * n, (0,), slice(0, 1), torch.tensor([0.0]), "0", None):
                expect_raises(lambda: cam[bad_index], "%s[%r] accepted" % (kind, bad_index), (ValueError,))
            # joining lists of cameras
            from pytorch3d.renderer.camera_utils import join_cameras_as_batch

            for perm in itertools.product(range(n), repeat=2):
                j = join_cameras_as_batch([cam[i] for i in perm] + [cam])
                check_obj(j, [model[i] for i in perm] + model, kind, "%s: joining %s and all" % (kind, perm), table)
                rec.step()
    from pytorch3d.renderer import FoVPerspectiveCameras, PerspectiveCameras
    from pytorch3d.renderer.camera_utils import join_cameras_as_batch

    for a, b in ((PerspectiveCameras(in_ndc=True), PerspectiveCameras(in_ndc=False, image_size=((4, 4),))),
                 (FoVPerspectiveCameras(degrees=True), FoVPerspectiveCameras(degrees=False)),
                 (FoVPerspectiveCameras(), PerspectiveCameras()),
                 (PerspectiveCameras(image_size=((4, 4),)), PerspectiveCameras()),
                 (PerspectiveCameras(K=torch.eye(4)[None]), PerspectiveCameras())):
        for pair in ([a, b], [b, a], [a, a, b]):
            expect_raises(lambda: join_cameras_as_batch(pair), "cameras that disagree are joined", (ValueError,))
            rec.trace()


def run_gather(case, rec):
    """all index vectors of length up to 4: each gathered row is the indexed element's"""
    table = kinds()
    for kind in ("point", "directional", "ambient", "materials", "generic"):
        for n in (1, 2, 3):
            for label in ("tensor", "mixed"):
                forms = [("tensor1" if i % 2 and label == "mixed" else "tensor") for i in range(len(table[kind][2]))]
                for k in (1, 2, 3, 4):
                    for idx in itertools.product(range(n), repeat=k):
                        make, model, N, bad = build(kind, forms, n, table)
                        obj = clone_of(make(), kind)
                        src = clone_of(obj, kind)
                        out = obj.gather_props(torch.tensor(idx))
                        rec.trace()
                        rec.state([kind, n, label, idx])
                        for p in table[kind][2]:
                            want = torch.tensor([model[i][p] for i in (idx if N > 1 else [0])])
                            expect_close("%s of %d gathered at %s: %s" % (kind, N, idx, p), getattr(out, p), want, 0, 0)
                        check_obj(src, model, kind, "source of a gathered clone", table)
                        if kind in ("point", "directional") and N > 1:
                            pts = PTS[[0, 1, 2, 0]][:k]
                            nrm = torch.tensor([[1.0, 2.0, 2.0], [-1.0, 0.5, 0.0], [0.3, -1.0, 1.0], [0, 1.0, 0]])[:k]
                            d = out.diffuse(nrm, pts)
                            want = torch.cat([single(kind, model[i], table).diffuse(nrm[j: j + 1], pts[j: j + 1])
                                              for j, i in enumerate(idx)])
                            expect_close("%s diffuse of packed points %s" % (kind, idx), d, want, 1e-6, 1e-6)


def run_fisheye(case, rec):
    """every flag combination: indexing, joining and cloning keep every parameter and flag"""
    from pytorch3d.renderer.camera_utils import join_cameras_as_batch
    from pytorch3d.renderer.fisheyecameras import FishEyeCameras

    full = {"R": torch.tensor(RS), "T": torch.tensor(TS), "focal_length": torch.tensor([[1.0], [2.0], [3.0]]),
            "principal_point": torch.tensor([[0.5, 0.25], [-0.5, 0.0], [0.125, 1.0]]),
            "radial_params": torch.arange(18.0).reshape(3, 6) / 1000,
            "tangential_params": torch.arange(6.0).reshape(3, 2) / 1000,
            "thin_prism_params": torch.arange(12.0).reshape(3, 4) / 1000}
    flags = ("world_coordinates", "use_radial", "use_tangential", "use_thin_prism")
    pts = PTS[None] + torch.tensor([0.0, 0.0, 3.0])

    def mk(idx, bits, size):
        kw = {k: v[idx] for k, v in full.items()}
        if size:
            kw["image_size"] = torch.tensor([[4, 5], [6, 7], [8, 9]])[idx]
        return FishEyeCameras(**kw, **dict(zip(flags, bits)))

    def same(a, b, name):
        expect(len(a) == len(b), name + ": length")
        for k in list(full) + ["image_size"]:
            va = getattr(a, k, None) if k != "focal_length" else getattr(a, "focal_length", getattr(a, "focal", None))
            vb = getattr(b, k, None) if k != "focal_length" else getattr(b, "focal_length", getattr(b, "focal", None))
            expect_close("%s: %s" % (name, k), va, vb, 0, 0)
        for k in flags:
            expect(getattr(a, k) == getattr(b, k), "%s: %s is %s" % (name, k, getattr(a, k)))
        if len(a) == 1:
            expect_close(name + ": projection", a.transform_points(pts), b.transform_points(pts), 1e-6, 1e-6)

    for bits in itertools.product((False, True), repeat=4):
        for size in (False, True):
            cam = mk([0, 1, 2], bits, size)
            rec.state([bits, size])
            for idx in ([0], [1], [2], [2, 0], [1, 1, 0]):
                name = "fisheye %s %s [%s]" % (bits, size, idx)
                same(cam[idx], mk(idx, bits, size), name)
                same(cam[torch.tensor(idx)], mk(idx, bits, size), name)
                same(cam[idx].clone(), mk(idx, bits, size), name + " cloned")
                same(join_cameras_as_batch([cam[i] for i in idx]), mk(idx, bits, size), name + " joined")
                rec.trace()
                rec.step(4)
            same(cam[-1], mk([2], bits, size), "fisheye [-1]")
            same(cam[torch.tensor([True, False, True])], mk([0, 2], bits, size), "fisheye mask")
            other = list(bits)
            other[1] = not other[1]
            expect_raises(lambda: join_cameras_as_batch([cam, mk([0], other, size)]), "fisheye cameras that disagree are "
                          "joined", (ValueError,))
