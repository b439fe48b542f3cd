"""C08: every camera model, parameter layout, call-time override and query order against the camera equations in float64."""
import itertools
import math

import torch
from mc.core import Violation, expect, expect_close

import pytorch3d.renderer.cameras as pc
from pytorch3d.renderer.camera_utils import camera_to_eye_at_up, rotate_on_spot
from pytorch3d.renderer.fisheyecameras import FishEyeCameras
from pytorch3d.utils import (cameras_from_opencv_projection, opencv_from_cameras_projection, pulsar_from_cameras_projection,
                             pulsar_from_opencv_projection)

PROPERTY = "C08"
ASSUMPTIONS = [
    "view depths of magnitude 0.3..6 in front of and behind the camera (no division by zero depth)",
    "fisheye: distortion small enough for the projection to be one-to-one in the tested field of view; un-projection for unit depth",
    "look-at: target differs from the camera position",
]
BOUNDS = {
    "quick": "6 camera models x N 1..3 x every parameter layout (number/list/vector/column/pair/one row/K) x 5 image-size settings x 8 poses x 3 "
             "point layouts, 60 points each (behind the camera too), all queries; every ordered pair of queries on one object; every subset of "
             "call-time overrides; 26 x 12 x 3 look-at geometries incl. vertical and nearly vertical views; OpenCV/pulsar conversions for 6 image sizes x "
             "3 intrinsics x 8 poses; fisheye: all flag combinations x 4 distortions x N 1..2; gradients of the screen position with respect "
             "to every parameter",
    "thorough": "as quick with every ordered triple of queries and 20 poses",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64


# ------------------------------------------------------------------ scene data
def rots():
    out = [torch.eye(3, dtype=f64)]

    def r(ax, an):
        ax = torch.tensor(ax, dtype=f64)
        ax = ax / ax.norm()
        K = torch.tensor([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]], dtype=f64)
        return torch.matrix_exp(K * an)
    for ax, an in (((0, 1, 0), math.pi), ((1, 0, 0), math.pi / 2), ((0, 0, 1), -math.pi / 2), ((1, 1, 0), 0.7), ((0.3, -0.5, 0.8), 2.4), ((1, 2, 3), -1.1),
                   ((-2, 0.1, 0.4), 3.0), ((1, 0, 0), 0.2), ((0, 1, 1), 1.2), ((0, 0, 1), 0.4), ((1, -1, 1), 2.0944), ((5, 1, 1), 0.9), ((1, 7, 1), -0.3),
                   ((1, 1, 9), 1.9), ((-1, -1, 2), 2.9), ((0, 2, -1), 1.4), ((1, 0, -2), -2.2), ((3, -1, 0), 0.05), ((2, 3, -1), 1.57)):
        out.append(r(ax, an))
    return torch.stack(out).float().double()


ROTS = rots()
TS = torch.tensor([[0, 0, 0], [0.5, -1, 2], [-2, 0.25, 0.75], [1, 2, -3], [0, 0, 4], [3, 0, 0], [-0.1, 0.2, 0.3], [0, -2, 1]], dtype=f64)


def view_points():
    xs = torch.tensor([-1.3, 0.0, 0.4, 2.1], dtype=f64)
    ys = torch.tensor([-0.9, 0.0, 1.7], dtype=f64)
    zs = torch.tensor([0.3, 1.0, 2.5, 6.0, -0.8], dtype=f64)
    return torch.stack(torch.meshgrid(xs, ys, zs, indexing="ij"), -1).reshape(-1, 3)


FOC = [(1.5, 0.75), (2.0, 3.0), (0.6, 1.1)]
PP = [(0.25, -0.5), (0.0, 0.125), (-0.3, 0.4)]
FOC_S = [(12.0, 9.0), (20.0, 31.0), (7.5, 15.0)]
PP_S = [(4.5, 2.0), (1.0, 7.5), (6.0, 3.25)]
IMS = {"square": [(8, 8)] * 3, "wide": [(6, 11)] * 3, "tall": [(13, 4)] * 3, "each": [(6, 11), (9, 9), (13, 4)]}
ZN, ZF, FOV, ASP = [0.5, 1.0, 0.1], [50.0, 100.0, 10.0], [60.0, 45.0, 95.0], [1.0, 1.5, 0.6]
MX, MN, MY, NY = [1.0, 2.0, 0.5], [-1.5, -0.5, -2.0], [0.8, 1.0, 2.0], [-0.6, -1.4, -1.0]
SC = [(1.0, 1.0, 1.0), (2.0, 0.5, 1.5), (1.2, 0.7, 0.8)]


def base(model, N, layout, ppl, ims):
    """-> reference parameters {name: float64 tensor with leading N} of the values, constructor kwargs in the asked layout"""
    P, kw = {}, {}

    def vec(name, vals, lay=layout):
        if lay == "number":
            v = [vals[0]] * N
            kw[name] = vals[0]
        elif lay == "list":
            v = vals[:N]
            kw[name] = list(v)
        elif lay == "one":
            v = [vals[0]] * N
            kw[name] = torch.tensor([vals[0]])
        else:
            v = vals[:N]
            kw[name] = torch.tensor(v)
        P[name] = torch.tensor(v, dtype=f64)

    if model in ("persp_ndc", "persp_scr", "orth_ndc", "orth_scr"):
        F, C = (FOC_S, PP_S) if model.endswith("scr") else (FOC, PP)
        if layout == "number":
            f = [(F[0][0],) * 2] * N
            kw["focal_length"] = F[0][0]
        elif layout in ("list", "vector", "column"):
            f = [(F[i][0],) * 2 for i in range(N)]
            v = [F[i][0] for i in range(N)]
            kw["focal_length"] = v if layout == "list" else torch.tensor(v) if layout == "vector" else torch.tensor(v)[:, None]
        elif layout == "one":
            f = [F[0]] * N
            kw["focal_length"] = torch.tensor([F[0]])
        else:
            f = F[:N]
            kw["focal_length"] = torch.tensor(f)
        if ppl == "default":
            c = [(0.0, 0.0)] * N
        elif ppl == "one":
            c = [C[1]] * N
            kw["principal_point"] = (C[1],)
        else:
            c = C[:N]
            kw["principal_point"] = torch.tensor(c) if ppl == "tensor" else [list(x) for x in c]
        P["focal_length"], P["principal_point"] = torch.tensor(f, dtype=f64), torch.tensor(c, dtype=f64)
        kw["in_ndc"] = model.endswith("ndc")
        if ims != "none":
            v = IMS[ims][:N]
            kw["image_size"] = (v[0],) if ims == "square" else torch.tensor(v)
        if layout == "K":
            K = torch.zeros(N, 4, 4)
            ft, ct = torch.tensor(f), torch.tensor(c)
            K[:, 0, 0], K[:, 1, 1] = ft[:, 0], ft[:, 1]
            if model.startswith("persp"):
                K[:, 0, 2], K[:, 1, 2], K[:, 3, 2], K[:, 2, 3] = ct[:, 0], ct[:, 1], 1, 1
            else:
                K[:, 0, 3], K[:, 1, 3], K[:, 2, 2], K[:, 3, 3] = ct[:, 0], ct[:, 1], 1, 1
            kw["K"] = K
            kw.pop("focal_length", None)
            kw.pop("principal_point", None)
    elif model == "fovp":
        for n, v in (("znear", ZN), ("zfar", ZF), ("aspect_ratio", ASP)):
            vec(n, v)
        if ppl == "rad":
            vec("fov", [math.radians(v) for v in FOV])
            kw["degrees"] = False
            P["fov"] = P["fov"]
        else:
            vec("fov", FOV)
            P["fov"] = P["fov"] * math.pi / 180
        if layout == "K":
            K = torch.zeros(N, 4, 4, dtype=f64)
            t = torch.tan(P["fov"] / 2)
            K[:, 0, 0], K[:, 1, 1], K[:, 3, 2] = 1 / (t * P["aspect_ratio"]), 1 / t, 1
            K[:, 2, 2], K[:, 2, 3] = P["zfar"] / (P["zfar"] - P["znear"]), -P["zfar"] * P["znear"] / (P["zfar"] - P["znear"])
            kw = {"K": K.float()}
    else:
        for n, v in (("znear", ZN), ("zfar", ZF), ("max_x", MX), ("min_x", MN), ("max_y", MY), ("min_y", NY)):
            vec(n, v)
        s = [SC[1]] * N if layout in ("number", "one") else SC[:N]
        P["scale_xyz"] = torch.tensor(s, dtype=f64)
        kw["scale_xyz"] = (SC[1],) if layout in ("number", "one") else [list(x) for x in s] if layout == "list" else torch.tensor(s)
        if layout == "K":
            K = torch.zeros(N, 4, 4, dtype=f64)
            w, h, d = P["max_x"] - P["min_x"], P["max_y"] - P["min_y"], P["zfar"] - P["znear"]
            K[:, 0, 0], K[:, 1, 1], K[:, 2, 2], K[:, 3, 3] = 2 / w * P["scale_xyz"][:, 0], 2 / h * P["scale_xyz"][:, 1], P["scale_xyz"][:, 2] / d, 1
            K[:, 0, 3], K[:, 1, 3], K[:, 2, 3] = -(P["max_x"] + P["min_x"]) / w, -(P["max_y"] + P["min_y"]) / h, -P["znear"] / d
            kw = {"K": K.float()}
    P["ims"] = torch.tensor((IMS[ims] if ims != "none" else IMS["each"])[:N], dtype=f64)
    return P, kw


CLS = {"persp_ndc": pc.PerspectiveCameras, "persp_scr": pc.PerspectiveCameras, "orth_ndc": pc.OrthographicCameras, "orth_scr": pc.OrthographicCameras,
       "fovp": pc.FoVPerspectiveCameras, "fovo": pc.FoVOrthographicCameras}


# ------------------------------------------------------------------ camera equations
def r_view(P, X):
    return X @ P["R"] + P["T"][:, None]


def r_proj(model, P, V):
    """V (N,P,3) view -> projection-space points"""
    x, y, z = V.unbind(-1)

    def c(n):
        return P[n][:, None]
    if model.startswith("persp"):
        f, p = P["focal_length"], P["principal_point"]
        return torch.stack([f[:, :1] * x / z + p[:, :1], f[:, 1:] * y / z + p[:, 1:], 1 / z], -1)
    if model.startswith("orth"):
        f, p = P["focal_length"], P["principal_point"]
        return torch.stack([f[:, :1] * x + p[:, :1], f[:, 1:] * y + p[:, 1:], z], -1)
    d = c("zfar") - c("znear")
    if model == "fovp":
        t = torch.tan(c("fov") / 2)
        return torch.stack([x / (z * t * c("aspect_ratio")), y / (z * t), c("zfar") * (z - c("znear")) / (d * z)], -1)
    s = P["scale_xyz"]
    w, h = c("max_x") - c("min_x"), c("max_y") - c("min_y")
    return torch.stack([(2 * s[:, :1] * x - c("max_x") - c("min_x")) / w, (2 * s[:, 1:2] * y - c("max_y") - c("min_y")) / h,
                        (s[:, 2:] * z - c("znear")) / d], -1)


def r_half(P):
    H, W = P["ims"][:, :1], P["ims"][:, 1:]
    return torch.minimum(H, W) / 2, H, W


def r_screen(model, P, V):
    p = r_proj(model, P, V)
    s, H, W = r_half(P)
    x, y, z = p.unbind(-1)
    if model.endswith("scr"):  # the camera equations with pixel units: +X left, +Y up seen from the camera, pixels right/down
        c = P["principal_point"]
        return torch.stack([2 * c[:, :1] - x, 2 * c[:, 1:] - y, z], -1)
    return torch.stack([W / 2 - s * x, H / 2 - s * y, z], -1)


def r_ndc(model, P, V):
    if not model.endswith("scr"):
        return r_proj(model, P, V)
    s, H, W = r_half(P)
    q = r_screen(model, P, V)
    return torch.stack([(W / 2 - q[..., 0]) / s, (H / 2 - q[..., 1]) / s, q[..., 2]], -1)


# ------------------------------------------------------------------ queries
def queries(model, P, X, V, has_ims):
    """name -> (call(cam, pts(world), view, kw), expected)"""
    ik = {} if has_ims else {"image_size": P["ims"].float()}
    proj, ndc, scr = r_proj(model, P, V), r_ndc(model, P, V), r_screen(model, P, V)
    s, H, W = r_half(P)
    depth = V[..., 2:]
    eps_v = V.clone()
    q = {}
    q["points"] = (lambda c, x, v, k: c.transform_points(x, **k), proj)
    q["full"] = (lambda c, x, v, k: c.get_full_projection_transform(**k).transform_points(x), proj)
    q["view"] = (lambda c, x, v, k: c.get_world_to_view_transform(**k).transform_points(x), V)
    q["proj"] = (lambda c, x, v, k: c.get_projection_transform(**k).transform_points(v), proj)
    q["ndc"] = (lambda c, x, v, k: c.transform_points_ndc(x, **(ik if model.endswith("scr") else {}), **k), ndc)
    q["screen"] = (lambda c, x, v, k: c.transform_points_screen(x, **ik, **k), scr)
    q["screen_noflip"] = (lambda c, x, v, k: c.transform_points_screen(x, with_xyflip=False, **ik, **k), torch.cat([-scr[..., :2], scr[..., 2:]], -1))
    q["center"] = (lambda c, x, v, k: c.get_camera_center(**k), -(P["T"][:, None] @ P["R"].transpose(1, 2))[:, 0])
    xyd = torch.cat([proj[..., :2], depth], -1).float()
    xyn = torch.cat([ndc[..., :2], depth], -1).float()
    q["unproject"] = (lambda c, x, v, k: c.unproject_points(xyd, **k), X)
    q["unproject_view"] = (lambda c, x, v, k: c.unproject_points(xyd, world_coordinates=False, **k), V)
    if model.startswith("fov"):
        q["unproject_scaled"] = (lambda c, x, v, k: c.unproject_points(proj.float(), scaled_depth_input=True, **k), X)
        q["unproject_scaled_view"] = (lambda c, x, v, k: c.unproject_points(proj.float(), scaled_depth_input=True, world_coordinates=False, **k), V)
    else:
        if has_ims or model.endswith("ndc"):
            q["unproject_ndc"] = (lambda c, x, v, k: c.unproject_points(xyn, from_ndc=True, **k), X)
            q["unproject_ndc_view"] = (lambda c, x, v, k: c.unproject_points(xyn, from_ndc=True, world_coordinates=False, **k), V)
        q["pp"] = (lambda c, x, v, k: c.get_principal_point(**k), P["principal_point"])
    if has_ims or not model.endswith("scr"):
        q["ndc_transform"] = (lambda c, x, v, k: c.get_projection_transform(**k).compose(c.get_ndc_camera_transform(**k)).transform_points(v), ndc)
    q["ndc_screen"] = (lambda c, x, v, k: pc.get_ndc_to_screen_transform(c, with_xyflip=True, image_size=P["ims"].float()).transform_points(ndc.float()), scr)
    q["screen_ndc"] = (lambda c, x, v, k: pc.get_screen_to_ndc_transform(c, with_xyflip=True, image_size=P["ims"].float()).transform_points(scr.float()), ndc)
    return q


def pose(N, off, nR):
    idx = [(off + 3 * i) % nR for i in range(N)]
    return ROTS[idx], TS[[(off + i) % len(TS) for i in range(N)]]


def tol_of(want):
    return 2e-4 * max(1.0, float(want.abs().max()) / 10)


def check_all(tag, model, P, make, N, has_ims, rec, ptl, names=None, k={}):
    V1 = view_points()
    if ptl == "NP3":
        V = torch.stack([V1 + 0.1 * i for i in range(N)])
        V[..., 2] = V1[:, 2]
        X = (V - P["T"][:, None]) @ P["R"].transpose(1, 2)
        Xin = X.float()
    else:  # one set of world points for all cameras, given in view coordinates of the first one
        X1 = (V1 - P["T"][0]) @ P["R"][0].T
        Xin = X1.float() if ptl == "P3" else X1.float()[None]
        X = X1[None].expand(N, -1, -1)
    X = X.float().double()
    V = r_view(P, X)
    ok = (V[..., 2].abs() > 0.05).all(0)
    X, V = X[:, ok], V[:, ok]
    Xin = Xin[..., ok, :]
    q = queries(model, P, X, V, has_ims)
    squeeze = N == 1 and ptl == "P3"
    vin = V.float()[0] if squeeze else V.float()
    for n in names or q:
        if n not in q:
            continue
        cam = make()
        f, want = q[n]
        got = f(cam, Xin, vin, k)
        if squeeze and got.ndim == 2 and want.ndim == 3:
            got = got[None]
        near = V[..., 2].abs().min()
        rt = 2e-4 if near > 0.2 else 2e-3
        if n.startswith("unproject") and model == "fovp":
            rt *= 10  # depth from the non-linear z
        scale = float(want.abs().max())
        expect_close("%s: %s" % (tag, n), got, want, atol=(2e-4 if not n.startswith("unproject") else 2e-3) * max(1.0, scale / 10), rtol=rt)
        rec.step()
    return q


LAYOUTS = {"persp": ["number", "list", "vector", "column", "pair", "one", "K"], "fov": ["number", "list", "vector", "one", "K"]}


def cases(tier):
    th = tier == "thorough"
    nR = 20 if th else 8
    out = []
    for m in CLS:
        for N in (1, 2, 3):
            for lay in LAYOUTS["fov" if m.startswith("fov") else "persp"]:
                for ppl in (("deg", "rad") if m == "fovp" else ("-",) if m == "fovo" else ("default", "one", "list", "tensor")):
                    out.append(["model", m, N, lay, ppl, nR])
    for m in CLS:
        for N in (1, 2):
            out.append(["history", m, N, 3 if th else 2])
            out.append(["override", m, N])
            out.append(["grad", m, N])
    out += [["lookat", i] for i in range(len(UPS))]
    out += [["spherical"], ["onspot"], ["misc"], ["alias"]]
    out += [["opencv", n] for n in (1, 2, 3)]
    out += [["fisheye", fl, d] for fl in range(8) for d in range(5)]
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.trace()
    rec.sample({"case": case})


def run_alias(case, rec):
    """the old names of the cameras build the same cameras: any two settings changed together"""
    import warnings
    R, T = pose(2, 1, 8)
    RT = {"R": R.float(), "T": T.float()}
    table = [
        (pc.OpenGLPerspectiveCameras, pc.FoVPerspectiveCameras, {}, {"znear": 0.5, "zfar": 7.0, "aspect_ratio": 1.5, "fov": 0.9, "degrees": False, **RT}),
        (pc.OpenGLOrthographicCameras, pc.FoVOrthographicCameras, {"top": "max_y", "bottom": "min_y", "left": "min_x", "right": "max_x"},
         {"znear": 0.5, "zfar": 7.0, "top": 2.0, "bottom": -1.5, "left": -3.0, "right": 2.5, "scale_xyz": ((1.0, 2.0, 0.5),), **RT}),
        (pc.SfMPerspectiveCameras, pc.PerspectiveCameras, {}, {"focal_length": torch.tensor([[1.5, 2.0]]), "principal_point": ((0.1, -0.3),), **RT}),
        (pc.SfMOrthographicCameras, pc.OrthographicCameras, {}, {"focal_length": torch.tensor([[1.5, 2.0]]), "principal_point": ((0.1, -0.3),), **RT}),
    ]
    x = torch.tensor([[0.3, -0.4, 2.0], [1.0, 0.7, 3.0], [-0.6, 0.2, 5.0]])
    for old, new, names, kw in table:
        for n in range(3):
            for keys in itertools.combinations(kw, n):
                a = {k: kw[k] for k in keys}
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    c = old(**a)
                want = new(**{names.get(k, k): v for k, v in a.items()})
                expect(type(c) is type(want), "%s builds %s" % (old.__name__, type(c)))
                expect_close("%s(%s)" % (old.__name__, ", ".join(keys)), c.get_full_projection_transform().transform_points(x), want.get_full_projection_transform().transform_points(x), 1e-6, 1e-6)
                rec.step()
        rec.state(old.__name__)


def run_model(case, rec):
    _, m, N, lay, ppl, nR = case
    for ims in list(IMS) if m.endswith("scr") else ["none"] + list(IMS):
        if ims == "none" or not m.startswith("fov"):
            for off in range(nR):
                P, kw = base(m, N, lay, ppl, ims)
                P["R"], P["T"] = pose(N, off, nR)
                kw["R"], kw["T"] = P["R"].float(), P["T"].float()
                for ptl in ("P3", "1P3", "NP3") if off < 3 else ("NP3",):
                    check_all("%s N=%d params as %s/%s, image %s, pose %d, points %s" % (m, N, lay, ppl, ims, off, ptl), m, P,
                              lambda: CLS[m](**kw), N, "image_size" in kw, rec, ptl)
                    rec.trace()
            rec.state([m, N, lay, ppl, ims])
    if m.startswith("fov") and lay in ("number", "one"):
        return
    # one pose for all cameras (R, T broadcast)
    P, kw = base(m, N, lay, ppl, "wide")
    P["R"], P["T"] = ROTS[5:6].expand(N, 3, 3), TS[1:2].expand(N, 3)
    kw["R"], kw["T"] = ROTS[5:6].float(), TS[1:2].float()
    check_all("%s N=%d params as %s/%s, one pose for all" % (m, N, lay, ppl), m, P, lambda: CLS[m](**kw), N, "image_size" in kw, rec, "P3" if N == 1 else "NP3")


def run_history(case, rec):
    _, m, N, depth = case
    P, kw = base(m, N, "vector", {"fovp": "deg", "fovo": "-"}.get(m, "tensor"), "each")
    P["R"], P["T"] = pose(N, 4, 8)
    kw["R"], kw["T"] = P["R"].float(), P["T"].float()
    V = torch.stack([view_points() + 0.1 * i for i in range(N)])
    V[..., 2] = view_points()[:, 2]
    X = ((V - P["T"][:, None]) @ P["R"].transpose(1, 2)).float().double()
    V = r_view(P, X)
    P2 = dict(P, R=P["R"].roll(1, 0) @ ROTS[6], T=P["T"] + 0.5)
    X2 = (V - P2["T"][:, None]) @ P2["R"].transpose(1, 2)
    q = queries(m, P, X, V, "image_size" in kw)
    q2 = queries(m, P2, X2, V, "image_size" in kw)
    names = list(q)
    acts = names + ["clone", "index", "setRT", "to"]
    for seq in itertools.product(acts, repeat=depth - 1):
        cam = CLS[m](**kw)
        cur, Xc = q, X
        for a in seq:
            if a == "clone":
                cam = cam.clone()
            elif a == "index":
                cam = cam[list(range(N))]
            elif a == "to":
                cam = cam.to("cpu")
            elif a == "setRT":
                cam.R, cam.T = P2["R"].float(), P2["T"].float()
                cur, Xc = q2, X2
            else:
                cur[a][0](cam, Xc.float(), V.float(), {})
        for n in names:  # the last query, on the same object
            want = cur[n][1]
            expect_close("%s after %s: %s" % (m, list(seq), n), cur[n][0](cam, Xc.float(), V.float(), {}), want,
                         atol=2e-3 * max(1.0, float(want.abs().max()) / 10), rtol=3e-3)
            rec.step()
        rec.trace()
        rec.state([m, N, seq])


def run_override(case, rec):
    _, m, N = case
    ppl = {"fovp": "deg", "fovo": "-"}.get(m, "tensor")
    P, kw = base(m, N, "vector" if m.startswith("fov") else "pair", ppl, "each")
    P["R"], P["T"] = pose(N, 4, 8)
    kw["R"], kw["T"] = P["R"].float(), P["T"].float()
    other = {"R": ROTS[[6, 2]][:N].clone(), "T": TS[[3, 5]][:N].clone()}
    if m.startswith("fov"):
        for n in P:
            if n not in ("R", "T", "ims"):
                other[n] = P[n].flip(0) * 1.1 if N > 1 else P[n] * 1.1
    else:
        other["focal_length"] = P["focal_length"] * 1.3
        other["principal_point"] = P["principal_point"] * 0.5 + 0.1
        if m.endswith("scr"):
            other["image_size"] = torch.tensor([[7.0, 12.0], [10, 5]], dtype=f64)[:N]
    keys = list(other)
    for r in range(1, len(keys) + 1):
        for sub in itertools.combinations(keys, r):
            Q = dict(P)
            k = {}
            for n in sub:
                v = other[n]
                if n == "image_size":
                    Q["ims"] = v
                else:
                    Q[n] = v
                k[n] = (v * 180 / math.pi if n == "fov" else v).float()
            names = None
            if any(n not in ("R", "T") for n in sub):
                names = [n for n in queries(m, Q, torch.zeros(N, 1, 3, dtype=f64), torch.ones(N, 1, 3, dtype=f64), True)
                         if n not in ("view", "center")]
            if set(sub) & {"R", "T"} and set(sub) != {"R", "T"}:
                pass
            check_all("%s with %s given in the call" % (m, list(sub)), m, Q, lambda: CLS[m](**kw), N, "image_size" in kw, rec, "NP3", names=names, k=k)
            rec.trace()
            rec.state([m, N, sub])
    if not m.startswith("fov"):
        K = base(m, N, "K", ppl, "each")[1]["K"]
        Q = dict(P)
        kw2 = dict(kw, focal_length=kw["focal_length"] * 2)
        check_all("%s with K given in the call" % m, m, Q, lambda: CLS[m](**kw2), N, "image_size" in kw, rec, "NP3", k={"K": K},
                  names=["points", "full", "proj", "ndc", "screen", "unproject", "unproject_view", "unproject_ndc", "pp", "ndc_transform"])


def run_grad(case, rec):
    _, m, N = case
    ppl = {"fovp": "deg", "fovo": "-"}.get(m, "tensor")
    P, kw = base(m, N, "vector" if m.startswith("fov") else "pair", ppl, "each")
    P["R"], P["T"] = pose(N, 4, 8)
    kw["R"], kw["T"] = P["R"].float(), P["T"].float()
    V = torch.stack([view_points() + 0.1 * i for i in range(N)])
    V[..., 2] = view_points()[:, 2]
    X = ((V - P["T"][:, None]) @ P["R"].transpose(1, 2)).float().double()
    names = [n for n in P if n not in ("ims",)]
    leaf = {n: P[n].clone().requires_grad_(True) for n in names}
    Xl = X.clone().requires_grad_(True)
    w = (torch.arange(X.numel(), dtype=f64) * 0.618034 % 1 + 0.2).reshape(X.shape)
    Q = dict(leaf, ims=P["ims"])
    for what in ("screen", "ndc", "points"):
        ref = {"screen": r_screen, "ndc": r_ndc, "points": r_proj}[what](m, Q, r_view(Q, Xl))
        want = torch.autograd.grad((ref * w).sum(), [leaf[n] for n in names] + [Xl], allow_unused=True)
        for via in ("constructor", "call"):
            lf = {n: kw[n].clone().requires_grad_(True) if torch.is_tensor(kw.get(n)) else P[n].float().requires_grad_(True) for n in names}
            xf = X.float().requires_grad_(True)
            if via == "constructor":
                cam, k = CLS[m](**dict(kw, **lf)), {}
            else:
                cam, k = CLS[m](**kw), lf
            if what == "screen":
                out = cam.transform_points_screen(xf, **({} if "image_size" in kw else {"image_size": P["ims"].float()}), **k)
            elif what == "ndc":
                out = cam.transform_points_ndc(xf, **k)
            else:
                out = cam.transform_points(xf, **k)
            got = torch.autograd.grad((out * w.float()).sum(), [lf[n] for n in names] + [xf], allow_unused=True)
            for n, g, r in zip(names + ["points"], got, want):
                if r is None:
                    r = torch.zeros_like(Q[n])
                if n == "fov":
                    r = r * math.pi / 180
                expect(g is not None or not bool(r.abs().max() > 0), "%s: no gradient of %s for %s (%s)" % (m, what, n, via))
                if g is not None:
                    expect_close("%s: gradient of %s with respect to %s (%s)" % (m, what, n, via), g, r, atol=1e-3 * max(1.0, float(r.abs().max())), rtol=1e-3)
            rec.step(len(names) + 1)
    rec.state(case)


# ------------------------------------------------------------------ look-at
UPS = [[0, 1, 0], [0, 0, 1], [1, 0, 0], [0, -1, 0], [1, 1, 0], [0.3, -0.5, 0.8], [0, 2, 0], [0, 0, -0.5], [-1, 2, 3], [0.001, 1, 0], [0, 1, 1], [1, 1, 1]]


def lookat_dirs():
    d = [list(v) for v in itertools.product((-1.0, 0, 1), repeat=3) if any(v)]
    for e in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 1e-6, 1e-7, 1e-8, 1e-10, 1e-14):
        d += [[e, 1, 0], [0, -1, e], [e, 0, -1], [1, e, e], [-e, 1, e]]
    return d


def check_rt(tag, R, T, eye, at, up, rec):
    R, T, eye, at, up = (t.double() for t in (R, T, eye, at, up))
    N = len(R)
    expect_close(tag + ": R is a rotation", R.transpose(1, 2) @ R, torch.eye(3).expand(N, 3, 3), atol=2e-5)
    expect_close(tag + ": R keeps orientation", torch.linalg.det(R), torch.ones(N), atol=2e-5)
    vat = (at[:, None] @ R)[:, 0] + T
    d = (at - eye).norm(dim=1)
    expect_close(tag + ": the target is straight ahead", vat, torch.stack([0 * d, 0 * d, d], 1), atol=2e-5 * float(1 + d.max() + eye.abs().max()))
    expect_close(tag + ": the camera centre", -(T[:, None] @ R.transpose(1, 2))[:, 0], eye, atol=2e-5 * float(1 + eye.abs().max()))
    # up in view coordinates: no sideways component, not downwards
    upv = (up[:, None] @ R)[:, 0] / up.norm(dim=1, keepdim=True)
    horiz = torch.linalg.cross(up / up.norm(dim=1, keepdim=True), (at - eye) / d[:, None]).norm(dim=1)
    clear = horiz > 1e-3
    expect_close(tag + ": up has no sideways part", upv[clear][:, 0], torch.zeros(int(clear.sum())), atol=5e-4)
    expect(not bool((upv[:, 1] < -1e-5).any()), tag + ": the camera is upside down")
    rec.step(N)


def run_lookat(case, rec):
    up = torch.tensor(UPS[case[1]], dtype=torch.float32)
    dirs = torch.tensor(lookat_dirs(), dtype=torch.float32)
    n = len(dirs)
    for at in ([0.0, 0, 0], [1.0, -2, 0.5]):
        for dist in (1.0, 3.5):
            at_t = torch.tensor([at])
            eye = at_t - dirs * dist
            tag = "look_at_view_transform(up=%s, at=%s, distance %s)" % (UPS[case[1]], at, dist)
            R, T = pc.look_at_view_transform(eye=eye, at=at_t, up=up[None])
            for i in range(n):
                try:
                    check_rt(tag + " from direction %s" % dirs[i].tolist(), R[i:i + 1], T[i:i + 1], eye[i:i + 1], at_t, up[None], rec)
                except Violation as v:
                    v.case = case
                    raise
            expect_close(tag + ": look_at_rotation", pc.look_at_rotation(eye, at=at_t, up=up[None]), R, atol=1e-6)
            for i in range(0, n, 5):
                R1, T1 = pc.look_at_view_transform(eye=[eye[i].tolist()], at=[at], up=[up.tolist()])
                expect_close(tag + ": alone and in a batch", R1[0], R[i], atol=1e-6)
                expect_close(tag + ": alone and in a batch, T", T1[0], T[i], atol=1e-6)
            cam = pc.FoVPerspectiveCameras(R=R, T=T)
            e2, a2, u2 = camera_to_eye_at_up(cam.get_world_to_view_transform())
            expect_close(tag + ": camera_to_eye_at_up eye", e2, eye, atol=1e-4)
            ahead = (at_t - eye) / (at_t - eye).norm(dim=1, keepdim=True)
            expect_close(tag + ": camera_to_eye_at_up at", a2, eye + ahead, atol=1e-4)
            R2, T2 = pc.look_at_view_transform(eye=e2, at=a2, up=u2)
            expect_close(tag + ": rebuilt from camera_to_eye_at_up", R2, R, atol=1e-4)
            expect_close(tag + ": rebuilt from camera_to_eye_at_up, T", T2, T, atol=5e-4)
            rec.trace(n)
    rec.state(case)


def run_spherical(case, rec):
    els = [-90.0, -60, -0.5, 0, 30, 89, 89.99, 89.9999, 90, 120, 180]
    azs = [0.0, 45, 90, 180, -135, 270, 360, 725]
    for at in ([0.0, 0, 0], [1.0, -2, 0.5]):
        for dist in (1.0, 2.7):
            E, A = torch.meshgrid(torch.tensor(els, dtype=f64), torch.tensor(azs, dtype=f64), indexing="ij")
            E, A = E.reshape(-1), A.reshape(-1)
            for degrees in (True, False):
                e_in, a_in = (E, A) if degrees else (torch.deg2rad(E), torch.deg2rad(A))
                e, a = torch.deg2rad(E), torch.deg2rad(A)
                C = dist * torch.stack([e.cos() * a.sin(), e.sin(), e.cos() * a.cos()], 1)
                got = pc.camera_position_from_spherical_angles(dist, e_in.float(), a_in.float(), degrees=degrees)
                expect_close("camera_position_from_spherical_angles", got, C, atol=1e-5)
                R, T = pc.look_at_view_transform(dist, e_in.float(), a_in.float(), degrees=degrees, at=[at])
                eye = C + torch.tensor(at, dtype=f64)
                check_rt("look_at_view_transform(dist=%s, at=%s, degrees=%s)" % (dist, at, degrees), R, T, eye, torch.tensor([at]).expand(len(eye), 3),
                         torch.tensor([[0, 1.0, 0]]).expand(len(eye), 3), rec)
                for i in range(0, len(E), 7):
                    R1, T1 = pc.look_at_view_transform(dist, float(e_in[i]), float(a_in[i]), degrees=degrees, at=[at])
                    ok = abs(abs(E[i]) - 90) > 1
                    if ok:
                        expect_close("look_at_view_transform alone", R1[0], R[i], atol=1e-5)
                        expect_close("look_at_view_transform alone, T", T1[0], T[i], atol=1e-5)
                rec.trace(len(E))
    R, T = pc.look_at_view_transform([1.0, 2.0], 30, [0, 90.0])
    expect(R.shape == (2, 3, 3) and T.shape == (2, 3), "look_at_view_transform: broadcasting")
    e = torch.tensor([math.radians(30)] * 2, dtype=f64)
    a = torch.tensor([0, math.pi / 2], dtype=f64)
    C = torch.tensor([[1.0], [2.0]], dtype=f64) * torch.stack([e.cos() * a.sin(), e.sin(), e.cos() * a.cos()], 1)
    check_rt("look_at_view_transform with lists", R, T, C, torch.zeros(2, 3), torch.tensor([[0, 1.0, 0]]).expand(2, 3), rec)
    rec.state(case)


def run_onspot(case, rec):
    for i, j in itertools.product(range(8), range(8)):
        for nb in (1, 2):
            R = ROTS[[i, (i + 1) % 8][:nb]].float()
            T = TS[[j, (j + 3) % 8][:nb]].float()
            rot = ROTS[[(i + j) % 8, j][:nb]].float()
            for drop in (False, True):
                if drop and nb > 1:
                    continue
                a = (R[0], T[0], rot[0]) if drop else (R, T, rot)
                R2, T2 = rotate_on_spot(*a)
                c1 = -(T[:, None] @ R.transpose(1, 2))[:, 0]
                c2 = -(T2[:, None] @ R2.transpose(1, 2))[:, 0]
                expect_close("rotate_on_spot keeps the camera centre", c2, c1, atol=1e-4)
                X = torch.tensor([[[0.3, 2.0, -1.0], [1, 1, 1]]]).expand(nb, -1, -1)
                v1 = X @ R + T[:, None]
                v2 = X @ R2 + T2[:, None]
                # the camera turns by `rotation` in its own frame: view coordinates turn by its inverse
                expect_close("rotate_on_spot turns the view", v2, v1 @ rot.transpose(1, 2), atol=1e-4)
                rec.step()
            rec.trace()
    rec.state(case)


def run_misc(case, rec):
    # eps keeps points near the camera plane finite, and changes nothing elsewhere
    cam = pc.PerspectiveCameras(focal_length=2.0)
    pts = torch.tensor([[1.0, 1, 0], [1, -2, 1e-9], [1, 1, -1e-9], [1, 1, 2], [1, 1, -2]])
    for f in (cam.transform_points, cam.transform_points_ndc):
        g = f(pts, eps=1e-3)
        want = torch.tensor([[2e3, 2e3, 1e3], [2e3, -4e3, 1e3], [-2e3, -2e3, -1e3], [1, 1, 0.5], [-1, -1, -0.5]])
        expect_close("transform_points with eps", g, want, atol=1e-3)
    # wrong shapes are rejected
    for c in CLS.values():
        try:
            c(K=torch.eye(3)[None]).get_projection_transform()
        except ValueError:
            pass
        else:
            raise Violation("%s: a 3x3 K is accepted" % c.__name__)
        expect(c().is_perspective() == (c in (pc.PerspectiveCameras, pc.FoVPerspectiveCameras)), "is_perspective of %s" % c.__name__)
        expect(c().in_ndc() is True, "in_ndc of %s" % c.__name__)
    for c in (pc.PerspectiveCameras, pc.OrthographicCameras):
        expect(not c(in_ndc=False, image_size=((4, 4),)).in_ndc(), "in_ndc of a screen camera")
        try:
            c(image_size=((0, 5),))
        except ValueError:
            pass
        else:
            raise Violation("%s: an empty image is accepted" % c.__name__)
    rec.step(10)
    rec.state(case)


# ------------------------------------------------------------------ conversions
def run_opencv(case, rec):
    N = case[1]
    sizes = [[(8, 8)] * 3, [(6, 11)] * 3, [(13, 4)] * 3, [(6, 11), (9, 9), (13, 4)], [(480, 640)] * 3, [(1, 7), (7, 1), (3, 3)]]
    V1 = view_points()
    for si, sz in enumerate(sizes):
        for fi in range(3):
            for off in range(8):
                R, _ = pose(N, off, 8)
                t = TS[[(off + i) % 8 for i in range(N)]]
                size = torch.tensor(sz[:N])
                H, W = size[:, 0].double(), size[:, 1].double()
                K = torch.zeros(N, 3, 3, dtype=f64)
                for i in range(N):
                    f = FOC[(fi + i) % 3]
                    K[i] = torch.tensor([[f[0] * W[i], 0, W[i] * (0.5 + PP[fi][0])], [0, f[1] * W[i], H[i] * (0.5 + PP[fi][1])], [0, 0, 1]])
                X = ((V1[None] - t[:, None]) @ R).float().double()  # R X + t = V
                V = X @ R.transpose(1, 2) + t[:, None]
                p = V @ K.transpose(1, 2)
                px = p[..., :2] / p[..., 2:]
                tag = "image %s, intrinsics %d, pose %d" % (sz[:N], fi, off)
                cam = cameras_from_opencv_projection(R.float(), t.float(), K.float(), size)
                scr = cam.transform_points_screen(X.float())
                sc = float(px.abs().max())
                expect_close("cameras_from_opencv_projection, %s: screen position" % tag, scr[..., :2], px, atol=2e-4 * (1 + sc), rtol=1e-3)
                expect_close("cameras_from_opencv_projection, %s: depth" % tag, cam.get_world_to_view_transform().transform_points(X.float())[..., 2], V[..., 2], atol=1e-4)
                expect_close("cameras_from_opencv_projection, %s: camera centre" % tag, cam.get_camera_center(), -(t[:, None] @ R)[:, 0], atol=1e-4)
                keep = (cam.R.clone(), cam.T.clone())
                R2, t2, K2 = opencv_from_cameras_projection(cam, size)
                expect(torch.equal(keep[0], cam.R) and torch.equal(keep[1], cam.T), "opencv_from_cameras_projection changes its camera")
                expect_close("opencv round trip R, " + tag, R2, R, atol=1e-5)
                expect_close("opencv round trip t, " + tag, t2, t, atol=1e-5)
                expect_close("opencv round trip K, " + tag, K2, K, atol=1e-4 * float(K.max()))
                rec.step(3)
                if len({tuple(s) for s in sz[:N]}) == 1:
                    pul = pulsar_from_opencv_projection(R.float(), t.float(), K.float(), size, znear=0.1)
                    pul2 = pulsar_from_cameras_projection(cam, size)
                    expect_close("pulsar from camera and from opencv, " + tag, pul2, pul, atol=1e-3, rtol=1e-3)
                    Rt = R.transpose(1, 2)
                    expect_close("pulsar position, " + tag, pul[:, :3], -(t[:, None] @ R)[:, 0], atol=1e-4)
                    expect_close("pulsar rotation, " + tag, pul[:, 3:9], Rt[:, :2].reshape(N, 6), atol=1e-5)
                    expect_close("pulsar focal length in pixels, " + tag, pul[:, 9] / pul[:, 10] * W.float(), (K[:, 0, 0] + K[:, 1, 1]) / 2, rtol=1e-3)
                    expect_close("pulsar principal point, " + tag, pul[:, 11:], torch.stack([W / 2 - K[:, 0, 2], K[:, 1, 2] - H / 2], 1), atol=1e-2, rtol=1e-3)
                    rec.step(2)
                rec.trace()
        rec.state([case, si])


# ------------------------------------------------------------------ fisheye
DIST = [
    (torch.zeros(6), torch.zeros(2), torch.zeros(4)),
    (torch.tensor([0.02, -0.01, 0.005, 0.0, 0.002, 0.001]), torch.tensor([0.0, 0.0]), torch.zeros(4)),
    (torch.tensor([0.02, -0.01, 0.005, 0.001, 0.002, -0.001]), torch.tensor([0.01, -0.02]), torch.zeros(4)),
    (torch.zeros(6), torch.zeros(2), torch.tensor([0.01, -0.004, 0.006, 0.003])),
    (torch.tensor([-0.03, 0.01, 0.002, 0.001, 0.0, 0.0]), torch.tensor([-0.01, 0.015]), torch.tensor([0.01, 0.002, -0.006, 0.003])),
]


def r_fish(V, f, c, rp, tp, pp, fl):
    x, y = V[..., 0] / V[..., 2], V[..., 1] / V[..., 2]
    r = (x * x + y * y).sqrt()
    th = torch.atan(r)
    g = torch.where(r > 0, th / torch.where(r > 0, r, torch.ones_like(r)), torch.ones_like(r))
    poly = 1 + sum(rp[k] * th ** (2 * k + 2) for k in range(6))
    xr, yr = g * poly * x, g * poly * y
    u, v = (xr, yr) if fl & 1 else (x, y)
    n = xr * xr + yr * yr
    if fl & 2:
        d = 2 * (xr * tp[0] + yr * tp[1])
        u, v = u + d * xr + n * tp[0], v + d * yr + n * tp[1]
    if fl & 4:
        u, v = u + pp[0] * n + pp[1] * n * n, v + pp[2] * n + pp[3] * n * n
    return torch.stack([f * u + c[0], f * v + c[1], torch.ones_like(u)], -1)


def run_fisheye(case, rec):
    _, fl, d = case
    flags = dict(use_radial=bool(fl & 1), use_tangential=bool(fl & 2), use_thin_prism=bool(fl & 4))
    V = view_points()
    V = torch.cat([V, torch.tensor([[0.0, 0, 1], [0, 0, 3], [1e-4, 0, 1], [0.5, 0.5, 1]], dtype=f64)])
    for f, c in ((1.0, (0.0, 0.0)), (240.0, (320.0, 238.5))):
        for N in (1, 2):
            ds = [DIST[(d + i) % 5] for i in range(N)]
            rp, tp, pp = (torch.stack([x[k] for x in ds]) for k in range(3))
            fc = torch.tensor([[f * (1 + 0.5 * i)] for i in range(N)])
            cc = torch.tensor([[c[0] + i, c[1] - 2 * i] for i in range(N)])
            kw = dict(focal_length=fc, principal_point=cc, radial_params=rp, tangential_params=tp, thin_prism_params=pp, **flags)
            want = torch.stack([r_fish(V, float(fc[i, 0]), cc[i].double(), rp[i].double(), tp[i].double(), pp[i].double(), fl) for i in range(N)])
            tag = "fisheye flags %s distortion %d N=%d focal %s" % (flags, d, N, f)
            for lay in ("P3", "1P3"):
                cam = FishEyeCameras(**kw)
                keep = V.float()
                got = cam.transform_points(keep if lay == "P3" else keep[None])
                expect(torch.equal(keep, V.float()), tag + ": changes its input")
                expect_close(tag + ": projection", got.reshape(want.shape), want, atol=2e-4 * f * 5, rtol=1e-3)
                rec.step()
            # in world coordinates, with a pose
            if N == 1:
                for off in range(8):
                    R, T = pose(1, off, 8)
                    X = (V - T) @ R[0].T
                    cam = FishEyeCameras(R=R.float(), T=T.float(), world_coordinates=True, **kw)
                    expect_close(tag + ": projection of world points", cam.transform_points(X.float()[None])[0], want[0], atol=1e-3 * f * 5, rtol=5e-3)
                    rec.step()
            # un-projection of unit-depth points (the result has unit depth)
            unit = torch.stack([V[:, 0] / V[:, 2].abs(), V[:, 1] / V[:, 2].abs(), torch.ones(len(V), dtype=f64)], 1)
            unit = unit[unit[:, :2].norm(dim=1) < 1.6]
            pr = torch.stack([r_fish(unit, float(fc[i, 0]), cc[i].double(), rp[i].double(), tp[i].double(), pp[i].double(), fl) for i in range(N)])
            cam = FishEyeCameras(**kw)
            if not fl & 1:
                continue
            for i in range(N):
                one = FishEyeCameras(**{k: (v[i:i + 1] if torch.is_tensor(v) else v) for k, v in kw.items()})
                got = one.unproject_points(pr[i].float())
                expect_close(tag + ": un-projection", got, unit, atol=5e-3, rtol=5e-3)
                if N > 1:
                    expect_close(tag + ": un-projection in a batch", cam.unproject_points(pr[i].float())[i], got, atol=1e-4)
                rec.step(2)
            rec.trace()
    rec.state(case)
    if not fl & 1:
        V = V[V[:, 2] == 1][:12]
        one = FishEyeCameras(focal_length=torch.ones(1, 1), principal_point=torch.zeros(1, 2), radial_params=DIST[d][0][None],
                             tangential_params=DIST[d][1][None], thin_prism_params=DIST[d][2][None], **flags)
        expect_close("fisheye without radial distortion: un-projection", one.unproject_points(one.transform_points(V.float())), V, atol=1e-2,
                     key="fisheye-unproject-without-radial")
