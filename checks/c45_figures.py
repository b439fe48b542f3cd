"""C45: figures show exactly the scene they are given, and drawing one changes nothing."""
import copy
import itertools
import re
import warnings

import numpy as np
import torch
from mc.core import Violation, expect, expect_close

PROPERTY = "C45"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
BOUNDS = {
    "quick": "meshes: every batch of 1..2 (3 kinds of mesh, one with unused vertices) x 6 kinds of textures x histories (nothing, packed, padded, edges); clouds: every "
             "batch of sizes 1..4 x features (none, 3, 4) x limit of points 1..5; cameras: batches of 1..3 of 4 poses x scale; rays: every bundle shape x 3 kinds of "
             "bundles x limits of rays and points 1..5; layouts: 1..5 subplots x 1..3 columns x every pair of kinds of structs; viewpoints 1..4 for 1..4 subplots; "
             "individual plots: every list of 1..2 kinds x sizes {1, 2, 3} x both switches; texture images: every size up to 3x4 x 2 conventions x 2 modes",
    "thorough": "batches of 3 meshes and clouds, 5 viewpoints, lists of 3 structs, texture images up to 5x5",
}
ASSUMPTIONS = [
    "random subsets of points and rays are taken as they are drawn: which subset is free, its size and its members' places are not",
    "how far the axes reach beyond the scene, the default sizes of marks and lighting are free; colours are compared within rounding",
]
warnings.filterwarnings("ignore")


def vis():
    from pytorch3d.vis import plotly_vis
    return plotly_vis


def arr(x):
    return np.asarray([float("nan") if v is None else float(v) for v in (x.tolist() if hasattr(x, "tolist") else list(x))], dtype=np.float64)


def xyz(trace):
    return np.stack([arr(trace.x), arr(trace.y), arr(trace.z)], -1)


def close(name, got, want, tol=2e-5):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    expect(got.shape == want.shape, lambda: "%s: shape %s, want %s" % (name, got.shape, want.shape))
    expect(np.allclose(got, want, atol=tol, rtol=tol, equal_nan=True), lambda: "%s: %s, want %s" % (name, got.tolist(), want.tolist()))


def scene_no(trace):
    s = trace.scene or "scene"
    return int(s[5:] or 1) - 1


def ranges(fig, k):
    lay = fig.layout["scene" + str(k + 1)] if k or "scene1" in fig.layout else fig.layout["scene"]
    return np.stack([arr(lay[a]["range"]) for a in ("xaxis", "yaxis", "zaxis")])


def inside(name, pts, fig, k):
    r = ranges(fig, k)
    p = pts[~np.isnan(pts).any(1)]
    tol = 1e-4 + 1e-5 * np.abs(p).max() if len(p) else 0
    expect((p >= r[:, 0] - tol).all() and (p <= r[:, 1] + tol).all(), lambda: "%s: points outside of the axes %s of subplot %d: %s" % (name, r.tolist(), k, p.tolist()))


def rows(a):
    return sorted(tuple(round(float(v), 4) + 0.0 for v in r) for r in np.asarray(a))


# ---------------------------------------------------------------- structs
def mesh_data(kind, s=0.0):
    """(verts, faces); kind 0 triangle, 1 two triangles, 2 triangle with unused vertices far away"""
    if kind == 0:
        v, f = [(0, 0, 0), (1, 0, 0), (0, 1, 0.5)], [(0, 1, 2)]
    elif kind == 1:
        v, f = [(0, 0, 1), (2, 0, 1), (0, 2, 1), (2, 2, 1.5)], [(0, 1, 2), (3, 2, 1)]
    else:
        v, f = [(9, 9, 9), (0, 0, -1), (1, 0, -1), (-8, 7, 6), (0, 1, -1)], [(1, 2, 4)]
    return torch.tensor(v, dtype=torch.float32) + s * torch.tensor([1.0, -2.0, 0.5]), torch.tensor(f)


def make_meshes(kinds, tex):
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
    from pytorch3d.structures import Meshes
    data = [mesh_data(k, float(i)) for i, k in enumerate(kinds)]
    verts, faces = [d[0] for d in data], [d[1] for d in data]
    col = lambda i, n, lo=0.0, hi=1.0: lo + (hi - lo) * ((torch.arange(3 * n, dtype=torch.float32).reshape(n, 3) * 0.37 + 0.11 * i) % 1.0)
    t = None
    if tex == "vertex":
        t = TexturesVertex([col(i, len(v)) for i, v in enumerate(verts)])
    elif tex == "vertexwide":
        t = TexturesVertex([col(i, len(v), -0.5, 1.75) for i, v in enumerate(verts)])
    elif tex in ("atlas1", "atlas2"):
        r = int(tex[-1])
        t = TexturesAtlas([col(i, len(f) * r * r).reshape(len(f), r, r, 3) for i, f in enumerate(faces)])
    elif tex == "uv":
        t = TexturesUV(maps=[col(i, 16).reshape(4, 4, 3) for i in range(len(kinds))],
                       faces_uvs=[torch.zeros_like(f) + torch.arange(3) for f in faces], verts_uvs=[torch.tensor([[0.0, 0], [1, 0], [0, 1]])] * len(kinds))
    return Meshes(verts, faces, t)


def make_cloud(sizes, feat, wide=False):
    from pytorch3d.structures import Pointclouds
    pts = [torch.stack([torch.arange(n) * 1.0 + 10 * i, torch.arange(n) * -0.5, torch.ones(n) * i + torch.arange(n) ** 2], -1) for i, n in enumerate(sizes)]
    fs = None
    if feat:
        lo, hi = (-0.5, 1.5) if wide else (0.0, 1.0)
        fs = [lo + (hi - lo) * ((torch.arange(n * feat, dtype=torch.float32).reshape(n, feat) * 0.173 + 0.29 * i) % 1.0) for i, n in enumerate(sizes)]
    return Pointclouds(pts, features=fs), pts, fs


def rot(k):
    from pytorch3d.transforms import euler_angles_to_matrix
    return euler_angles_to_matrix(torch.tensor([0.3 * k, -0.7 * k, 1.1 * k]), "XYZ")


def make_cams(poses, cls="FoVPerspectiveCameras"):
    import pytorch3d.renderer as r
    R = torch.stack([rot(k) for k in poses])
    T = torch.stack([torch.tensor([0.5 * k, -0.25 * k + 0.1, 2.0 + k]) for k in poses])
    return getattr(r, cls)(R=R, T=T), R.double().numpy(), T.double().numpy()


WIRE = 0.5 * np.array([(-2, 1.5, 4), (0, 1.5, 4), (0, 2, 4), (0, 1.5, 4), (2, 1.5, 4), (2, -1.5, 4), (-2, -1.5, 4), (-2, 1.5, 4), (0, 0, 0), (2, 1.5, 4), (2, -1.5, 4), (0, 0, 0),
                       (-2, -1.5, 4), (0, 0, 0), (0, 0, 6)], dtype=np.float64)


def wires(R, T, scale):
    out = []
    for i in range(len(R)):
        w = (WIRE * scale - T[i]) @ R[i].T
        out += [w] if i == 0 else [np.full((1, 3), np.nan), w]
    return np.concatenate(out)


def make_rays(shape, npts, kind="bundle", seed=0):
    """shape: leading shape of the rays; kind: bundle, implicitron, heterogeneous (shape of one number of rays per camera)"""
    from pytorch3d.renderer import HeterogeneousRayBundle, RayBundle
    n = sum(shape) if kind == "heterogeneous" else int(np.prod(shape))
    g = torch.arange(n, dtype=torch.float32)
    o = torch.stack([g * 1.0 + seed, g * 0.25 - 1, (g % 3) * 2], -1)
    d = torch.stack([torch.ones(n), (g % 2) - 0.5, g * 0.1 + 1], -1)
    base = torch.arange(npts, dtype=torch.float32)
    perm = base[torch.tensor([(3 * i + 1) % npts for i in range(npts)])] if npts % 3 else base.flip(0)
    l = 0.5 + g[:, None] * 0.125 + perm * 0.75
    x = torch.stack([g, -g], -1)
    if kind == "heterogeneous":
        counts = torch.tensor(shape)
        ids = torch.arange(len(shape))
        return HeterogeneousRayBundle(origins=o, directions=d, lengths=l, xys=x, camera_ids=ids, camera_counts=counts), (o, d, l)
    s = tuple(shape)
    parts = [o.reshape(*s, 3), d.reshape(*s, 3), l.reshape(*s, npts), x.reshape(*s, 2)]
    if kind == "implicitron":
        from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
        return ImplicitronRayBundle(*parts), (o, d, l)
    return RayBundle(*parts), (o, d, l)


def split_nan(pts):
    out, cur = [], []
    for p in pts:
        if np.isnan(p).all():
            if cur:
                out.append(np.array(cur))
            cur = []
        else:
            expect(not np.isnan(p).any(), "point with some NaN")
            cur.append(p)
    return out + ([np.array(cur)] if cur else [])


def check_rays(name, line, points, o, d, l, max_rays, max_pts):
    o, d, l = (t.double().numpy() for t in (o, d, l))
    n, m = l.shape
    pieces = split_nan(xyz(line))
    lo, hi = o + d * l.min(1)[:, None], o + d * l.max(1)[:, None]
    key = lambda a, b: tuple(round(float(v), 3) + 0.0 for v in (*a, *b))
    want = {}
    for i in range(n):
        want.setdefault(key(lo[i], hi[i]), []).append(i)
    expect(len(pieces) == min(n, max_rays), lambda: "%s: %d lines of %d rays with at most %d" % (name, len(pieces), n, max_rays))
    chosen = []
    for p in pieces:
        expect(len(p) == 2, lambda: "%s: a line of %d points" % (name, len(p)))
        k = key(*p)
        expect(want.get(k), lambda: "%s: the line %s is no ray (or drawn twice)" % (name, k))
        chosen.append(want[k].pop())
    pts = xyz(points)
    expect(len(pts) == len(chosen) * min(m, max_pts), lambda: "%s: %d points on %d rays of %d points with at most %d" % (name, len(pts), len(chosen), m, max_pts))
    # points stay in the order of the rays; of each ray, distinct members
    for i, p in zip(chosen, pts.reshape(len(chosen), -1, 3)):
        left = rows((o[i] + d[i] * l[i][:, None]).round(4))
        for q in p:
            near = [r for r in left if np.allclose(r, q, atol=1e-3)]
            expect(near, lambda: "%s: the point %s is not on ray %d %s (or drawn twice)" % (name, q, i, left))
            left.remove(near[0])


def snapshot(s):
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
    from pytorch3d.renderer.cameras import CamerasBase
    from pytorch3d.structures import Meshes, Pointclouds
    c = lambda ts: [t.clone() for t in ts]
    if isinstance(s, Meshes):
        out = [c(s.verts_list()), c(s.faces_list()), c([s.verts_packed(), s.faces_packed(), s.verts_padded(), s.verts_packed_to_mesh_idx()])]
        if isinstance(s.textures, TexturesVertex):
            out += [c(s.textures.verts_features_list()), c([s.textures.verts_features_padded()])]
        if isinstance(s.textures, TexturesAtlas):
            out += [c(s.textures.atlas_list()), c([s.textures.atlas_packed()])]
        if isinstance(s.textures, TexturesUV):
            out += [c(s.textures.maps_list()), c(s.textures.verts_uvs_list()), c(s.textures.faces_uvs_list())]
        return out
    if isinstance(s, Pointclouds):
        return [c(s.points_list()), c([s.points_packed(), s.points_padded()]), c(s.features_list() or [])]
    if isinstance(s, CamerasBase):
        return [c([s.R, s.T])]
    return [c([s.origins, s.directions, s.lengths, s.xys])]


def same(name, a, b):
    for x, y in zip(a, b):
        expect(len(x) == len(y), name + " changed its number of parts")
        for p, q in zip(x, y):
            expect(p.shape == q.shape and torch.equal(p, q), lambda: "%s changed: %s to %s" % (name, p.tolist(), q.tolist()))


# ---------------------------------------------------------------- checks of single traces
def check_mesh(name, trace, kinds, tex, fig, k):
    ref = make_meshes(kinds, tex)
    verts, faces = ref.verts_packed().double().numpy(), ref.faces_packed().numpy()
    got_v = xyz(trace)
    got_f = np.stack([arr(trace.i), arr(trace.j), arr(trace.k)], -1).astype(int)
    expect(trace.type == "mesh3d", name + ": not a mesh")
    expect(len(got_f) == len(faces), lambda: "%s: %d faces, want %d" % (name, len(got_f), len(faces)))
    expect(got_f.min() >= 0 and got_f.max() < len(got_v), name + ": face index out of range")
    close(name + " triangles", got_v[got_f], verts[faces])
    inside(name, got_v, fig, k)
    if tex.startswith("vertex"):
        feats = torch.cat(ref.textures.verts_features_list()).double().numpy()
        want = 255 * np.clip(feats, 0, 1)
        got = np.asarray(trace.vertexcolor, dtype=np.float64)
        close(name + " colours of the vertices of faces", got[got_f], want[faces], 1e-3)
    else:
        expect(trace.vertexcolor is None, name + ": colours of vertices out of nowhere")
    if tex == "atlas1":
        want = torch.cat(ref.textures.atlas_list()).double().numpy()[:, 0, 0]
        close(name + " colours of faces", np.asarray(trace.facecolor, dtype=np.float64), want, 1e-5)
    else:
        expect(trace.facecolor is None, name + ": colours of faces out of nowhere")


def check_cloud(name, trace, pts, fs, limit, fig, k):
    expect(trace.type == "scatter3d" and trace.mode == "markers", name + ": not markers")
    got = xyz(trace)
    inside(name, got, fig, k)
    sizes = [min(len(p), limit) for p in pts]
    expect(len(got) == sum(sizes), lambda: "%s: %d points drawn, want %s" % (name, len(got), sizes))
    colors = trace.marker.color
    if fs is None or fs[0].shape[1] not in (3, 4):
        expect(colors is None, name + ": colours out of nowhere")
    else:
        expect(colors is not None and len(colors) == len(got), name + ": number of colours")
    s = 0
    for i, n in enumerate(sizes):
        left = list(range(len(pts[i])))
        for j in range(s, s + n):
            m = [q for q in left if np.allclose(pts[i][q].numpy(), got[j], atol=1e-5)]
            expect(m, lambda: "%s: point %s is not one of cloud %d (or drawn twice)" % (name, got[j], i))
            left.remove(m[0])
            if colors is not None:
                f = fs[i][m[0]]
                nums = [float(x) for x in re.findall(r"-?[\d.]+", colors[j])]
                expect(len(nums) == len(f), lambda: "%s: colour %r" % (name, colors[j]))
                w = [255 * min(max(float(x), 0), 1) for x in f[:3]] + [float(x) for x in f[3:]]
                expect(all(abs(a - b) <= (1.01 if c < 3 else 1e-3) for c, (a, b) in enumerate(zip(nums, w))), lambda: "%s: colour %r of a point with features %s" % (name, colors[j], f.tolist()))
        if n == len(pts[i]):
            close(name + " all points in order", got[s:s + n], pts[i].numpy())
        s += n


HIST = {"none": lambda s: None, "packed": lambda s: s.verts_packed(), "padded": lambda s: s.verts_padded(), "edges": lambda s: (s.edges_packed(), s.verts_normals_packed())}


def run_mesh(case, rec):
    V = vis()
    for hist in HIST:
        m = make_meshes(case["kinds"], case["tex"])
        HIST[hist](m)
        before = None
        if hist != "none":
            before = snapshot(m)
        fig = V.plot_scene({"s": {"t": m}})
        rec.step()
        check_mesh("mesh %s after %s" % (case, hist), fig.data[0], case["kinds"], case["tex"], fig, 0)
        after = snapshot(m)
        same("the mesh plotted (%s, %s)" % (case, hist), before or snapshot(make_meshes(case["kinds"], case["tex"])), after)
        # a second figure of the same mesh shows the same
        fig = V.plot_scene({"s": {"t": m}})
        check_mesh("mesh %s plotted again" % case, fig.data[0], case["kinds"], case["tex"], fig, 0)
        rec.state((hist, case["kinds"], case["tex"], xyz(fig.data[0]).tolist()))
        rec.trace()


def run_points(case, rec):
    V = vis()
    sizes = case["sizes"]
    for feat, wide in ((0, False), (1, False), (3, False), (3, True), (4, False)):
        for limit in (1, 2, 3, 5):
            pc, pts, fs = make_cloud(sizes, feat, wide)
            before = snapshot(pc)
            fig = V.plot_scene({"s": {"t": pc}}, pointcloud_max_points=limit)
            rec.step()
            check_cloud("cloud %s feat=%d limit=%d" % (sizes, feat, limit), fig.data[0], pts, fs if feat in (3, 4) else None, limit, fig, 0)
            same("the cloud plotted", before, snapshot(pc))
            rec.state((sizes, feat, wide, limit))
    rec.trace()


def run_cameras(case, rec):
    V = vis()
    for poses in itertools.product(range(4), repeat=case["n"]):
        k = sum(poses) % 2
        for cls in ("FoVPerspectiveCameras", "PerspectiveCameras", "FoVOrthographicCameras", "OrthographicCameras")[(k if case["n"] > 1 else 0)::(2 if case["n"] > 1 else 1)]:
            for scale in ((0.3, 1.0, 2.5) if case["n"] < 3 else (0.5 + k,)):
                cams, R, T = make_cams(poses, cls)
                fig = V.plot_scene({"s": {"t": cams}}, camera_scale=scale)
                rec.step()
                close("camera %s %s scale %g" % (cls, poses, scale), xyz(fig.data[0]), wires(R, T, scale), 1e-4)
                inside("cameras", xyz(fig.data[0]), fig, 0)
        rec.state(poses)
    close("wire frame", V.get_camera_wireframe(0.6), 0.6 * WIRE)
    rec.trace()


def run_rays(case, rec):
    V = vis()
    for npts in (1, 2, 4, 5):
        for mr in (1, 2, 4, 100):
            for mp in (1, 2, 3, 100):
                b, (o, d, l) = make_rays(case["shape"], npts, case["bundle"])
                before = snapshot(b)
                fig = V.plot_scene({"s": {"t": b}}, raybundle_max_rays=mr, raybundle_max_points_per_ray=mp)
                rec.step()
                name = "%s of %s rays x %d points, at most %d x %d" % (case["bundle"], case["shape"], npts, mr, mp)
                expect([t.name for t in fig.data] == ["t", "t_points"], lambda: "%s: traces %s" % (name, [t.name for t in fig.data]))
                check_rays(name, fig.data[0], fig.data[1], o, d, l, mr, mp)
                inside(name, xyz(fig.data[0]), fig, 0)
                inside(name, xyz(fig.data[1]), fig, 0)
                same("the bundle plotted", before, snapshot(b))
                rec.state((case["shape"], npts, mr, mp))
    rec.trace()


STRUCTS = ("mesh", "cloud", "camera", "rays", "hrays")


def item(kind, i):
    """a struct of its own for place i, and its check (fig, traces by name, name, subplot)"""
    if kind == "mesh":
        kinds, tex = ((i % 3,), ("none", "vertex", "atlas1")[i % 3])
        m = make_meshes(kinds, tex)
        m = m.offset_verts(torch.full((3,), 5.0 * i))
        def chk(fig, tr, name, k):
            g = xyz(tr[name])
            f = np.stack([arr(tr[name].i), arr(tr[name].j), arr(tr[name].k)], -1).astype(int)
            v, fs = mesh_data(kinds[0])
            close(name, g[f], v.double().numpy()[fs.numpy()] + 5.0 * i, 1e-4)
            inside(name, g, fig, k)
        return m, chk, 1
    if kind == "cloud":
        pc, pts, fs = make_cloud((1 + i % 3, 2), 3)
        return pc.offset(torch.full((3,), 3.0 * i)), lambda fig, tr, name, k: check_cloud(name, tr[name], [p + 3.0 * i for p in pts], fs, 100, fig, k), 1
    if kind == "camera":
        c, R, T = make_cams((i % 4, (i + 2) % 4)[: 1 + i % 2])
        def chk(fig, tr, name, k):
            close(name, xyz(tr[name]), wires(R, T, 0.3), 1e-4)
            inside(name, xyz(tr[name]), fig, k)
        return c, chk, 1
    b, (o, d, l) = make_rays((2, 1 + i % 2), 2 + i % 3, "heterogeneous" if kind == "hrays" else "bundle", seed=i)
    def chk(fig, tr, name, k):
        check_rays(name, tr[name], tr[name + "_points"], o, d, l, 1000, 1000)
        inside(name, xyz(tr[name]), fig, k)
        inside(name, xyz(tr[name + "_points"]), fig, k)
    return b, chk, 2


def check_domains(fig, n, ncols):
    """scenes are laid out row by row, from the top left"""
    dom = []
    for k in range(n):
        s = fig.layout["scene" + (str(k + 1) if k else "")]
        dom.append((s.domain.x[0], s.domain.x[1], s.domain.y[0], s.domain.y[1]))
    for a in range(n):
        for b in range(a + 1, n):
            ra, ca, rb, cb = a // ncols, a % ncols, b // ncols, b % ncols
            if ra == rb:
                expect(dom[a][1] <= dom[b][0] + 1e-9 and dom[a][2:] == dom[b][2:], lambda: "subplots %d and %d are not side by side: %s" % (a, b, dom))
            else:
                expect(dom[a][2] >= dom[b][3] - 1e-9, lambda: "subplot %d is not above %d: %s" % (a, b, dom))
            if ca == cb:
                expect(dom[a][:2] == dom[b][:2], lambda: "subplots %d and %d are not in one column: %s" % (a, b, dom))


def run_layout(case, rec):
    V = vis()
    n, ncols, pair = case["n"], case["ncols"], case["pair"]
    plots, chks = {}, []
    for k in range(n):
        name = "title %d" % (7 * k % 5)
        plots[name] = {}
        for j, kind in enumerate(pair[: 1 + (k + len(pair)) % 2] if k else pair):
            s, chk, ntr = item(kind, k + 2 * j)
            plots[name]["%s %d" % (kind, j)] = s
            chks.append((k, "%s %d" % (kind, j), chk, ntr))
    snaps = {(a, b): snapshot(s) for a, d in plots.items() for b, s in d.items()}
    titles = list(plots)
    extra = {}
    if (n + ncols) % 2:
        extra = {"axis_args": V.AxisArgs(showgrid=True), "xaxis": {"backgroundcolor": "rgb(1, 2, 3)"}, "zaxis": {"ticks": "outside"}, "lighting": V.Lighting(ambient=0.25),
                 "pointcloud_marker_size": 3, "raybundle_ray_point_marker_size": 4, "raybundle_ray_line_width": 5}
    fig = V.plot_scene(plots, ncols=ncols, **extra)
    rec.step()
    expect([a.text for a in fig.layout.annotations] == titles, lambda: "titles %s, want %s" % ([a.text for a in fig.layout.annotations], titles))
    expect(len(fig.data) == sum(c[3] for c in chks), lambda: "%d traces of %s" % (len(fig.data), case))
    per = {}
    for t in fig.data:
        per.setdefault(scene_no(t), {})[t.name] = t
    for k, name, chk, _ in chks:
        expect(name in per.get(k, {}), lambda: "no trace %r in subplot %d: %s" % (name, k, {a: list(b) for a, b in per.items()}))
        chk(fig, per[k], name, k)
    check_domains(fig, n, ncols)
    for k in range(n):
        lay = fig.layout["scene" + (str(k + 1) if k else "")]
        expect(bool(lay.xaxis.showgrid) == bool(extra), "switches of the axes")
        if extra:
            expect(lay.xaxis.backgroundcolor == "rgb(1, 2, 3)" and lay.yaxis.backgroundcolor == lay.zaxis.backgroundcolor == "#fff", "settings of the x axis")
            expect(lay.zaxis.ticks == "outside" and not lay.xaxis.ticks and not lay.yaxis.ticks, "settings of the z axis")
        expect(lay.aspectmode == "cube", "axes of equal lengths")
    for t in fig.data:
        if extra and t.name.startswith("cloud"):
            expect(t.marker.size == 3, "size of the points of a cloud")
        if extra and "rays" in t.name:
            expect(t.marker.size == 4 if t.name.endswith("_points") else t.line.width == 5, "size of the points and lines of rays")
        if t.type == "mesh3d":
            expect(abs(t.lighting.ambient - (0.25 if extra else 0.8)) < 1e-9, "lighting")
    for (a, b), s in snaps.items():
        same("%s of %s" % (b, a), s, snapshot(plots[a][b]))
    rec.state((n, ncols, pair))
    rec.trace()


def check_view(fig, k, R, T):
    """the camera of subplot k sees the scene from where the viewpoint camera is"""
    lay = fig.layout["scene" + (str(k + 1) if k else "")]
    r = ranges(fig, k)
    mid, half = r.mean(1), (r[:, 1] - r[:, 0]) / 2
    g = lambda p: np.array([p.x, p.y, p.z], dtype=np.float64)
    eye, at, up = g(lay.camera.eye) * half + mid, g(lay.camera.center) * half + mid, g(lay.camera.up) * half
    center = -(R @ T)
    tol = 1e-3 * (1 + np.abs(center).max() + np.abs(mid).max())
    expect(np.abs(eye - center).max() < tol, lambda: "subplot %d is seen from %s, the camera is at %s" % (k, eye, center))
    look = (at - eye) / np.linalg.norm(at - eye)
    expect(np.abs(look - R[:, 2]).max() < 5e-3, lambda: "subplot %d is seen along %s, the camera looks along %s" % (k, look, R[:, 2]))
    up = up / np.linalg.norm(up)
    expect(np.abs(up - R[:, 1]).max() < 5e-3, lambda: "subplot %d is seen with %s up, the camera's is %s" % (k, up, R[:, 1]))


def run_view(case, rec):
    V = vis()
    n, v = case["n"], case["v"]
    for shift in range(4):
        poses = [(shift + k) % 4 for k in range(v)]
        cams, R, T = make_cams(poses, ("FoVPerspectiveCameras", "PerspectiveCameras")[shift % 2])
        for kind in ("mesh", "cloud", "camera", "rays"):
            plots = {"p%d" % k: {"t": item(kind, k)[0]} for k in range(n)}
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                fig = V.plot_scene(plots, viewpoint_cameras=cams, ncols=1 + shift % 2)
            rec.step()
            bad = any("viewpoint" in str(x.message) for x in w)
            expect(bad == (v not in (1, n)), lambda: "%d viewpoints for %d subplots: warned=%s" % (v, n, bad))
            for k in range(n):
                if v in (1, n):
                    check_view(fig, k, R[min(k, v - 1)], T[min(k, v - 1)])
                else:
                    c = fig.layout["scene" + (str(k + 1) if k else "")].camera
                    expect(c.eye.x is None and (c.up.x, c.up.y, c.up.z) == (0, 1, 0), "viewpoints that cannot be used are not ignored")
        rec.state((n, v, shift))
    rec.trace()


def batch(kind, n, j):
    """a batch of n structs and, per element, its check"""
    if kind == "mesh":
        kinds = [(i + j) % 3 for i in range(n)]
        tex = ("vertex", "atlas1", "none")[j % 3]
        m = make_meshes(kinds, tex)
        def chk(fig, tr, name, i, k):
            g = xyz(tr[name])
            f = np.stack([arr(tr[name].i), arr(tr[name].j), arr(tr[name].k)], -1).astype(int)
            close("%s element %d" % (name, i), g[f], m.verts_list()[i].double().numpy()[m.faces_list()[i].numpy()], 1e-4)
            if tex == "vertex":
                close("%s colours of element %d" % (name, i), np.asarray(tr[name].vertexcolor, dtype=np.float64)[f], 255 * m.textures.verts_features_list()[i].numpy()[m.faces_list()[i].numpy()], 1e-3)
            if tex == "atlas1":
                close("%s colours of element %d" % (name, i), np.asarray(tr[name].facecolor, dtype=np.float64), m.textures.atlas_list()[i].numpy()[:, 0, 0], 1e-4)
            inside(name, g, fig, k)
        return m, chk, 1
    if kind == "cloud":
        pc, pts, fs = make_cloud([1 + (i + j) % 3 for i in range(n)], (3, 4, 0)[j % 3])
        return pc, lambda fig, tr, name, i, k: check_cloud("%s element %d" % (name, i), tr[name], [pts[i]], [fs[i]] if fs else None, 1000, fig, k), 1
    if kind == "camera":
        c, R, T = make_cams([(i + j) % 4 for i in range(n)])
        return c, lambda fig, tr, name, i, k: close("%s camera %d" % (name, i), xyz(tr[name]), wires(R[i:i + 1], T[i:i + 1], 0.3), 1e-4), 1
    het = kind == "hrays"
    shape = tuple(1 + (i + j) % 3 for i in range(n)) if het else (n, 2)
    b, (o, d, l) = make_rays(shape, 2 + j % 2, "heterogeneous" if het else "bundle", seed=j)
    start = np.cumsum([0] + list(shape)) if het else np.arange(n + 1) * 2
    return b, lambda fig, tr, name, i, k: check_rays("%s bundle %d" % (name, i), tr[name], tr[name + "_points"], *(t[start[i]:start[i + 1]] for t in (o, d, l)), 1000, 1000), 2


def run_individually(case, rec):
    V = vis()
    kinds, sizes, aslist = case["kinds"], case["sizes"], case["list"]
    for extend in (True, False):
        for titles in (None, "right", "wrong"):
            made = [batch(k, n, j) for j, (k, n) in enumerate(zip(kinds, sizes))]
            structs = [m[0] for m in made]
            big = max(sizes)
            names = None if titles is None else ["name %d" % i for i in range(big + (titles == "wrong"))]
            call = lambda: V.plot_batch_individually(structs if aslist else structs[0], extend_struct=extend, subplot_titles=names, ncols=1 + len(sizes) % 2)
            rec.step()
            if titles == "wrong" or any(n not in (1, big) for n in sizes):
                try:
                    call()
                except ValueError:
                    continue
                raise Violation("batches of %s with %s titles are accepted" % (sizes, titles))
            snaps = [snapshot(s) for s in structs]
            fig = call()
            expect([a.text for a in fig.layout.annotations] == (names or ["subplot %d" % (i + 1) for i in range(big)]), "titles")
            per = {}
            for t in fig.data:
                per.setdefault(scene_no(t), {})[t.name] = t
            total = 0
            for k in range(big):
                for j, (m, chk, ntr) in enumerate(made):
                    name = "trace%d-%d" % (k + 1, j + 1)
                    if sizes[j] == 1 and k > 0 and not extend:
                        expect(name not in per.get(k, {}), lambda: "%s x %s without extending: subplot %d has %s" % (kinds, sizes, k, name))
                        continue
                    expect(name in per.get(k, {}), lambda: "%s x %s extend=%s: subplot %d lacks %s" % (kinds, sizes, extend, k, name))
                    chk(fig, per[k], name, min(k, sizes[j] - 1), k)
                    total += ntr
            expect(len(fig.data) == total, lambda: "%d traces, want %d" % (len(fig.data), total))
            for s, b in zip(structs, snaps):
                same("a batch plotted individually", b, snapshot(s))
            rec.state((kinds, sizes, aslist, extend, titles))
    rec.trace()


def run_texture(case, rec):
    from pytorch3d.renderer import TexturesUV
    from pytorch3d.vis import texturesuv_image_PIL
    h, w = case["size"]
    img = ((torch.arange(h * w * 3, dtype=torch.float32).reshape(1, h, w, 3) * 0.083) % 1.0) * 0.8
    uvs = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.5, 0.25), (0.3, 0.8), (1.2, -0.4)]
    for ac in (True, False):
        for mode in ("bilinear", "nearest"):
            for sel in [c for n in (1, 3) for c in itertools.combinations(range(len(uvs)), n)]:
                uv = torch.tensor([uvs[i] for i in sel])
                tex = TexturesUV(maps=img.clone(), faces_uvs=[torch.zeros(1, 3, dtype=torch.int64)], verts_uvs=[uv], align_corners=ac, sampling_mode=mode, padding_mode="border")
                got = tex.centers_for_image(0)
                u, v = uv.double().T
                x = u * (w - 1) if ac else u * w - 0.5
                y = (1 - v) * (h - 1) if ac else (1 - v) * h - 0.5
                want = torch.stack([x.clamp(0, w - 1), y.clamp(0, h - 1)], -1)
                expect(got.shape == want.shape, "shape of the centres")
                err = (got.double() - want).abs().max()
                expect(err < (1e-4 if mode == "bilinear" else 0.5001), lambda: "centres %s in a map of %s, want %s (%s, %s)" % (got.tolist(), (h, w), want.tolist(), ac, mode))
                if mode == "nearest":
                    continue
                for radius in (0.25, 1):
                    pic = np.asarray(texturesuv_image_PIL(tex, radius=radius, color=(255, 0, 0), subsample=None if len(sel) == 1 else 100)).astype(int)
                    rec.step()
                    expect(pic.shape == (h, w, 3), lambda: "image of shape %s" % (pic.shape,))
                    flat = (img[0] * 255).numpy()
                    for r in range(h):
                        for c in range(w):
                            dist = min(max(abs(c - float(a)), abs(r - float(b))) for a, b in want)
                            if dist > radius + 1:
                                expect(np.abs(pic[r, c] - flat[r, c]).max() <= 1, lambda: "pixel %s of the map is shown as %s, want %s" % ((r, c), pic[r, c], flat[r, c]))
                            elif dist < 1e-6 and radius >= 1:
                                expect(pic[r, c].tolist() == [255, 0, 0], lambda: "no mark at the vertex of pixel %s: %s" % ((r, c), pic[r, c]))
                expect(torch.equal(tex.maps_padded(), img), "drawing changes the map")
    import matplotlib.pyplot as plt
    from pytorch3d.vis import texturesuv_image_matplotlib
    tex = TexturesUV(maps=img.clone(), faces_uvs=[torch.zeros(1, 3, dtype=torch.int64)], verts_uvs=[torch.tensor(uvs)])
    for sub, radius in ((None, 1), (100, 2.5), (3, 1)):
        figure = plt.figure()
        try:
            texturesuv_image_matplotlib(tex, radius=radius, subsample=sub)
            ax = plt.gca()
            close("image drawn by matplotlib", np.asarray(ax.images[0].get_array()), img[0].numpy())
            got = [tuple(float(x) for x in q.center) for q in ax.patches]
            want = tex.centers_for_image(0).tolist()
            left = [tuple(x) for x in want]
            for q in got:
                m = [x for x in left if abs(x[0] - q[0]) + abs(x[1] - q[1]) < 1e-4]
                expect(m, "a circle that is at no vertex, or twice")
                left.remove(m[0])
            expect(len(got) == (3 if sub == 3 else len(uvs)) and all(abs(q.radius - radius) < 1e-9 for q in ax.patches), "%d circles with subsample=%s" % (len(got), sub))
        finally:
            plt.close(figure)
        rec.step()
    rec.state((h, w))
    two = TexturesUV(maps=img.expand(2, -1, -1, -1), faces_uvs=[torch.zeros(1, 3, dtype=torch.int64)] * 2, verts_uvs=[torch.tensor([[0.5, 0.5]])] * 2)
    try:
        two.centers_for_image(0)
    except ValueError:
        rec.trace()
        return
    raise Violation("centres in the maps of two meshes are not refused")


def cases(tier):
    deep = tier == "thorough"
    out = []
    texs = ("none", "vertex", "vertexwide", "atlas1", "atlas2", "uv")
    for n in (1, 2, 3) if deep else (1, 2):
        for kinds in itertools.product(range(3), repeat=n):
            out += [{"kind": "mesh", "kinds": kinds, "tex": t} for t in texs]
    out += [{"kind": "points", "sizes": s} for n in ((1, 2, 3) if deep else (1, 2)) for s in itertools.product(range(1, 5), repeat=n)]
    out += [{"kind": "cameras", "n": n} for n in (1, 2, 3)]
    for b, shapes in (("bundle", ((1,), (3,), (1, 1), (2, 3), (2, 1, 2), (2, 2, 2))), ("implicitron", ((1, 1), (2, 3), (2, 2, 1))), ("heterogeneous", ((1,), (3,), (1, 2), (2, 1, 3)))):
        out += [{"kind": "rays", "bundle": b, "shape": s} for s in shapes]
    out += [{"kind": "layout", "n": n, "ncols": c, "pair": p} for n in range(1, 6) for c in (1, 2, 3) for p in itertools.product(STRUCTS, repeat=2)]
    out += [{"kind": "view", "n": n, "v": v} for n in range(1, 6 if deep else 5) for v in range(1, 6 if deep else 5)]
    for k in STRUCTS:
        out += [{"kind": "individually", "kinds": (k,), "sizes": (n,), "list": l} for n in (1, 2, 3) for l in (False, True)]
    for m in (2, 3) if deep else (2,):
        for ks in itertools.product(STRUCTS, repeat=m):
            out += [{"kind": "individually", "kinds": ks, "sizes": s, "list": True} for s in itertools.product((1, 2, 3), repeat=m) if deep or m < 3]
    out += [{"kind": "texture", "size": (h, w)} for h in range(1, 6 if deep else 4) for w in range(1, 6 if deep else 5)]
    return out


def run(case, rec):
    torch.manual_seed(7)
    globals()["run_" + case["kind"]]({k: tuple(v) if isinstance(v, list) else v for k, v in case.items()}, rec)
