"""C14: lighting, shading models and shaders against a scalar float64 reference, for every batch layout of lights, materials and cameras."""
import itertools
import math

import torch
from mc.core import Violation, expect, expect_close, expect_raises

from pytorch3d.ops import interpolate_face_attributes
from pytorch3d.renderer import (AmbientLights, BlendParams, DirectionalLights, FoVOrthographicCameras, FoVPerspectiveCameras, HardFlatShader,
                                HardGouraudShader, HardPhongShader, Materials, PerspectiveCameras, PointLights, SoftGouraudShader, SoftPhongShader,
                                SoftSilhouetteShader, TexturesAtlas, TexturesVertex)
from pytorch3d.renderer.blending import hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend
from pytorch3d.renderer.lighting import diffuse as diffuse_fn, specular as specular_fn
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.shader import HardDepthShader, SoftDepthShader, SplatterPhongShader
from pytorch3d.renderer.mesh.shading import flat_shading, gouraud_shading, phong_shading
from pytorch3d.structures import Meshes

PROPERTY = "C14"
ASSUMPTIONS = [
    "lights, materials and cameras hold either one set of parameters or one per mesh of the batch",
    "shininess is at least 0; a zero normal or direction has cosine 0",
    "the pixel-level shaders' blending is checked in C13: here the shader's image must equal the blend of the reference colours",
]
BOUNDS = {
    "quick": "diffuse/specular: every normal x direction x view position of 11 directions (zero included) x 5 shininess values x 2 colour sets, in the 3 "
             "point layouts; shading: every batch of 1..3 meshes from 4 meshes x one-or-per-mesh lights/materials/cameras (8) x 3 light kinds x 3 shading "
             "models x 1..3 fragments per pixel; every face x 10 barycentric points and empty slots; 1..4 texture channels under ambient light; "
             "9 shaders x per-batch cameras x arguments at construction, at the call and both x call histories of length 2 over 3 batch shapes",
    "thorough": "as quick with 25 directions, barycentric lattice of step 1/6 and histories of length 3",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64


# ---------------------------------------------------------------- reference: plain Python floats
def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def unit(a):
    n = max(math.sqrt(dot(a, a)), 1e-6)
    return [x / n for x in a]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def ref_diffuse(n, color, d):
    c = max(0.0, dot(unit(n), unit(d)))
    return [x * c for x in color]


def ref_specular(p, n, d, color, cam, shin):
    n, d = unit(n), unit(d)
    c = dot(n, d)
    if c <= 1e-7:
        return [0.0 for _ in color]
    v = unit(sub(cam, p))
    r = [-x + 2 * c * y for x, y in zip(d, n)]
    a = max(0.0, dot(v, r))
    return [x * (a ** shin) for x in color]


def ref_light(kind, light, mat, cam, p, n):
    """light, mat: dicts of python lists for one batch element -> ambient, diffuse, specular (each C channels)"""
    amb = [a * b for a, b in zip(mat["ambient_color"], light["ambient_color"])]
    if kind == "ambient":
        z = [0.0] * len(amb)
        return amb, z, z
    d = light["direction"] if kind == "dir" else sub(light["location"], p)
    dif = [a * b for a, b in zip(mat["diffuse_color"], ref_diffuse(n, light["diffuse_color"], d))]
    spe = [a * b for a, b in zip(mat["specular_color"], ref_specular(p, n, d, light["specular_color"], cam, mat["shininess"]))]
    return amb, dif, spe


# ---------------------------------------------------------------- alphabets
DIRS = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 2, 2), (-1, 2, -2), (3, 0, 4), (0.1, -0.1, 0.5)]
DIRS25 = DIRS + [(a, b, c) for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)] + [(1, 1, 0), (-1, 1, 0), (0, 1, 1), (1, 0, -1), (5, -3, 1), (2, 0.5, -4)]
SHIN = [0.0, 1.0, 2.0, 10.0, 64.0]

VERTS = [
    # (verts, faces)
    ([(0, 0, 2), (1, 0, 2), (0, 1, 2)], [(0, 1, 2)]),
    ([(0, 0, 2), (1, 0, 2.5), (0, 1, 3), (1, 1, 2)], [(0, 1, 2), (1, 3, 2)]),
    ([(0, 0, 3), (1, 0, 2), (0, 1, 2), (5, 5, 5), (-1, -0.5, 2.25)], [(2, 1, 0), (0, 4, 1), (4, 2, 0)]),
    ([(0.5, 0, 1), (1, 0.25, 1), (0, 1, 1.5), (0.5, 0.5, 4)], [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]),
]


def tex(m, C):
    V = len(VERTS[m][0])
    return [[0.1 + 0.07 * ((v * 3 + c * 2 + m) % 11) for c in range(C)] for v in range(V)]


LIGHTS = [
    dict(ambient_color=[0.5, 0.4, 0.3], diffuse_color=[0.3, 0.6, 0.2], specular_color=[0.2, 0.1, 0.7], direction=[0, 1, -2], location=[0, 0, 0]),
    dict(ambient_color=[0.1, 0.2, 0.9], diffuse_color=[0.8, 0.1, 0.4], specular_color=[0.6, 0.3, 0.2], direction=[1, 0, 3], location=[2, 1.25, 4.5]),
    dict(ambient_color=[0.7, 0.05, 0.25], diffuse_color=[0.45, 0.9, 0.15], specular_color=[0.35, 0.8, 0.55], direction=[-1, 1, -1], location=[-3, 2, -1]),
]
MATS = [
    dict(ambient_color=[1, 0.5, 0.25], diffuse_color=[0.9, 0.7, 0.5], specular_color=[0.3, 1, 0.6], shininess=1.0),
    dict(ambient_color=[0.2, 0.8, 0.6], diffuse_color=[0.4, 0.1, 1], specular_color=[0.9, 0.2, 0.4], shininess=3.0),
    dict(ambient_color=[0.6, 0.3, 0.9], diffuse_color=[0.15, 0.55, 0.35], specular_color=[0.75, 0.65, 0.1], shininess=8.0),
]
CAMS = [[0, 0, -1], [2, -1, 0.5], [-1, 3, 6]]


def mk_lights(kind, n):
    g = lambda k: [LIGHTS[i][k] for i in range(n)]
    if kind == "ambient":
        return AmbientLights(ambient_color=g("ambient_color"))
    kw = dict(ambient_color=g("ambient_color"), diffuse_color=g("diffuse_color"), specular_color=g("specular_color"))
    return DirectionalLights(direction=g("direction"), **kw) if kind == "dir" else PointLights(location=g("location"), **kw)


def mk_mats(n):
    g = lambda k: [MATS[i][k] for i in range(n)]
    return Materials(ambient_color=g("ambient_color"), diffuse_color=g("diffuse_color"), specular_color=g("specular_color"),
                     shininess=torch.tensor(g("shininess")))


def mk_cams(n, cls=FoVPerspectiveCameras, **kw):
    # camera centre c: T = -c R
    R = torch.eye(3)[None].repeat(n, 1, 1)
    for i in range(n):
        if i % 2:
            R[i] = torch.tensor([[0.0, 1, 0], [-1, 0, 0], [0, 0, 1]])
    c = torch.tensor(CAMS[:n], dtype=torch.float32)
    return cls(R=R, T=-(c[:, None] @ R)[:, 0], **kw)


def mk_meshes(ms, C=3, atlas=False):
    t = TexturesVertex([torch.tensor(tex(m, C)) for m in ms])
    return Meshes([torch.tensor(VERTS[m][0], dtype=torch.float32) for m in ms], [torch.tensor(VERTS[m][1]) for m in ms], t)


def mk_frags(ms, K, step):
    """Every face of a mesh at every barycentric lattice point, plus an empty slot, laid out over pixels of K slots."""
    lat = [(i / step, j / step, (step - i - j) / step) for i in range(step + 1) for j in range(step + 1 - i)]
    per = []
    off = 0
    for m in ms:
        F = len(VERTS[m][1])
        seq = [(off + f, b) for f in range(F) for b in lat]
        off += F
        # interleave with empties, cycle so that every slot index sees everything
        seq2 = []
        for i, s in enumerate(seq):
            seq2.append(s)
            if i % 4 == 3:
                seq2.append(None)
        per.append(seq2)
    L = max(len(s) for s in per)
    W = 5
    H = -(-L // W)
    N = len(ms)
    p2f = torch.full((N, H, W, K), -1, dtype=torch.int64)
    bary = torch.full((N, H, W, K, 3), -1.0)
    zbuf = torch.full((N, H, W, K), -1.0)
    dists = torch.full((N, H, W, K), -1.0)
    for n in range(N):
        for i in range(H * W):
            for k in range(K):
                s = per[n][(i + 3 * k) % len(per[n])] if i < len(per[n]) + 2 else None
                if s is None:
                    continue
                p2f[n, i // W, i % W, k] = s[0]
                bary[n, i // W, i % W, k] = torch.tensor(s[1])
                zbuf[n, i // W, i % W, k] = 1.5 + 0.25 * k + 0.01 * i
                dists[n, i // W, i % W, k] = -1e-4 * (1 + (i + k) % 3)
    return Fragments(pix_to_face=p2f, zbuf=zbuf, bary_coords=bary, dists=dists)


def ref_vnormals(m):
    V, F = VERTS[m]
    acc = [[0.0] * 3 for _ in V]
    fn = []
    for f in F:
        a, b, c = (V[i] for i in f)
        u, w = sub(b, a), sub(c, a)
        x = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        fn.append(unit(x))
        for i in f:
            acc[i] = [p + q for p, q in zip(acc[i], x)]
    return [unit(a) for a in acc], fn


def mix(b, vals):
    return [sum(b[i] * vals[i][c] for i in range(3)) for c in range(len(vals[0]))]


_ref_memo = {}


def ref_pixel(model, kind, m, f, b, light, mat, cam, C, lk, mk, ck):
    key = (model, kind, m, f, b, lk, mk, ck, C)
    if key in _ref_memo:
        return _ref_memo[key]
    V, F = VERTS[m]
    vn, fn = ref_vnormals(m)
    T = tex(m, C)
    ids = F[f]
    texel = mix(b, [T[i] for i in ids])
    if model == "gouraud":
        cols = []
        for i in ids:
            a, d, s = ref_light(kind, light, mat, cam, V[i], vn[i])
            cols.append([t * (x + y) + z for t, x, y, z in zip(T[i], a, d, s)])
        out = mix(b, cols)
    else:
        if model == "phong":
            p, n = mix(b, [V[i] for i in ids]), mix(b, [vn[i] for i in ids])
        else:
            p, n = [sum(V[i][c] for i in ids) / 3 for c in range(3)], fn[f]
        a, d, s = ref_light(kind, light, mat, cam, p, n)
        out = [t * (x + y) + z for t, x, y, z in zip(texel, a, d, s)]
    _ref_memo[key] = out
    return out


def ref_image(model, kind, ms, fr, nl, nm, nc, C=3):
    N, H, W, K = fr.pix_to_face.shape
    out = torch.zeros(N, H, W, K, C, dtype=f64)
    off = [0]
    for m in ms:
        off.append(off[-1] + len(VERTS[m][1]))
    p2f, bary = fr.pix_to_face.tolist(), fr.bary_coords.double().tolist()
    for n in range(N):
        li, mi, ci = (n if nl > 1 else 0), (n if nm > 1 else 0), (n if nc > 1 else 0)
        for y, x, k in itertools.product(range(H), range(W), range(K)):
            f = p2f[n][y][x][k]
            if f >= 0:
                out[n, y, x, k] = torch.tensor(ref_pixel(model, kind, ms[n], f - off[n], tuple(bary[n][y][x][k]), LIGHTS[li], MATS[mi], CAMS[ci], C,
                                                         li, mi, ci), dtype=f64)
    return out


# ---------------------------------------------------------------- cases
def cases(tier):
    th = tier == "thorough"
    out = [("light", a, th) for a in range(len(DIRS25 if th else DIRS))]
    batches = [b for n in (1, 2, 3) for b in itertools.product(range(len(VERTS)), repeat=n)]
    if not th:
        batches = [b for b in batches if len(b) < 3 or len(set(b)) == 3 or b[0] == b[2]]
    for b in batches:
        out.append(("shade", b, th))
    for b in [(0,), (2,), (0, 3), (2, 1), (1, 2, 0), (2, 0, 3)]:
        out.append(("channels", b))
        out.append(("interp", b, th))
        for sh in SHADERS:
            out.append(("shader", b, sh))
    for sh in SHADERS:
        out.append(("history", sh, 3 if th else 2))
    return out


def run_light(case, rec):
    D = DIRS25 if case[2] else DIRS
    n = D[case[1]]
    t = lambda x: torch.tensor(x, dtype=torch.float32)
    combos = list(itertools.product(D, D))  # direction, camera position
    pts = [(0.0, 0.0, 0.0), (0.25, -1.0, 0.5)]
    cols = [[0.2, 0.5, 1.0], [0.9, 0.1, 0.3]]
    for ci, p in enumerate(pts):
        for s in SHIN:
            rd = torch.tensor([ref_diffuse(n, cols[ci], d) for d, c in combos], dtype=f64)
            rs = torch.tensor([ref_specular(p, n, d, cols[ci], c, s) for d, c in combos], dtype=f64)
            dd, cc = t([d for d, _ in combos]), t([c for _, c in combos])
            P = len(combos)
            # a direction exactly orthogonal to the normal: float cosines may come out +-1e-8; the contribution of alpha is then arbitrary for s = 0
            ok = torch.tensor([abs(dot(unit(n), unit(d))) > 1e-5 or max(map(abs, n)) == 0 or max(map(abs, d)) == 0 for d, _ in combos])
            if s == 0:  # x ** 0 at x within rounding of 0
                def al(d, c):
                    u, e = unit(n), unit(d)
                    k = dot(u, e)
                    return dot(unit(sub(c, p)), [-x + 2 * k * y for x, y in zip(e, u)])
                ok &= torch.tensor([abs(al(d, c)) > 1e-5 or dot(n, d) <= 0 for d, c in combos])
            rec.state(("light", n, ci, s))
            # layout (P,3): one parameter set per point
            N1 = t([n]).expand(P, 3).contiguous()
            P1 = t([p]).expand(P, 3).contiguous()
            for lay in ("packed", "cloud", "image", "image-shared", "constant-color"):
                if lay == "packed":
                    args = (N1, P1, dd, t([cols[ci]]), cc, torch.tensor([s]))
                    shape = (P, 3)
                elif lay == "constant-color":
                    args = (N1, P1, dd, t(cols[ci]).expand(P, 3), cc, torch.full((P,), s))
                    shape = (P, 3)
                elif lay == "cloud":
                    args = (N1[:, None].expand(P, 2, 3), P1[:, None].expand(P, 2, 3), dd, t([cols[ci]]), cc, torch.tensor([s]))
                    shape = (P, 2, 3)
                elif lay == "image":
                    args = (N1[:, None, None, None].expand(P, 1, 2, 2, 3), P1[:, None, None, None].expand(P, 1, 2, 2, 3), dd,
                            t(cols[ci]).expand(P, 3), cc, torch.full((P,), s))
                    shape = (P, 1, 2, 2, 3)
                else:  # one image, a direction per pixel
                    h = len(D)
                    args = (N1.view(1, h, h, 1, 3), P1.view(1, h, h, 1, 3), dd.view(1, h, h, 1, 3), t([cols[ci]]), cc.view(1, h, h, 1, 3), torch.tensor([s]))
                    shape = (1, h, h, 1, 3)
                nn, pp, di, co, ca, si = args
                got = diffuse_fn(normals=nn, color=co, direction=di)
                gs = specular_fn(points=pp, normals=nn, direction=di, color=co, camera_position=ca, shininess=si)
                rec.step(2)
                expect(tuple(got.shape) == shape and tuple(gs.shape) == shape, f"{lay}: shapes {tuple(got.shape)}, {tuple(gs.shape)}, expected {shape}")
                v = lambda r: (r.view(shape) if lay in ("packed", "constant-color", "image-shared") else r.view((P,) + (1,) * (len(shape) - 2) + (3,)).expand(shape))
                expect_close(f"diffuse {lay} normal {n}", got.double(), v(rd), atol=2e-6, rtol=1e-5)
                o = v(ok[:, None].expand(P, 3).double())
                expect_close(f"specular {lay} normal {n} shininess {s}", gs.double() * o, v(rs) * o, atol=1e-5, rtol=2e-4)


SHADE = {"phong": phong_shading, "flat": flat_shading, "gouraud": gouraud_shading}


def run_shade(case, rec):
    ms = list(case[1])
    N = len(ms)
    step = 6 if case[2] else 3
    for K in (1, 2, 3):
        fr = mk_frags(ms, K, step)
        for kind in ("dir", "point", "ambient"):
            for nl, nm, nc in itertools.product(sorted({1, N}), repeat=3):
                for model, fn in SHADE.items():
                    meshes = mk_meshes(ms)
                    kw = dict(meshes=meshes, fragments=fr, lights=mk_lights(kind, nl), cameras=mk_cams(nc), materials=mk_mats(nm))
                    if model != "gouraud":
                        kw["texels"] = meshes.sample_textures(fr)
                    got = fn(**kw)
                    rec.state((tuple(ms), K, kind, nl, nm, nc, model))
                    rec.step()
                    want = ref_image(model, kind, ms, fr, nl, nm, nc)
                    what = f"{model} shading, meshes {ms}, K={K}, {kind} lights, {nl} lights / {nm} materials / {nc} cameras"
                    expect(got.shape == want.shape, f"{what}: shape {tuple(got.shape)}, expected {tuple(want.shape)}")
                    fg = (fr.pix_to_face >= 0)
                    expect_close(what, got.double()[fg], want[fg], atol=2e-5, rtol=1e-4)
                    if model == "gouraud":
                        expect(bool((got[~fg] == 0).all()), f"{what}: colour where there is no face")
        rec.trace()


def run_channels(case, rec):
    """Ambient light and vertex textures with any number of channels."""
    ms = list(case[1])
    N = len(ms)
    for C in (1, 2, 3, 4):
        for K in (1, 2):
            fr = mk_frags(ms, K, 3)
            meshes = mk_meshes(ms, C)
            for nl, nm in itertools.product(sorted({1, N}), repeat=2):
                la = [[0.2 + 0.1 * ((i * 5 + c) % 8) for c in range(C)] for i in range(nl)]
                ma = [[0.9 - 0.1 * ((i * 3 + 2 * c) % 8) for c in range(C)] for i in range(nm)]
                lights = AmbientLights(ambient_color=la)
                mats = Materials(ambient_color=ma, diffuse_color=ma, specular_color=ma, shininess=torch.ones(nm))
                tx = meshes.sample_textures(fr)
                fg = fr.pix_to_face >= 0
                w = torch.stack([torch.tensor([x * y for x, y in zip(la[n if nl > 1 else 0], ma[n if nm > 1 else 0])]) for n in range(N)])
                want = tx * w[:, None, None, None]
                for model, fn in SHADE.items():
                    kw = dict(meshes=meshes, fragments=fr, lights=lights, cameras=mk_cams(1), materials=mats)
                    if model != "gouraud":
                        kw["texels"] = tx
                    got = fn(**kw)
                    rec.state((tuple(ms), C, K, nl, nm, model))
                    rec.step()
                    what = f"{model} shading with {C}-channel ambient light, meshes {ms}, {nl} lights / {nm} materials"
                    expect(got.shape == want.shape, f"{what}: shape {tuple(got.shape)}, expected {tuple(want.shape)}")
                    expect_close(what, got[fg], want[fg], atol=1e-5, rtol=1e-4)
    rec.trace()


def run_interp(case, rec):
    ms = list(case[1])
    meshes = mk_meshes(ms)
    F = meshes.faces_packed().shape[0]
    for K in (1, 2, 3):
        fr = mk_frags(ms, K, 6)
        for D in (1, 2, 3, 5):
            attr = (torch.arange(F * 3 * D) * 7 % 13).reshape(F, 3, D).float() / 4
            attr[0, 0, 0] = 1e6 if D == 5 else attr[0, 0, 0]
            a = attr.clone().requires_grad_(True)
            b = fr.bary_coords.clone().requires_grad_(True)
            got = interpolate_face_attributes(fr.pix_to_face, b, a)
            fg = (fr.pix_to_face >= 0)
            idx = fr.pix_to_face.clamp(min=0)
            want = (fr.bary_coords.double()[..., None] * attr.double()[idx]).sum(-2) * fg[..., None]
            rec.state((tuple(ms), K, D))
            rec.step(3)
            expect_close(f"interpolated attributes D={D} K={K}", got.double(), want, atol=1e-5, rtol=1e-5)
            g = (torch.arange(got.numel()) % 5 - 2.0).reshape(got.shape)
            got.backward(g)
            wb = torch.einsum("nhwkd,nhwkcd->nhwkc", g.double(), attr.double()[idx]) * fg[..., None]
            expect_close(f"gradient of barycentric coordinates D={D} K={K}", b.grad.double(), wb, atol=1e-4, rtol=1e-5)
            wa = torch.zeros(F, 3, D, dtype=f64)
            con = (fr.bary_coords.double()[..., None] * g.double()[..., None, :]) * fg[..., None, None]
            wa.index_add_(0, idx.reshape(-1), con.reshape(-1, 3, D))
            expect_close(f"gradient of attributes D={D} K={K}", a.grad.double(), wa, atol=1e-4, rtol=1e-5)
    rec.trace()


# ---------------------------------------------------------------- shaders
SHADERS = ["hard_phong", "soft_phong", "hard_gouraud", "soft_gouraud", "hard_flat", "silhouette", "hard_depth", "soft_depth", "splatter"]
CLS = {"hard_phong": HardPhongShader, "soft_phong": SoftPhongShader, "hard_gouraud": HardGouraudShader, "soft_gouraud": SoftGouraudShader,
       "hard_flat": HardFlatShader, "hard_depth": HardDepthShader, "soft_depth": SoftDepthShader, "splatter": SplatterPhongShader}
BP = [BlendParams(sigma=1e-4, gamma=0.1, background_color=(0.2, 0.7, 0.4)), BlendParams(sigma=5e-5, gamma=0.3, background_color=(0.9, 0.1, 0.6))]
BPS = [BlendParams(sigma=0.5, gamma=1e-4, background_color=(0.2, 0.7, 0.4)), BlendParams(sigma=0.5, gamma=1e-4, background_color=(0.9, 0.1, 0.6))]


def shader_cams(kind, n):
    if kind == "persp":
        return mk_cams(n, PerspectiveCameras)
    if kind == "fov":
        return mk_cams(n)
    zn, zf = torch.tensor([0.5, 1.0, 1.25][:n]), torch.tensor([10.0, 20.0, 5.0][:n])
    return mk_cams(n, FoVPerspectiveCameras if kind == "fov-z" else FoVOrthographicCameras, znear=zn, zfar=zf)


def planes(cams, N, kw):
    """per-image near and far distances that apply"""
    def one(name, default):
        v = kw[name] if name in kw else getattr(cams, name, default)
        v = torch.as_tensor(v, dtype=f64).reshape(-1)
        return v.expand(N) if v.numel() == 1 else v
    return one("znear", 1.0), one("zfar", 100.0)


def ref_shader(sh, ms, fr, kind, nl, nm, nc, bp, cams, kw):
    N, H, W, K = fr.pix_to_face.shape
    fg = fr.pix_to_face >= 0
    zn, zf = planes(cams, N, kw)
    if sh == "silhouette":
        return sigmoid_alpha_blend(torch.ones(N, H, W, K, 3), fr, bp).double()
    if sh == "hard_depth":
        return torch.where(fg[..., :1], fr.zbuf[..., :1].double(), zf[:, None, None, None].expand(N, H, W, 1))
    if sh == "soft_depth":
        out = torch.zeros(N, H, W, 1, dtype=f64)
        prob = (torch.sigmoid(-fr.dists.double() / bp.sigma) * fg).tolist()
        zb, z = fr.zbuf.double().tolist(), zf.tolist()
        for n, y, x in itertools.product(range(N), range(H), range(W)):
            left, acc = 1.0, 0.0
            for k in range(K):
                p = min(left, prob[n][y][x][k])
                acc += p * zb[n][y][x][k]
                left -= p
            out[n, y, x, 0] = acc + left * z[n]
        return out
    model = sh.split("_")[1]
    col = ref_image(model, kind, ms, fr, nl, nm, nc).float()
    if sh.startswith("hard"):
        return hard_rgb_blend(col, fr, bp).double()
    return softmax_rgb_blend(col, fr, bp, znear=zn.float(), zfar=zf.float()).double()


def make(sh, **kw):
    if sh == "silhouette":
        return SoftSilhouetteShader(blend_params=kw["blend_params"]) if "blend_params" in kw else SoftSilhouetteShader()
    return CLS[sh](**kw)


def run_shader(case, rec):
    ms, sh = list(case[1]), case[2]
    N = len(ms)
    bps = BPS if sh == "splatter" else BP
    for K in (1, 3):
        fr = mk_frags(ms, K, 2)
        meshes = mk_meshes(ms)
        for ck in ("persp", "fov", "fov-z", "orth-z"):
            if sh == "splatter" and ck == "orth-z":
                continue
            for kind, (nl, nm, nc) in itertools.product(("point", "dir"), itertools.product(sorted({1, N}), repeat=3)):
                if kind == "dir" and (nl, nm, nc) not in ((1, 1, 1), (N, N, N)):
                    continue
                cams = shader_cams(ck, nc)
                full = dict(cameras=cams, lights=mk_lights(kind, nl), materials=mk_mats(nm), blend_params=bps[0])
                other = dict(cameras=shader_cams(ck, 1), lights=mk_lights("dir", 1), materials=mk_mats(1), blend_params=bps[1])
                extra = {} if ck != "fov" else dict(znear=0.75, zfar=7.5)
                want = None if sh == "splatter" else ref_shader(sh, ms, fr, kind, nl, nm, nc, bps[0], cams, extra)
                got = {}
                for how in ("init", "call", "override"):
                    if how == "init":
                        s, kw = make(sh, **full), {}
                    elif how == "call":
                        s, kw = make(sh), full
                    else:
                        s, kw = make(sh, **other), full
                    got[how] = s(fr, meshes, **kw, **extra)
                    rec.state((sh, tuple(ms), K, ck, kind, nl, nm, nc, how))
                    rec.step()
                    what = f"{sh} shader, meshes {ms}, K={K}, {ck} cameras ({nc}), {kind} lights ({nl}), {nm} materials, arguments given at {how}"
                    if want is None:
                        want = got["init"].double()
                        single_splatter(ms, fr, meshes, full, got["init"], (nl, nm, nc), what, rec)
                    expect(got[how].shape == want.shape, f"{what}: shape {tuple(got[how].shape)}, expected {tuple(want.shape)}")
                    expect_close(what, got[how].double(), want, atol=5e-4 if sh.startswith("soft") else 5e-5, rtol=1e-3 if sh.startswith("soft") else 1e-4)
        rec.trace()


def sub_frag(fr, n, off):
    p = fr.pix_to_face[n:n + 1]
    return Fragments(pix_to_face=torch.where(p >= 0, p - off, p), zbuf=fr.zbuf[n:n + 1], bary_coords=fr.bary_coords[n:n + 1], dists=fr.dists[n:n + 1])


def single_splatter(ms, fr, meshes, full, got, ns, what, rec):
    """Every image of the batch equals the image rendered alone with its own parameters."""
    off = 0
    for n, m in enumerate(ms):
        kw = dict(blend_params=full["blend_params"])
        for name, cnt, cl in (("lights", ns[0], None), ("materials", ns[1], None), ("cameras", ns[2], None)):
            o = full[name]
            kw[name] = (o[[n]] if name == "cameras" else o.clone().gather_props(torch.tensor([n]))) if cnt > 1 else o
        one = SplatterPhongShader(**kw)(sub_frag(fr, n, off), meshes[n])
        rec.step()
        expect_close(f"{what}: image {n} against the same image alone", got[n:n + 1], one, atol=5e-5, rtol=1e-4)
        off += len(VERTS[m][1])


SHAPES = [((0,), 1), ((2, 1), 2), ((1, 0, 3), 1)]


def run_history(case, rec):
    """One shader object used for a sequence of batches gives at every call what a fresh shader gives."""
    sh, L = case[1], case[2]
    bps = BPS if sh == "splatter" else BP

    def image(s, i, kw):
        ms, K = SHAPES[i]
        return s(mk_frags(list(ms), K, 2), mk_meshes(list(ms)), **kw)

    base = dict(cameras=shader_cams("fov", 1), lights=mk_lights("point", 1), materials=mk_mats(1), blend_params=bps[0])
    alts = [{}, dict(blend_params=bps[1]), dict(lights=mk_lights("dir", 1), cameras=shader_cams("fov-z", 1))]
    acts = list(itertools.product(range(len(SHAPES)), range(len(alts))))
    fresh = {a: image(make(sh, **base), a[0], alts[a[1]]) for a in acts}
    for hist in itertools.product(acts, repeat=L):
        s = make(sh, **base)
        for a in hist:
            try:
                got = image(s, a[0], alts[a[1]])
            except (RuntimeError, ValueError, IndexError) as e:
                raise Violation(f"{sh} shader fails on call history {hist}: {e}")
            rec.step()
            expect(got.shape == fresh[a].shape, f"{sh} shader on call history {hist}: shape {tuple(got.shape)}, a fresh shader gives {tuple(fresh[a].shape)}")
            expect_close(f"{sh} shader on call history {hist}", got, fresh[a], atol=1e-6)
        rec.state((sh, hist))
        rec.trace()


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
