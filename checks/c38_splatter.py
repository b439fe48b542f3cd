"""C38: splatting of small images of layered pixels, exhaustively, against a pixel by pixel evaluation of the splatting rule."""
import itertools
import math

import torch
from mc.core import expect, expect_close

from pytorch3d.renderer import (FoVOrthographicCameras, FoVPerspectiveCameras, MeshRasterizer, MeshRenderer, PointLights, RasterizationSettings,
                                SplatterPhongShader, TexturesVertex)
from pytorch3d.renderer.blending import BlendParams
from pytorch3d.renderer.lighting import DirectionalLights
from pytorch3d.renderer.mesh.shading import phong_shading
from pytorch3d.renderer.materials import Materials
from pytorch3d.renderer.splatter_blend import SplatterBlender
from pytorch3d.structures import Meshes

PROPERTY = "C38"
ASSUMPTIONS = [
    "layers of a pixel come sorted by depth with the empty ones last, as the rasterizer delivers them; points lie within their pixel",
    "which of two exactly equally near layers is taken for the common surface is not compared (the depths are chosen without such ties)",
]
BOUNDS = {
    "quick": "every pair of neighbouring pixels in 8 directions with all their layer lists from 4 depths, K = 1..3; all images 2x2 with layer lists "
             "from 3 depths (2401), 1x3, 3x1 (343), 2x3 and 3x2 from 2 depths (4096 each), K = 2; pixels exactly on and off their centres, 2 cameras, "
             "sigma 0.5 and 1, backgrounds; SplatterPhongShader on 24 scenes with image size changes between calls",
    "thorough": "in addition 2x2 with 4 depths (14641) and K = 3 from 3 depths (4096), 3x3 with one depth or none (512)",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64
# a Golomb ruler with the background's depth 1: all differences of depths are different
LEVELS = [2 / 13, 4 / 13, 9 / 13, 12 / 13]


def lists(nl, K):
    return [c for k in range(K + 1) for c in itertools.combinations(range(nl), k)]


def color(p, k, n):
    return [0.15 + 0.7 * abs(math.sin(1.3 * p + 2.1 * k + 0.7 * ch + 0.01 * n)) for ch in range(3)]


def camera(kind, n):
    if kind == "ortho":
        R = torch.tensor([[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]])[None]
        cam = FoVOrthographicCameras(znear=1.0, zfar=9.0, R=R, T=torch.tensor([[0.3, -0.2, 0.5]]))

        def world(x, y, z):
            v = (x - 0.3, y + 0.2, 1 + 8 * z - 0.5)
            return [v[1], -v[0], v[2]]
    else:
        a = math.radians(60.0)
        R = torch.tensor([[-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0]])[None]
        cam = FoVPerspectiveCameras(znear=1.0, zfar=5.0, fov=60.0, R=R, T=torch.tensor([[0.1, 0.2, 0.25]]))

        def world(x, y, z):
            w = 5.0 / 4.0 / (5.0 / 4.0 - z)
            t = math.tan(a / 2)
            return [-(x * t * w - 0.1), y * t * w - 0.2, -(w - 0.25)]
    return cam, world


def reference(layers, off, H, W, K, sigma, bg, n, col=color):
    """layers[r][c]: depths (K, 1.0 for none); off[r][c][k]: offset in pixels to the right and down -> H*W*4 values"""
    norm = 1.05 / sum(math.exp(-(a * a + b * b) / (2 * sigma * sigma)) for a in (-1, 0, 1) for b in (-1, 0, 1))
    out = []
    for r in range(H):
        for c in range(W):
            Q = layers[r][c]
            acc = [[0.0] * 5 for _ in range(3)]
            for dr, dc in itertools.product((-1, 0, 1), repeat=2):
                i, j = r + dr, c + dc
                if not (0 <= i < H and 0 <= j < W):
                    continue
                P = layers[i][j]
                toq = [abs(P[0] - q) for q in Q]
                top = [abs(p - Q[0]) for p in P]
                if min(toq) < min(top):
                    surf = -toq.index(min(toq))
                else:
                    surf = top.index(min(top))
                for k in range(K):
                    if P[k] == 1.0:
                        continue
                    dx, dy = off[i][j][k]
                    w = norm * math.exp(-((dc + dx) ** 2 + (dr + dy) ** 2) / (2 * sigma * sigma))
                    a = acc[0 if k < surf else 1 if k == surf else 2]
                    for ch, v in enumerate(col(i * W + j, k, n) + [1.0, 1.0]):
                        a[ch] += w * v
            o = list(bg) + [0.0]
            for a in reversed(acc):
                s = 1 / max(a[4], 1.0)
                o = [a[ch] * s + (1 - a[3] * s) * o[ch] for ch in range(4)]
            out.append(o)
    return out


def compare(what, images, H, W, K, cam_kind, sigma, bg, jitter, blender=None):
    """images: lists of H*W layer lists; all of them are one batch"""
    cam, world = camera(cam_kind, len(images))
    N = len(images)
    s = min(H, W)
    pts = torch.zeros(N, H, W, K, 3, dtype=f64)
    cols = torch.zeros(N, H, W, K, 3)
    mask = torch.ones(N, H, W, K, dtype=torch.bool)
    P, C, M, want = [], [], [], []
    for n, im in enumerate(images):
        lay, off = [], []
        for r in range(H):
            lr, of = [], []
            for c in range(W):
                d = [LEVELS[z] for z in im[r * W + c]]
                o = []
                for k in range(K):
                    dx, dy = ((((r * 5 + c * 3 + k * 7 + n) % 7) - 3) * 0.1, (((r * 3 + c * 7 + k * 5 + 2 * n) % 9) - 4) * 0.09) if jitter else (0.0, 0.0)
                    o.append((dx, dy))
                    if k < len(d):
                        P.append(world((W / 2 - (c + 0.5 + dx)) * 2 / s, (H / 2 - (r + 0.5 + dy)) * 2 / s, d[k]))
                        C.append(color(r * W + c, k, n))
                        M.append((n, r, c, k))
                lr.append(d + [1.0] * (K - len(d)))
                of.append(o)
            lay.append(lr)
            off.append(of)
        want.append(reference(lay, off, H, W, K, sigma, bg, n))
    if M:
        ix = tuple(torch.tensor(M).T)
        pts[ix] = torch.tensor(P, dtype=f64)
        cols[ix] = torch.tensor(C)
        mask[ix] = False
    # what the empty slots contain must not matter
    pts[mask] = torch.tensor([0.2, 0.1, 3.0 if cam_kind == "ortho" else -3.0], dtype=f64)
    cols[mask] = 0.6
    pts = pts.float()
    keep = (pts.clone(), cols.clone(), mask.clone())
    blender = blender or SplatterBlender((N, H, W, K), torch.device("cpu"))
    bgv = tuple(bg) if not isinstance(bg, torch.Tensor) else bg
    got = blender(cols, pts, cam, mask, BlendParams(sigma=sigma, background_color=bgv))
    expect(all(torch.equal(a, b) for a, b in zip(keep, (pts, cols, mask))), what + ": an input is changed")
    expect_close(what, got, torch.tensor(want, dtype=f64).reshape(N, H, W, 4), 2e-4, 1e-4)
    return blender


BGS = [(0.0, 0.0, 0.0), (1.0, 0.5, 0.25)]


def run_pair(c, rec):
    K, d = c["K"], c["dir"]
    ll = lists(4, K)
    for cam_kind, jit, sigma in (("ortho", False, 0.5), ("ortho", True, 0.5), ("persp", True, 0.5), ("persp", True, 1.0)):
        images = []
        for a, b in itertools.product(ll, repeat=2):
            im = [()] * 9
            im[4] = a
            im[(1 + d[0]) * 3 + 1 + d[1]] = b
            images.append(im)
        compare("splatting of two neighbours %s K=%d %s jitter=%s sigma=%s" % (d, K, cam_kind, jit, sigma), images, 3, 3, K, cam_kind, sigma, BGS[1], jit)
        rec.state((d, K, cam_kind, jit, sigma))
        rec.step(len(images))
    rec.trace()


def run_full(c, rec):
    H, W, K, nl = c["H"], c["W"], c["K"], c["levels"]
    ll = lists(nl, K)
    it = [list(c["first"] and [ll[i] for i in c["first"]]) + list(r) for r in itertools.product(ll, repeat=H * W - len(c["first"]))]
    bl = None
    for cam_kind, jit, sigma, bg in (("ortho", True, 0.5, BGS[0]), ("persp", True, 0.5, BGS[1])) if not c["one"] else (("persp", True, 0.5, BGS[1]),):
        bl = compare("splatting of an image %dx%d K=%d %s" % (H, W, K, cam_kind), it, H, W, K, cam_kind, sigma, bg, jit, bl)
        rec.state((H, W, K, cam_kind, c["first"]))
        rec.step(len(it))
    rec.trace()


def scene(i):
    quads = [[(-1.5, -1.3, 0.0), (1.4, -1.2, 0.3), (0.2, 1.5, -0.2)], [(-0.9, 1.2, 0.8), (1.3, 0.9, -0.5), (0.1, -1.6, 0.4)],
             [(-2.0, -2.0, 1.2), (2.1, -1.9, 1.3), (0.0, 2.2, 1.1)]]
    pick = [[0], [1], [0, 1], [0, 2], [1, 2], [0, 1, 2]][i % 6]
    v = [p for q in pick for p in quads[q]]
    f = [[3 * k, 3 * k + 1, 3 * k + 2] for k in range(len(pick))]
    return torch.tensor(v), torch.tensor(f), torch.tensor([[0.2 + 0.07 * j, 0.9 - 0.08 * j, 0.3 + 0.05 * ((j * 5) % 9)] for j in range(len(v))])


def run_shader(c, rec):
    """The shader: splatting of the Phong shaded layers at the interpolated positions; one shader used for images of different sizes."""
    sh = SplatterPhongShader(device="cpu")
    for (H, W), idx, K, cam_kind, lk in c["calls"]:
        N = len(idx)
        parts = [scene(i) for i in idx]
        meshes = Meshes([p[0] for p in parts], [p[1] for p in parts], TexturesVertex([p[2] for p in parts]))
        R = torch.tensor([[-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0]])[None].expand(N, -1, -1)
        T = torch.tensor([[0.05, -0.1, 3.5]]).expand(N, -1)
        cls = FoVPerspectiveCameras if cam_kind == "persp" else FoVOrthographicCameras
        cam = cls(R=R, T=T, znear=1.0, zfar=9.0)
        ras = MeshRasterizer(cam, RasterizationSettings(image_size=(H, W), faces_per_pixel=K))
        fr = ras(meshes)
        lights = PointLights(location=[[0.0, 1.0, 3.0]]) if lk else DirectionalLights(direction=[[0.2, 0.5, 1.0]])
        mats = Materials(shininess=20)
        bg = BGS[lk]
        img = sh(fr, meshes, cameras=cam, lights=lights, materials=mats, blend_params=BlendParams(sigma=0.5, background_color=bg))
        expect(tuple(img.shape) == (N, H, W, 4), "SplatterPhongShader: shape %s" % (tuple(img.shape),))
        cols = phong_shading(meshes=meshes, fragments=fr, texels=meshes.sample_textures(fr), lights=lights, cameras=cam, materials=mats)
        fv = meshes.verts_packed().double()[meshes.faces_packed()]
        want = []
        for n in range(N):
            lay = [[[1.0] * K for _ in range(W)] for _ in range(H)]
            off = [[[(0.0, 0.0)] * K for _ in range(W)] for _ in range(H)]
            for r, q, k in itertools.product(range(H), range(W), range(K)):
                fi = int(fr.pix_to_face[n, r, q, k])
                if fi >= 0:
                    p = (fr.bary_coords[n, r, q, k].double()[:, None] * fv[fi]).sum(0)
                    v = p @ R[n].double() + T[n].double()
                    x, y, z = v.tolist()
                    if cam_kind == "persp":
                        t = math.tan(math.radians(30.0))
                        x, y, z = x / z / t, y / z / t, 9 / 8 - 9 / 8 / z
                    else:
                        z = (z - 1) / 8
                    s = min(H, W)
                    lay[r][q][k] = z
                    off[r][q][k] = (W / 2 - x * s / 2 - q - 0.5, H / 2 - y * s / 2 - r - 0.5)
                    expect(max(map(abs, off[r][q][k])) < 1e-3, "fragment %s is not at its pixel: %s" % ((n, r, q, k), off[r][q][k]))
            cn = cols[n].reshape(H * W, K, 3).tolist()
            want.append(reference(lay, off, H, W, K, 0.5, bg, n, lambda p, k, _: cn[p][k]))
        got = img.detach().double()
        expect_close("SplatterPhongShader %dx%d scenes %s K=%d %s" % (H, W, idx, K, cam_kind), got,
                     torch.tensor(want, dtype=f64).reshape(N, H, W, 4), 1e-3, 1e-3)
        again = MeshRenderer(ras, sh)(meshes, cameras=cam, lights=lights, materials=mats, blend_params=BlendParams(sigma=0.5, background_color=bg))
        expect(torch.equal(again, img), "SplatterPhongShader gives another image the second time")
        rec.step()
        rec.state((H, W, idx, K, cam_kind, lk))
    rec.trace()


RUN = {"pair": run_pair, "full": run_full, "shader": run_shader}


def cases(tier):
    deep = tier == "thorough"
    out = []
    for K in (1, 2, 3):
        for d in itertools.product((-1, 0, 1), repeat=2):
            if d != (0, 0):
                out.append({"kind": "pair", "K": K, "dir": list(d)})

    def full(H, W, K, nl, nf, one=False):
        n = len(lists(nl, K))
        for first in itertools.product(range(n), repeat=nf):
            out.append({"kind": "full", "H": H, "W": W, "K": K, "levels": nl, "first": list(first), "one": one})
    for H, W in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1)):
        full(H, W, 2, 3, 0)
        full(H, W, 1, 3, 0)
    full(2, 2, 2, 3, 1)
    full(2, 3, 2, 2, 2)
    full(3, 2, 2, 2, 2)
    if deep:
        full(2, 2, 2, 4, 2)
        full(2, 2, 3, 3, 2)
        full(3, 3, 1, 1, 3)
    for ck in ("persp", "ortho"):
        for lk in (0, 1):
            out.append({"kind": "shader", "calls": [((5, 5), [0], 2, ck, lk), ((5, 7), [1, 4], 2, ck, lk), ((7, 5), [3, 5], 3, ck, lk), ((5, 5), [2], 2, ck, 1 - lk),
                                                    ((5, 5), [5], 1, ck, lk), ((5, 7), [4, 2], 2, ck, lk)]})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
