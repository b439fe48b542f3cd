"""C42: Implicitron's neural fields, renderers and models render every ray from what the field says along it."""
import itertools
import math
import warnings

import torch
from omegaconf import DictConfig, OmegaConf
from mc.core import expect, expect_close

from pytorch3d.implicitron.models.base_model import ImplicitronRender
from pytorch3d.implicitron.models.feature_extractor import FeatureExtractorBase
from pytorch3d.implicitron.models.generic_model import GenericModel
from pytorch3d.implicitron.models.implicit_function.base import ImplicitFunctionBase
from pytorch3d.implicitron.models.implicit_function.decoding_functions import DecoderActivation, ElementwiseDecoder, MLPDecoder, MLPWithInputSkips
from pytorch3d.implicitron.models.implicit_function.idr_feature_field import IdrFeatureField
from pytorch3d.implicitron.models.implicit_function.neural_radiance_field import NeRFormerImplicitFunction, NeuralRadianceFieldImplicitFunction
from pytorch3d.implicitron.models.implicit_function.scene_representation_networks import SRNHyperNetImplicitFunction, SRNImplicitFunction
from pytorch3d.implicitron.models.implicit_function.voxel_grid_implicit_function import VoxelGridImplicitFunction
from pytorch3d.implicitron.models.overfit_model import OverfitModel
from pytorch3d.implicitron.models.renderer.base import (
    EvaluationMode,
    ImplicitFunctionWrapper,
    ImplicitronRayBundle,
    conical_frustum_to_gaussian,
)
from pytorch3d.implicitron.models.renderer.lstm_renderer import LSTMRenderer
from pytorch3d.implicitron.models.renderer.multipass_ea import MultiPassEmissionAbsorptionRenderer
from pytorch3d.implicitron.models.renderer.ray_sampler import NearFarRaySampler
from pytorch3d.implicitron.models.renderer.sdf_renderer import SignedDistanceFunctionRenderer
from pytorch3d.implicitron.models.view_pooler.view_pooler import ViewPooler
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args, registry
from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.renderer.implicit.sample_pdf import sample_pdf
from pytorch3d.transforms import axis_angle_to_matrix

PROPERTY = "C42"
ASSUMPTIONS = [
    "small networks (at most 4 layers of at most 16 units) with the random initial weights of a fixed seed; what a layer computes does not depend on its width",
    "rays of the signed-distance renderer pass a surface's silhouette at 0.02 or more; the fields are exact distances to spheres; cameras are outside "
    "the surfaces",
    "ray sampling, image sampling, inverse-CDF sampling and view pooling are those of the library (checked by C25, C26, C31, C33)",
]
BOUNDS = {
    "quick": "multi-layer perceptrons of 1..4 layers x every set of skip layers x 4 activations x plain/affine skips x with and without skip input; radiance fields "
             "x every combination of latent code, pooled views (0..2 sources), camera or world coordinates, integrated encoding and 3 bundle shapes; NeRFormer of "
             "1..2 layers x skips; SRN fields and every history of up to 4 bindings and calls of the hypernetwork's 2 codes; IDR fields of 1..3 layers x skips; frusta "
             "of all pairs of 5 depths x 3 radii x 3 directions; multi-pass renders of every density profile over {0, .7, 5} at 4 depths x 1..3 passes x every switch; "
             "signed-distance renders of 5 scenes x 3 cameras x every chunking of the rays, and every object mask of 4 rays in training; LSTM renders of 0..3 steps; "
             "models: 1..2 passes x every chunk size x 1..3 views x target counts x training and evaluation x coarse functions of every kind; every history of up "
             "to 3 forward calls",
    "thorough": "5 density values, chunkings of larger images, 5 bindings, histories of 4 forward calls",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64
EV, TR = EvaluationMode.EVALUATION, EvaluationMode.TRAINING
SHAPES = ((3,), (2, 2), (1, 1, 3))


def make(cls, **kw):
    expand_args_fields(cls)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(**kw)


def randomize(m, seed=0):
    """every parameter gets its own values (layers start at zero biases otherwise)"""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in m.parameters():
            s = p.std() if p.numel() > 1 else p.new_tensor(0.3)
            p.copy_(torch.randn(p.shape, generator=g).to(p) * torch.clamp(s, 0.2, 0.6))
    return m


def gen(seed):
    return torch.Generator().manual_seed(seed)


def state(m):
    return {k: v.detach().double() for k, v in m.state_dict().items()}


def lin(s, k, x):
    return x @ s[k + ".weight"].T + s[k + ".bias"]


def layer_norm(x, w=None, b=None):
    y = (x - x.mean(-1, keepdim=True)) / torch.sqrt(x.var(-1, unbiased=False, keepdim=True) + 1e-5)
    return y if w is None else y * w + b


ACT = {"RELU": lambda x: x.clamp(min=0), "SOFTPLUS": lambda x: torch.log1p(torch.exp(x)), "SIGMOID": lambda x: 1 / (1 + torch.exp(-x)), "IDENTITY": lambda x: x}


def harmonic(x, n, cov=None):
    f = 2.0 ** torch.arange(n, dtype=f64)
    a = (x[..., None] * f).flatten(-2)
    if cov is None:
        return torch.cat([a.sin(), a.cos(), x], -1)
    w = torch.exp(-0.5 * (cov[..., None] * f ** 2).flatten(-2))
    return torch.cat([a.sin() * w, a.cos() * w, x], -1)


def ref_mlp(s, x, n, skips, z, last="RELU", affine=False, pre=""):
    y, k = x, 0
    for i in range(n):
        if i in skips:
            if affine:
                h = lin(s, pre + "skip_affines.%d.2" % k, lin(s, pre + "skip_affines.%d.0" % k, z).clamp(min=0))
                mu, ls = h.chunk(2, -1)
                y = (y - mu) * torch.log1p(torch.exp(ls))
                k += 1
            else:
                y = torch.cat([y, z], -1)
        y = lin(s, pre + "mlp.%d.0" % i, y)
        y = ACT[last](y) if i == n - 1 else y.clamp(min=0)
    return y


def run_mlp(case, rec):
    n = case["n"]
    for r in range(n):
        for skips in itertools.combinations(range(1, n), r):
            for last in ACT:
                for affine in (False, True):
                    for zd in (None, 2):
                        torch.manual_seed(n)
                        kw = dict(n_layers=n, output_dim=3, hidden_dim=5, input_skips=skips, skip_affine_trans=affine, last_activation=DecoderActivation[last],
                                  skip_dim=4 if zd is None else zd)
                        what = "%d layers, skips %s, %s, affine %s, skip input %s" % (n, skips, last, affine, zd)
                        x = torch.randn(2, 3, 4, generator=gen(1)).double()
                        z = None if zd is None else torch.randn(2, 3, zd, generator=gen(2)).double()
                        for dec in (False, True):
                            if dec:
                                m = make(MLPDecoder, input_dim=4, network_args=kw)
                            else:
                                m = make(MLPWithInputSkips, input_dim=4, **kw)
                            m = randomize(m).double()
                            want = ref_mlp(state(m), x, n, skips, x if z is None else z, last, affine, "network." if dec else "")
                            keep = x.clone()
                            expect_close(("decoder, " if dec else "") + what, m(x, z), want, atol=1e-9)
                            expect(torch.equal(keep, x), "the input was changed: " + what)
                            rec.state((what, dec))
                            rec.step()
                        for init in (0.0, -1.5):
                            b = make(MLPWithInputSkips, input_dim=4, last_layer_bias_init=init, **kw)
                            bs = state(b)
                            expect(bool((bs["mlp.%d.0.bias" % (n - 1)] == init).all()), "initial bias %s of the last layer: %s" % (init, what))
        rec.trace()
    for op in DecoderActivation:
        for scale, shift in ((1, 0), (2.5, -0.25), (-1, 3)):
            x = torch.linspace(-3, 3, 13, dtype=f64)[:, None]
            expect_close("elementwise %s" % op, make(ElementwiseDecoder, scale=scale, shift=shift, operation=op)(x), ACT[op.name](x * scale + shift), atol=1e-9)


# ---------------------------------------------------------------- radiance fields
def bundle64(shape, B, P, seed, bins=False):
    g = gen(seed)
    o = torch.randn(B, *shape, 3, generator=g).double()
    d = torch.randn(B, *shape, 3, generator=g).double() * 1.5
    l = torch.rand(B, *shape, P + bins, generator=g).double().cumsum(-1) + 0.1
    rad = torch.rand(B, *shape, 1, generator=g).double() * 0.2 + 0.05
    xy = torch.zeros(B, *shape, 2).double()
    if bins:
        return ImplicitronRayBundle(o, d, None, xy, bins=l, pixel_radii_2d=rad)
    return ImplicitronRayBundle(o, d, l, xy)


def frusta(b):
    """means and variances of the frusta (exact moments of a cone between two depths)"""
    t0, t1 = b.bins[..., :-1], b.bins[..., 1:]
    m = lambda k: (t1 ** (k + 1) - t0 ** (k + 1)) / (k + 1)
    mean = m(3) / m(2)
    var = m(4) / m(2) - mean ** 2
    rad = b.pixel_radii_2d ** 2 * m(4) / m(2) / 4
    d = b.directions
    out = d ** 2
    return (b.origins[..., None, :] + mean[..., None] * d[..., None, :],
            var[..., None] * out[..., None, :] + rad[..., None] * (1 - out / out.sum(-1, keepdim=True))[..., None, :])


def run_cone(case, rec):
    ts = [0.05, 0.5, 1.0, 2.5, 6.0]
    dirs = torch.tensor([[0, 0, 1.0], [0.6, 0, 0.8], [1.0, -2.0, 0.5]], dtype=f64)
    for n in (2, 3, 5):
        bins = torch.tensor(list(itertools.combinations(ts, n)), dtype=f64)
        for rad in (0.01, 0.3, 1.0):
            for d in dirs:
                k = len(bins)
                b = ImplicitronRayBundle(torch.tensor([[0.5, -1, 2.0]] * k, dtype=f64)[None], d.expand(1, k, 3), None, torch.zeros(1, k, 2), bins=bins[None],
                                         pixel_radii_2d=torch.full((1, k, 1), rad, dtype=f64))
                mean, cov = conical_frustum_to_gaussian(b)
                wm, wc = frusta(b)
                expect_close("means of the frusta, bins %d, radius %s, direction %s" % (n, rad, d.tolist()), mean, wm, atol=1e-8)
                expect_close("variances of the frusta, bins %d, radius %s, direction %s" % (n, rad, d.tolist()), cov, wc, atol=1e-8)
                expect_close("lengths of bins", b.lengths, (bins[None, :, 1:] + bins[None, :, :-1]) / 2, atol=1e-12)
                rec.state((n, rad, d))
                rec.step()
    # a cone covers the pixel's footprint on the plane at distance 1
    for H, W in itertools.product((2, 3, 5), repeat=2):
        for f in ((1.0, 1.0), (2.0, 0.5)):
            for pose in range(3):
                cam = cams(pose, 2, f)
                for mode in (EV, TR):
                    s = make(NearFarRaySampler, image_width=W, image_height=H, n_pts_per_ray_evaluation=3, n_pts_per_ray_training=3, cast_ray_bundle_as_cone=True,
                             sampling_mode_training="full_grid", stratified_point_sampling_training=False, min_depth=1.0, max_depth=4.0)
                    b = s(cam, mode)
                    side = min(H, W)
                    want = 2.0 / side * (1 / f[0] + 1 / f[1]) / math.sqrt(12)
                    expect_close("radii of the cones, %dx%d" % (H, W), b.pixel_radii_2d, torch.full((2, H, W, 1), want), atol=1e-4)
                    expect_close("bins", b.bins, torch.linspace(1, 4, 4).expand(2, H, W, 4), atol=1e-5)
                    rec.step()
    rec.trace()


ROT = [(0.0, 0.0, 0.0), (0.3, -0.4, 0.2), (0.0, 2.0, 0.5), (-1.0, 0.1, 2.5)]


def cams(first, n, f=(1.5, 1.5), dtype=torch.float32):
    R = axis_angle_to_matrix(torch.tensor([ROT[(first + i) % 4] for i in range(n)], dtype=f64))
    T = torch.tensor([[0.0, 0.0, 3.0]] * n, dtype=f64)
    return PerspectiveCameras(R=R.to(dtype), T=T.to(dtype), focal_length=torch.tensor([f] * n, dtype=dtype))


def single(b, code, camera):
    """cameras transform points in single precision only"""
    if not camera:
        return b, code
    f = lambda x: None if x is None else x.float()
    return ImplicitronRayBundle(f(b.origins), f(b.directions), f(b.lengths) if b.bins is None else None, f(b.xys), bins=f(b.bins), pixel_radii_2d=f(b.pixel_radii_2d)), f(code)


def pool(nsrc, C):
    def f(pts):
        base = torch.cat([torch.sin(pts * (i + 1) + torch.arange(3)) for i in range(C)], -1)[..., :C]
        return torch.stack([base + 0.5 * k + k * pts[..., :1] for k in range(nsrc)], 1)
    return f


def ref_embeds(b, P, nh, opts, cam):
    """(B, nsrc, R, P, C) inputs of the network, and the directions"""
    B = b.origins.shape[0]
    if opts["ipe"]:
        pts, cov = frusta(b)
    else:
        pts, cov = b.origins[..., None, :] + b.lengths[..., None] * b.directions[..., None, :], None
    pts, d = pts.reshape(B, -1, 3), b.directions.reshape(B, -1, 3)
    if opts["camera"]:
        R, T = cam.R.double(), cam.T.double()
        ep, d = pts @ R + T[:, None], d @ R
    else:
        ep = pts
    e = []
    if opts["xyz"]:
        e = [harmonic(ep, nh, None if cov is None else cov.reshape(B, -1, 3))[:, None]]
    if opts["pool"]:
        v = pool(opts["pool"], 2)(pts)
        e = [x.expand(-1, opts["pool"], -1, -1) for x in e] + [v]
    if opts["code"] is not None:
        shape = e[0].shape[:3] if e else (B, 1, pts.shape[1])
        e.append(opts["code"][:, None, None].expand(*shape, -1))
    e = torch.cat(e, -1)
    return e.reshape(B, e.shape[1], -1, P, e.shape[-1]), d


def ref_heads(s, feat, d, ndir):
    dens = lin(s, "density_layer", feat)
    mid = lin(s, "intermediate_linear", feat)
    dn = harmonic(d / d.norm(dim=-1, keepdim=True), ndir)
    x = torch.cat([mid, dn[..., None, :].expand(*mid.shape[:-1], dn.shape[-1])], -1)
    x = lin(s, "color_layer.0", x).clamp(min=0)
    return dens, ACT["SIGMOID"](lin(s, "color_layer.2", x))


def mha(s, k, x, nh):
    """x (L, N, D)"""
    L, N, D = x.shape
    q, kk, v = (x @ s[k + ".in_proj_weight"].T + s[k + ".in_proj_bias"]).chunk(3, -1)
    out = torch.empty_like(x)
    for h in range(nh):
        sl = slice(h * D // nh, (h + 1) * D // nh)
        a = torch.einsum("ind,jnd->nij", q[..., sl], kk[..., sl]) / math.sqrt(D // nh)
        out[..., sl] = torch.einsum("nij,jnd->ind", a.softmax(-1), v[..., sl])
    return lin(s, k + ".out_proj", out)


def enc_layer(s, k, x):
    x = layer_norm(x + mha(s, k + ".self_attn", x, 4), s[k + ".norm1.weight"], s[k + ".norm1.bias"])
    y = lin(s, k + ".linear2", lin(s, k + ".linear1", x).clamp(min=0))
    return layer_norm(x[..., :y.shape[-1]] + y, s[k + ".norm2.weight"], s[k + ".norm2.bias"])


def ref_transformer(s, e, n, skips):
    B, S, R, P, _ = e.shape
    k = "xyz_encoder."
    y, sk = lin(s, k + "first", e), 0
    for i in range(n):
        if i in skips:
            y = y + lin(s, k + "skip_linear.%d" % sk, e)
            sk += 1
        D = y.shape[-1]
        y = enc_layer(s, k + "layers_pool.%d" % i, y.permute(1, 0, 2, 3, 4).reshape(S, -1, D))      # between the sources of a point
        D = y.shape[-1]
        y = y.reshape(S, B, R, P, D).permute(3, 1, 0, 2, 4).reshape(P, -1, D)
        y = enc_layer(s, k + "layers_ray.%d" % i, y).reshape(P, B, S, R, -1).permute(1, 2, 3, 0, 4)      # between the points of a ray
    w = y[..., :1].softmax(1)
    return lin(s, k + "last", (y * w).sum(1))


def run_nerf(case, rec):
    former, code, pooled = case["former"], case["code"], case["pool"]
    for camera, ipe, xyz in itertools.product((False, True), repeat=3):
        lat = 3 * code + 2 * bool(pooled)
        if not xyz and not lat:
            continue
        for shape in SHAPES:
            for B in (1, 2):
                for n in (1, 2) if former else (2, 3):
                    torch.manual_seed(3)
                    skips = (n - 1,) if n > 1 else ()
                    if former:
                        m = make(NeRFormerImplicitFunction, n_harmonic_functions_xyz=2, n_harmonic_functions_dir=1, n_hidden_neurons_xyz=16, n_hidden_neurons_dir=4,
                                 latent_dim=lat, input_xyz=xyz, xyz_ray_dir_in_camera_coords=camera, use_integrated_positional_encoding=ipe,
                                 n_layers_xyz=n, append_xyz=skips, transformer_dim_down_factor=2.0)
                    else:
                        m = make(NeuralRadianceFieldImplicitFunction, n_harmonic_functions_xyz=2, n_harmonic_functions_dir=1, n_hidden_neurons_xyz=6,
                                 n_hidden_neurons_dir=4, latent_dim=lat, input_xyz=xyz, xyz_ray_dir_in_camera_coords=camera, color_dim=4,
                                 use_integrated_positional_encoding=ipe, n_layers_xyz=n, append_xyz=skips)
                    m = randomize(m).double()
                    P = 3
                    b = bundle64(shape, B, P, 5, bins=ipe)
                    cam = cams(1, B, dtype=f64)
                    opts = {"camera": camera, "ipe": ipe, "xyz": xyz, "pool": pooled, "code": torch.randn(B, 3, generator=gen(9)).double() if code else None}
                    what = "former %s, %s, shape %s, batch %d, %d layers" % (former, {k: v is not None and v is not False for k, v in opts.items()}, shape, B, n)
                    tol = 1e-3 if camera else 1e-6
                    bb, cc = single(b, opts["code"], camera)
                    torch.set_default_dtype(torch.float32 if camera else f64)
                    try:
                        dens, col, aux = m.to(torch.get_default_dtype())(
                            ray_bundle=bb, fun_viewpool=pool(pooled, 2) if pooled else None, camera=cams(1, B) if camera else None, global_code=cc)
                    finally:
                        torch.set_default_dtype(torch.float32)
                    m = m.double()
                    e, d = ref_embeds(b, P, 2, opts, cam)
                    s = state(m)
                    if former:
                        feat = ref_transformer(s, e, n, skips)
                    else:
                        if e.shape[1] > 1:
                            continue
                        feat = ref_mlp(s, e, n, skips, e, pre="xyz_encoder.")[:, 0]
                    wd, wc = ref_heads(s, feat, d, 1)
                    expect_close("densities, " + what, dens, wd.reshape(B, *shape, P, 1), atol=tol, rtol=tol)
                    expect_close("colours, " + what, col, wc.reshape(B, *shape, P, -1), atol=tol, rtol=tol)
                    expect(aux == {}, "aux output")
                    rec.state(what)
                    rec.step()
        rec.trace()


def fc_layer(s, k, x):
    return layer_norm(lin(s, k + ".net.0", x), s[k + ".net.1.weight"], s[k + ".net.1.bias"]).clamp(min=0)


def fc_block(s, k, x, n, outer=False):
    for i in range(n + 1):
        x = fc_layer(s, k + ".net.%d" % i, x)
    return lin(s, k + ".net.%d" % (n + 1), x) if outer else fc_layer(s, k + ".net.%d" % (n + 1), x)


def ref_pixel(s, feat, d, n):
    x = fc_block(s, "pixel_generator._net", feat, n)
    dn = harmonic(d / d.norm(dim=-1, keepdim=True), 1)
    y = torch.cat([x, dn[..., None, :].expand(*x.shape[:-1], dn.shape[-1])], -1)
    y = layer_norm(lin(s, "pixel_generator._color_layer.0", y), s["pixel_generator._color_layer.1.weight"], s["pixel_generator._color_layer.1.bias"])
    return lin(s, "pixel_generator._density_layer", x), lin(s, "pixel_generator._color_layer.3", y.clamp(min=0))


def ref_hyper(s, code, x, n, ins, outs):
    for i in range(n + 2):
        h = fc_block(s, "hypernet._hypernet.layers.%d.hyper_linear.hypo_params" % i, code, 1, True)
        a, o = (ins if i == 0 else 6), (outs if i == n + 1 else 6)
        W, bias = h[:, :a * o].reshape(-1, o, a), h[:, a * o:]
        x = layer_norm(torch.einsum("bpi,boi->bpo", x, W) + bias[:, None]).clamp(min=0)
    return x


def srn(hyper, n, of, code, camera, pooled=0):
    torch.manual_seed(4)
    common = dict(n_harmonic_functions=2, n_hidden_units=6, n_layers=n, out_features=of, xyz_in_camera_coords=camera)
    pix = dict(n_harmonic_functions=1, n_hidden_units=5, n_hidden_units_color=4, n_layers=n, in_features=of, ray_dir_in_camera_coords=camera)
    lat = 2 * bool(pooled)
    if hyper:
        m = make(SRNHyperNetImplicitFunction, latent_dim=lat, latent_dim_hypernet=3, hypernet_args=dict(n_hidden_units_hypernet=4, n_layers_hypernet=1, **common),
                 pixel_generator_args=pix)
    else:
        m = make(SRNImplicitFunction, latent_dim=lat + 3 * code, raymarch_function_args=common, pixel_generator_args=pix)
    return randomize(m).double()


def ref_srn_features(m, hyper, n, of, b, opts, cam):
    B = b.origins.shape[0]
    P = b.lengths.shape[-1]
    o = dict(opts, code=None) if hyper else opts
    e, d = ref_embeds(b, P, 2, o, cam)
    x = e.reshape(B, -1, e.shape[-1])
    s = state(m)
    f = ref_hyper(s, opts["code"], x, n, e.shape[-1], of) if hyper else fc_block(s, "raymarch_function._net", x, n)
    return f.reshape(*b.lengths.shape, -1), d.reshape(b.directions.shape)


def run_srn(case, rec):
    hyper = case["hyper"]
    for n, of, camera, pooled in itertools.product((0, 1, 2), (6, 8), (False, True), (0, 1)):
        for code in (True,) if hyper else (False, True):
            for shape in SHAPES:
                for B in (1, 2):
                    m = srn(hyper, n, of, code, camera, pooled)
                    b = bundle64(shape, B, 2, 6)
                    cam = cams(1, B, dtype=f64)
                    opts = {"camera": camera, "ipe": False, "xyz": True, "pool": pooled, "code": torch.randn(B, 3, generator=gen(8)).double() if code else None}
                    what = "hyper %s, %d layers, %d features, camera %s, code %s, pooled %s, shape %s, batch %d" % (hyper, n, of, camera, code, pooled, shape, B)
                    tol = 1e-3 if camera else 1e-6
                    bb, cc = single(b, opts["code"], camera)
                    m = m.to(bb.origins.dtype)
                    got, none = m(ray_bundle=bb, camera=cams(1, B) if camera else None, global_code=cc, fun_viewpool=pool(1, 2) if pooled else None)
                    want, d = ref_srn_features(m.double(), hyper, n, of, b, opts, cam)
                    expect_close("raymarch features, " + what, got, want, atol=tol, rtol=tol)
                    expect(none is None, "second output")
                    dens, col = m.to(bb.origins.dtype)(ray_bundle=bb, camera=cams(1, B) if camera else None, raymarch_features=got.detach(), global_code=cc)
                    m = m.double()
                    wd, wc = ref_pixel(state(m), want, d, n)
                    expect_close("densities, " + what, dens, wd, atol=tol, rtol=tol)
                    expect_close("colours, " + what, col, wc, atol=tol, rtol=tol)
                    rec.state(what)
                    rec.step()
        rec.trace()


def run_bind(case, rec):
    """histories of binding codes to a function and calling it"""
    codes = {"a": torch.randn(1, 3, generator=gen(1)).double(), "b": torch.randn(1, 3, generator=gen(2)).double()}
    ops = ("bind a", "bind b", "unbind", "call", "call b")
    b = bundle64((2,), 1, 2, 6)
    m = srn(True, 1, 6, True, False)
    none = {"camera": False, "ipe": False, "xyz": True, "pool": 0}
    want = {k: ref_srn_features(m, True, 1, 6, b, dict(none, code=c), None)[0] for k, c in codes.items()}
    for hist in itertools.product(ops, repeat=case["depth"]):
        if hist[0] != case["first"]:
            continue
        m.on_bind_args()
        w = ImplicitFunctionWrapper(m)
        bound, cached = None, None
        for op in hist:
            if op.startswith("bind"):
                bound, cached = op[-1], None
                w.bind_args(global_code=codes[bound])
            elif op == "unbind":
                bound = None
                w.unbind_args()
            elif op == "call b":
                if bound is None:
                    continue        # codes given by hand need the cache to be cleared by hand
                got, _ = w(ray_bundle=b, global_code=codes["b"])
                expect_close("history %s: a bound code goes first" % (hist,), got, want[bound], atol=1e-8)
            elif bound is None:
                try:
                    w(ray_bundle=b)
                except ValueError:
                    pass
                else:
                    expect(False, "history %s: no code, no error" % (hist,))
            else:
                got, _ = w(ray_bundle=b)
                expect_close("history %s" % (hist,), got, want[bound], atol=1e-8)
            rec.step()
        rec.state(hist)
    rec.trace()


def run_idr(case, rec):
    n = case["n"]
    for skips in itertools.chain.from_iterable(itertools.combinations(range(1, n), r) for r in range(n)):
        for nh, wn, enc, pooled in itertools.product((0, 2), (False, True), (0, 2), (0, 2)):
            for B in (1, 3):
                torch.manual_seed(2)
                m = make(IdrFeatureField, feature_vector_size=2, dims=(40,) * (n - 1) if skips else (7,) * (n - 1), skip_in=skips, n_harmonic_functions_xyz=nh, weight_norm=wn,
                         encoding_dim=enc, pooled_feature_dim=pooled, geometric_init=False)
                m = m.double()
                pts = torch.randn(B, 3, generator=gen(3)).double()
                code = torch.randn(1, enc, generator=gen(4)).double() if enc else None
                got = m(rays_points_world=pts, global_code=code, fun_viewpool=(lambda p: pool(1, pooled)(p)[0, 0]) if pooled else None)
                s = state(m)
                e = [harmonic(pts, nh)]
                if pooled:
                    e.append(pool(1, pooled)(pts[None])[0, 0])
                if enc:
                    e.append(code.expand(B, -1))
                e = torch.cat(e, -1)
                x = e
                for i in range(n):
                    if i in skips:
                        x = torch.cat([x, e], -1) / math.sqrt(2)
                    k = "linear_layers.%d" % i
                    if wn:
                        v = s[k + ".weight_v"]
                        W = s[k + ".weight_g"] * v / v.norm(dim=1, keepdim=True)
                    else:
                        W = s[k + ".weight"]
                    x = x @ W.T + s[k + ".bias"]
                    if i < n - 1:
                        x = torch.nn.functional.softplus(x * 100) / 100
                what = "IDR of %d layers, skips %s, %d frequencies, weight norm %s, code %s, pooled %s, %d points" % (n, skips, nh, wn, enc, pooled, B)
                expect_close(what, got, x, atol=1e-7)
                if not pooled:
                    bb = bundle64((2,), 1, 1, 3)
                    a = m(ray_bundle=bb, global_code=code) if not enc else None
                    if a is not None:
                        p = (bb.origins + bb.lengths * bb.directions)
                        expect_close("of a bundle: " + what, a.reshape(-1, 3), m(rays_points_world=p.reshape(-1, 3)), atol=1e-9)
                expect(tuple(m(rays_points_world=pts[:0], global_code=code).shape) == (0, 3), "no points: " + what)
                rec.state(what)
                rec.step()
    rec.trace()


# ---------------------------------------------------------------- multi-pass rendering
KN = (1.0, 2.0, 3.0, 4.0)


class Profile(torch.nn.Module):
    """piecewise linear density over depth, one profile per ray (numbered by the first coordinate of its origin)"""

    def __init__(self, table, shift=0.0):
        super().__init__()
        self.table, self.shift, self.calls = table, shift, []

    def forward(self, ray_bundle, **kw):
        l = ray_bundle.lengths
        t = self.table[ray_bundle.origins[..., 0].round().long()]
        x = (l - KN[0]).clamp(0, len(KN) - 1 - 1e-6)
        i = x.floor().long()
        dens = torch.gather(t, -1, i) * (1 - (x - i)) + torch.gather(t, -1, i + 1) * (x - i)
        col = torch.stack([torch.sin(l + self.shift), l * 0.1, torch.cos(l * 2)], -1)
        self.calls.append((ray_bundle, dens, col))
        return dens[..., None], col, {"lens": l * 2}


def ref_ea(dens, col, l, last, bg, deltas=None):
    dens, col, l = dens.double().clamp(min=0), col.double(), l.double()
    d = torch.cat([l.diff(dim=-1), torch.full_like(l[..., :1], last)], -1) if deltas is None else deltas.double()
    a = dens * d
    T = torch.exp(-torch.cat([torch.zeros_like(a[..., :1]), a.cumsum(-1)[..., :-1]], -1))
    w = T * (1 - torch.exp(-a))
    m = 1 - torch.exp(-a.sum(-1, keepdim=True))
    return (w[..., None] * col).sum(-2) + (1 - m) * torch.tensor(bg, dtype=f64), (w * l).sum(-1, keepdim=True), m, w


def check_stages(out, fns, bins, last, bg, what, return_weights):
    """the outputs of every pass against sums over the points its function was shown"""
    o = out
    for k in reversed(range(len(fns))):
        expect(len(fns[k].calls) == 1, "%s: pass %d evaluated %d times" % (what, k, len(fns[k].calls)))
        b, dens, col = fns[k].calls[0]
        f, z, m, w = ref_ea(dens, col, b.lengths, last, bg, b.bins.diff(dim=-1) if bins else None)
        expect_close("%s: features of pass %d" % (what, k), o.features, f, atol=2e-5)
        expect_close("%s: depths of pass %d" % (what, k), o.depths, z, atol=1e-4)
        expect_close("%s: masks of pass %d" % (what, k), o.masks, m, atol=1e-5)
        if return_weights:
            expect_close("%s: weights of pass %d" % (what, k), o.weights, w, atol=1e-5)
        else:
            expect(o.weights is None, "%s: weights of pass %d" % (what, k))
        expect_close("%s: aux of pass %d" % (what, k), o.aux["lens"], b.lengths * 2, atol=1e-6)
        o = o.prev_stage
    expect(o is None, what + ": too many passes")


def blur(w):
    p = torch.cat([w[..., :1], w, w[..., -1:]], -1)
    m = torch.maximum(p[..., 1:], p[..., :-1])
    return (m[..., 1:] + m[..., :-1]) / 2


def run_multi(case, rec):
    vals, passes, bins = case["vals"], case["passes"], case["bins"]
    table = torch.tensor(list(itertools.product(vals, repeat=4)))
    R = len(table)
    for append, blurp, mode, strat, last in itertools.product((False, True), (False, True), (EV, TR), (False, True), (1e10, 0.5)):
        eps = 0.25 if last == 0.5 else 1e-5
        rend = make(MultiPassEmissionAbsorptionRenderer, n_pts_per_ray_fine_training=3, n_pts_per_ray_fine_evaluation=4, append_coarse_samples_to_fine=append,
                    blurpool_weights=blurp, return_weights=True, sample_pdf_eps=eps, stratified_sampling_coarse_training=strat, stratified_sampling_coarse_evaluation=strat,
                    raymarcher_EmissionAbsorptionRaymarcher_args={"background_opacity": last, "bg_color": (0.25, 0.5, 1.0)})
        what = "%d passes, bins %s, append %s, blur %s, %s, stratified %s, last %s" % (passes, bins, append, blurp, mode.name, strat, last)
        l = torch.tensor(KN).expand(1, R, 4).contiguous()
        o = torch.stack([torch.arange(R), torch.zeros(R), torch.zeros(R)], -1)[None].float()
        d = torch.tensor([0, 0, 1.0]).expand(1, R, 3)
        mk = lambda: ImplicitronRayBundle(o, d, None if bins else l, torch.zeros(1, R, 2), bins=l if bins else None)
        fns = [Profile(table, 0.3 * k) for k in range(passes)]
        b = mk()
        torch.manual_seed(7)
        out = rend(b, fns, mode)
        expect(torch.equal(b.bins if bins else b.lengths, l), what + ": the given bundle was changed")
        expect(fns[0].calls[0][0] is b or torch.equal(fns[0].calls[0][0].lengths, b.lengths), what + ": points of the first pass")
        check_stages(out, fns, bins, last, (0.25, 0.5, 1.0), what, True)
        stages = [out]
        while stages[0].prev_stage is not None:
            stages.insert(0, stages[0].prev_stage)
        torch.manual_seed(7)
        for k in range(1, passes):
            prev, cur = fns[k - 1].calls[0][0], fns[k].calls[0][0]
            z, zc = (prev.bins, cur.bins) if bins else (prev.lengths, cur.lengths)
            w = blur(stages[k - 1].weights) if blurp else stages[k - 1].weights
            n = (3 if mode == TR else 4) + bins
            edges, pw = (z, w) if bins else ((z[..., 1:] + z[..., :-1]) / 2, w[..., 1:-1])
            new = sample_pdf(edges.reshape(-1, edges.shape[-1]), pw.reshape(-1, pw.shape[-1]), n, det=not strat, eps=eps).reshape(1, R, n)
            want = torch.sort(torch.cat([z, new], -1) if append else new, -1).values
            expect_close("%s: points of pass %d" % (what, k), zc, want, atol=1e-5)
            expect(torch.equal(cur.origins, o) and torch.equal(cur.directions, d), "%s: rays of pass %d" % (what, k))
        # without weights, nothing else changes
        rend2 = make(MultiPassEmissionAbsorptionRenderer, n_pts_per_ray_fine_training=3, n_pts_per_ray_fine_evaluation=4, append_coarse_samples_to_fine=append,
                     blurpool_weights=blurp, stratified_sampling_coarse_training=strat, stratified_sampling_coarse_evaluation=strat, sample_pdf_eps=eps,
                     density_noise_std_train=0.0 if mode == TR else 3.0,
                     raymarcher_EmissionAbsorptionRaymarcher_args={"background_opacity": last, "bg_color": (0.25, 0.5, 1.0)})
        fn2 = [Profile(table, 0.3 * k) for k in range(passes)]
        torch.manual_seed(7)
        out2 = rend2(mk(), fn2, mode)
        check_stages(out2, fn2, bins, last, (0.25, 0.5, 1.0), what, False)
        expect_close(what + ": without weights", out2.features, out.features, atol=1e-6)
        # noise on the densities: of every pass, in training alone, and of the size that was asked for
        if mode == TR and not strat and not blurp:
            for std in (1e-7, 2.0) if last < 1 else (2.0,):
                rend3 = make(MultiPassEmissionAbsorptionRenderer, n_pts_per_ray_fine_training=3, append_coarse_samples_to_fine=append, return_weights=True,
                             stratified_sampling_coarse_training=False, density_noise_std_train=std, sample_pdf_eps=eps,
                             raymarcher_EmissionAbsorptionRaymarcher_args={"background_opacity": last, "bg_color": (0.25, 0.5, 1.0)})
                fn3 = [Profile(table, 0.3 * k) for k in range(passes)]
                st = rend3(mk(), fn3, mode)
                ref = out
                for k in reversed(range(passes)):
                    if std < 1e-3:
                        if k == 0:
                            expect_close("%s: weights of pass 0 under noise of 1e-7" % what, st.weights, ref.weights, atol=1e-5)
                    else:
                        b3, dens, col = fn3[k].calls[0]
                        plain = ref_ea(dens, col, b3.lengths, last, (0.25, 0.5, 1.0), b3.bins.diff(dim=-1) if bins else None)[3]
                        moved = ((st.weights - plain).abs().amax(-1) > 1e-4).float().mean()
                        expect(moved > 0.5, "%s: noise of 2 on the densities moves the weights of only %.3f of the rays in pass %d" % (what, moved, k))
                    st, ref = st.prev_stage, ref.prev_stage
        rec.state(what)
        rec.step(R)
    rec.trace()


# ---------------------------------------------------------------- signed distances
SCENES = {
    "ball": [((0.0, 0.0, 0.0), 0.5)],
    "side": [((0.4, -0.2, 0.1), 0.35)],
    "two": [((0.35, 0.0, 0.0), 0.3), ((-0.4, 0.1, 0.3), 0.25)],
    "behind": [((0.1, 0.0, -0.5), 0.2), ((0.0, 0.05, 0.4), 0.4)],
    "tiny": [((-0.5, 0.5, 0.0), 0.12)],
}
EYES = [(0.0, 0.0, -3.0), (2.0, 1.0, -1.0), (-0.5, 2.5, 1.5)]


class Balls(torch.nn.Module):
    def __init__(self, balls, scale):
        super().__init__()
        self.c = torch.tensor([b[0] for b in balls]) * scale
        self.r = torch.nn.Parameter(torch.tensor([b[1] for b in balls]) * scale)

    def forward(self, rays_points_world=None, ray_bundle=None, **kw):
        p = rays_points_world
        d = ((p[:, None] - self.c).norm(dim=-1) - self.r).min(dim=1, keepdim=True).values if len(p) else p[:, :1]
        return torch.cat([d, torch.sin(p[:, :2] * 2)], -1)

    def on_bind_args(self):
        pass


def eye_rays(eye, H, W, scale, B=1, spread=0.45):
    out = []
    for k in range(B):
        e = torch.tensor(EYES[(eye + k) % 3], dtype=f64) * scale
        z = -e / e.norm()
        x = torch.linalg.cross(torch.tensor([0.3, 1.0, 0.2], dtype=f64), z)
        x = x / x.norm()
        y = torch.linalg.cross(z, x)
        v, u = torch.meshgrid(torch.linspace(-spread, spread, H, dtype=f64) + 0.013, torch.linspace(-spread, spread, W, dtype=f64) + 0.007, indexing="ij")
        d = z + u[..., None] * x + v[..., None] * y
        out.append((e.expand(H, W, 3), d / d.norm(dim=-1, keepdim=True)))
    return torch.stack([o[0] for o in out]), torch.stack([o[1] for o in out])


def first_hit(o, d, balls, scale):
    """distance (inf for misses), the ball, and whether the ray is too close to a silhouette"""
    t, who, bad = torch.full(o.shape[:-1], math.inf, dtype=f64), torch.zeros(o.shape[:-1], dtype=torch.long), torch.zeros(o.shape[:-1], dtype=torch.bool)
    for i, (c, r) in enumerate(balls):
        c, r = torch.tensor(c, dtype=f64) * scale, r * scale
        oc = o - c
        h = -(oc * d).sum(-1)
        q = h ** 2 - (oc ** 2).sum(-1) + r ** 2
        near = (oc + h[..., None] * d).norm(dim=-1)
        bad |= (near - r).abs() < 0.02 * scale
        ti = h - q.clamp(min=0).sqrt()
        hit = (q > 0) & (ti > 0) & (ti < t)
        t[hit], who[hit] = ti[hit], i
    return t, who, bad


def ref_rgb(s, n, x):
    for i in range(n):
        k = "_rgb_network.linear_layers.%d" % i
        v = s[k + ".weight_v"]
        x = x @ (s[k + ".weight_g"] * v / v.norm(dim=1, keepdim=True)).T + s[k + ".bias"]
        if i < n - 1:
            x = x.clamp(min=0)
    return torch.tanh(x)


def sdf_renderer(scale, nh=0, training=False, alpha=50.0):
    torch.manual_seed(5)
    r = make(SignedDistanceFunctionRenderer, render_features_dimensions=2, object_bounding_sphere=scale, bg_color=(0.25, -0.5), soft_mask_alpha=alpha,
             ray_normal_coloring_network_args={"dims": (6,), "d_out": 2, "n_harmonic_functions_dir": nh})
    return randomize(r).train(training)


def check_sdf(out, r, nh, o, d, balls, scale, what, alpha, surface=None):
    t, who, bad = first_hit(o, d, balls, scale)
    hit = torch.isfinite(t)
    surf = hit if surface is None else hit & surface
    ok = ~bad
    p = o + t.nan_to_num(posinf=0)[..., None] * d
    c = torch.tensor([b[0] for b in balls], dtype=f64)[who] * scale
    nrm = (p - c) / (p - c).norm(dim=-1, keepdim=True)
    s = state(r)
    dirs = harmonic(d, nh)
    want = ref_rgb(s, 2, torch.cat([p, dirs, nrm, torch.sin(p * 2)[..., :2]], -1))
    bg = torch.tensor([0.25, -0.5], dtype=f64).expand_as(want)
    pick = lambda m, a, b: torch.where(m[..., None], a, b)
    keep = lambda x: x[ok]
    if surface is None:
        expect_close(what + ": depths of hits", out.depths[..., 0][ok & hit], t[ok & hit], atol=2e-3 * scale)
    else:
        expect_close(what + ": depths of hits", out.depths[..., 0][ok & surf], t[ok & surf], atol=2e-3 * scale)
    expect_close(what + ": points", keep(out.points), keep(pick(surf, p, o)), atol=3e-3 * scale)
    expect_close(what + ": normals", keep(out.normals), keep(pick(surf, nrm, torch.zeros_like(nrm))), atol=2e-2)
    expect_close(what + ": features", keep(out.features), keep(pick(surf, want, bg)), atol=3e-2)
    m = out.masks[..., 0]
    expect(bool((m[ok & surf] == 1).all()), what + ": mask of surface rays is not 1")
    return ok, hit, surf, m


def along(o, d, balls, scale):
    """smallest distance to the scene along each ray"""
    best = torch.full(o.shape[:-1], math.inf, dtype=f64)
    for c, r in balls:
        oc = o - torch.tensor(c, dtype=f64) * scale
        h = -(oc * d).sum(-1).clamp(max=0)
        best = torch.minimum(best, (oc + h[..., None] * d).norm(dim=-1) - r * scale)
    return best


def run_sdf(case, rec):
    balls, scale, nh = SCENES[case["scene"]], case["scale"], case["nh"]
    H, W = case["size"]
    fn = Balls(balls, scale)
    for eye in range(3):
        for B in (1, 2):
            o, d = eye_rays(eye, H, W, scale, B)
            r = sdf_renderer(scale, nh)
            mk = lambda sl: ImplicitronRayBundle(o.float()[sl], d.float()[sl], torch.zeros(*o[sl].shape[:-1], 1), torch.zeros(*o[sl].shape[:-1], 2))
            what = "%s, eye %d, %d images of %dx%d, scale %s" % (case["scene"], eye, B, H, W, scale)
            w = ImplicitFunctionWrapper(fn)
            out = r(mk(slice(None)), [w], EV, object_mask=torch.ones(B, 1, H, W))
            ok, hit, surf, m = check_sdf(out, r, nh, o, d, balls, scale, what, 50.0)
            miss = ok & ~hit
            # the soft mask of a miss is that of a point of the ray: at most that of its point nearest to the surface
            ub = torch.sigmoid(-50 * along(o, d, balls, scale))
            expect(bool((m[miss] <= ub[miss] + 1e-4).all()), lambda: "%s: soft masks %s of misses, at most %s" % (what, m[miss].tolist(), ub[miss].tolist()))
            expect(bool((out.features[miss] == torch.tensor([0.25, -0.5])).all()), what + ": background")
            # any object mask, same evaluation
            alt = r(mk(slice(None)), [w], EV, object_mask=torch.zeros(B, 1, H, W))
            expect_close(what + ": without an object mask", alt.features, out.features, atol=1e-5)
            # flat rays, and every chunking of them
            of, df = o.reshape(B, -1, 3).float(), d.reshape(B, -1, 3).float()
            n = H * W
            for size in range(1, n + 1):
                parts = [r(ImplicitronRayBundle(of[:, i:i + size], df[:, i:i + size], torch.zeros(B, min(size, n - i), 1), torch.zeros(B, min(size, n - i), 2)), [w], EV,
                           object_mask=torch.ones(B, 1, min(size, n - i))) for i in range(0, n, size)]
                for k in ("features", "depths", "masks", "normals", "points"):
                    a = getattr(out, k)
                    expect_close("%s: %s in chunks of %d" % (what, k, size), torch.cat([getattr(q, k) for q in parts], 1), a.reshape(B, n, a.shape[-1]), atol=2e-3)
                rec.step()
            rec.state(what)
    rec.trace()


INSIDE = [(0.0, 0.0, 0.0), (0.0, -0.55, 0.1), (-0.1, 0.6, -0.35), (0.75, 0.1, 0.2)]


def run_inside(case, rec):
    """cameras inside of the bounding sphere see only what is in front of them"""
    balls, scale = SCENES[case["scene"]], case["scale"]
    fn = Balls(balls, scale)
    r = sdf_renderer(scale, 0)
    d = torch.tensor([q for q in itertools.product((-1.0, -0.35, 0.4, 1.0), repeat=3)], dtype=f64).reshape(8, 8, 3)
    d = d / d.norm(dim=-1, keepdim=True)
    eyes = [e for e in INSIDE if all(math.dist(e, c) > rad + 0.05 for c, rad in balls)]
    for B in (1, 2):
        for k in range(len(eyes)):
            o = torch.stack([torch.tensor(eyes[(k + b) % len(eyes)], dtype=f64).expand(8, 8, 3) * scale for b in range(B)])
            dd = torch.stack([d if b == 0 else -d.flip(1) for b in range(B)])
            out = r(ImplicitronRayBundle(o.float(), dd.float(), torch.zeros(B, 8, 8, 1), torch.zeros(B, 8, 8, 2)), [ImplicitFunctionWrapper(fn)], EV,
                    object_mask=torch.ones(B, 1, 8, 8))
            what = "%s, eye inside %d, %d images, scale %s" % (case["scene"], k, B, scale)
            ok, hit, surf, m = check_sdf(out, r, 0, o, dd, balls, scale, what, 50.0)
            miss = ok & ~hit
            ub = torch.sigmoid(-50 * along(o, dd, balls, scale))
            expect(bool((m[miss] <= ub[miss] + 1e-4).all()), lambda: "%s: soft masks %s of misses, at most %s" % (what, m[miss].tolist(), ub[miss].tolist()))
            expect(bool((out.features[miss] == torch.tensor([0.25, -0.5])).all()), what + ": background")
            rec.step()
        rec.state((case["scene"], scale, B))
    rec.trace()


def run_sdftrain(case, rec):
    balls, scale = SCENES[case["scene"]], 1.0
    for eye in range(3):
        for B in (1, 2):
            o, d = eye_rays(eye, 2, 2, scale, B, 0.12 if case["near"] else 0.5)
            fn = Balls(balls, scale)
            r = sdf_renderer(scale, 0, True)
            t, who, bad = first_hit(o, d, balls, scale)
            for bits in itertools.product((0.0, 1.0), repeat=4):
                om = torch.tensor(bits).reshape(1, 1, 2, 2).repeat(B, 1, 1, 1)
                if B == 2:
                    om[1] = 1 - om[1]
                fn.zero_grad()
                torch.manual_seed(1)
                b = ImplicitronRayBundle(o.float(), d.float(), torch.zeros(B, 2, 2, 1), torch.zeros(B, 2, 2, 2))
                out = r(b, [ImplicitFunctionWrapper(fn)], TR, object_mask=om)
                what = "training, %s, eye %d, batch %d, object mask %s" % (case["scene"], eye, B, bits)
                ok, hit, surf, m = check_sdf(out, r, 0, o, d, balls, scale, what, 50.0, surface=om[:, 0] > 0.5)
                off = ok & ~surf
                ub = torch.sigmoid(-50 * along(o, d, balls, scale))
                expect(bool((m[off] <= ub[off].float() + 1e-4).all()), what + ": soft masks above the largest of the ray")
                near = off & ~hit & ((o + -(o * d).sum(-1, keepdim=True) * d).norm(dim=-1) > scale * 1.001)
                p = o - (o * d).sum(-1, keepdim=True) * d
                sd = torch.stack([(p - torch.tensor(c, dtype=f64)).norm(dim=-1) - rr for c, rr in balls]).min(0).values
                expect_close(what + ": soft masks of rays off the bounding sphere", m[near], torch.sigmoid(-50 * sd[near]), atol=1e-4)
                g = out.aux["grad_theta"]
                expect(tuple(g.shape) == (B * 4 // 2 + B * 4, 3), "%s: %s gradients for the eikonal term" % (what, tuple(g.shape)))
                expect_close(what + ": gradients of a distance have length 1", g.norm(dim=-1), torch.ones(len(g)), atol=1e-4)
                # points move with the surface
                sel = surf & ok
                if sel.any():
                    wts = torch.randn(*o.shape, generator=gen(4))
                    (out.points * wts)[sel].sum().backward()
                    c = torch.tensor([q[0] for q in balls], dtype=f64)[who]
                    p = o + t.nan_to_num(posinf=0)[..., None] * d
                    nrm = (p - c) / (p - c).norm(dim=-1, keepdim=True)
                    dt = 1 / (nrm * d).sum(-1)
                    want = torch.zeros(len(balls), dtype=f64)
                    for i in range(len(balls)):
                        s = sel & (who == i)
                        want[i] = ((wts.double() * d).sum(-1) * dt)[s].sum()
                    expect_close(what + ": gradient of the radii", fn.r.grad, want, atol=5e-2, rtol=2e-2)
                rec.state(what)
                rec.step()
    rec.trace()


# ---------------------------------------------------------------- LSTM
class Linear4(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.a, self.b, self.c = (randomize(torch.nn.Linear(i, k), i).double() for i, k in ((3, 5), (5, 1), (8, 3)))

    def forward(self, ray_bundle=None, raymarch_features=None, **kw):
        if raymarch_features is None:
            p = ray_bundle.origins[..., None, :] + ray_bundle.lengths[..., None] * ray_bundle.directions[..., None, :]
            return torch.tanh(self.a(p)), None
        return self.b(raymarch_features), self.c(torch.cat([raymarch_features, ray_bundle.directions[..., None, :].expand(*raymarch_features.shape[:-1], 3)], -1))

    def on_bind_args(self):
        pass


def run_lstm(case, rec):
    steps, bg = case["steps"], case["bg"]
    for shape in SHAPES:
        for B in (1, 2):
            for mode in (EV, TR):
                torch.manual_seed(6)
                r = make(LSTMRenderer, num_raymarch_steps=max(steps, 1), init_depth=2.0, init_depth_noise_std=0.0, hidden_size=4, n_feature_channels=5, bg_color=bg)
                r = randomize(r).double()
                r.num_raymarch_steps = steps
                fn = Linear4()
                o, d = (torch.randn(B, *shape, 3, generator=gen(i)).double().requires_grad_(True) for i in (1, 2))
                l = torch.rand(B, *shape, 1, generator=gen(3)).double()
                b = ImplicitronRayBundle(o, d, l.clone(), torch.zeros(B, *shape, 2))
                out = r(b, [ImplicitFunctionWrapper(fn)], mode)
                what = "LSTM of %d steps, background %s, shape %s, batch %d, %s" % (steps, bg, shape, B, mode.name)
                expect(torch.equal(b.lengths, l), what + ": the given bundle was changed")
                s = {k: v.double() for k, v in r.state_dict(keep_vars=True).items()}
                z = l
                h = c = torch.zeros(l.numel(), 4, dtype=f64)
                for k in range(steps):
                    f = torch.tanh(fn.a(o[..., None, :] + z[..., None] * d[..., None, :])).reshape(-1, 5)
                    i, fg, gg, oo = (f @ s["_lstm.weight_ih"].T + s["_lstm.bias_ih"] + h @ s["_lstm.weight_hh"].T + s["_lstm.bias_hh"]).chunk(4, -1)
                    c = torch.sigmoid(fg) * c + torch.sigmoid(i) * torch.tanh(gg)
                    h = torch.sigmoid(oo) * torch.tanh(c)
                    z = z + (h @ s["_out_layer.weight"].T + s["_out_layer.bias"]).reshape(z.shape)
                f = torch.tanh(fn.a(o + z * d))
                m = torch.sigmoid(fn.b(f))
                col = fn.c(torch.cat([f, d], -1))
                if bg is not None:
                    col = torch.tensor(bg, dtype=f64) * (1 - m) + col * m
                dep = z * d.norm(dim=-1, keepdim=True)
                expect_close(what + ": features", out.features, col, atol=1e-8)
                expect_close(what + ": masks", out.masks, m, atol=1e-8)
                expect_close(what + ": depths", out.depths, dep, atol=1e-8)
                w = torch.randn(col.shape, generator=gen(5)).double()
                ga = torch.autograd.grad((out.features * w).sum() + out.depths.sum(), (o, d), retain_graph=True)
                gb = torch.autograd.grad((col * w).sum() + dep.sum(), (o, d))
                for x, y in zip(ga, gb):
                    if float(y.abs().max()) < 5:
                        expect_close(what + ": gradient of the rays", x, y, atol=1e-6)
                rec.state(what)
                rec.step()
    # the noise of the first depth has the given spread
    torch.manual_seed(0)
    r = make(LSTMRenderer, num_raymarch_steps=1, init_depth_noise_std=0.5, hidden_size=4, n_feature_channels=5).double()
    with torch.no_grad():
        r._out_layer.weight.zero_(), r._out_layer.bias.zero_()
    d = torch.tensor([0, 0, 1.0], dtype=f64).expand(1, 4000, 3)
    out = r(ImplicitronRayBundle(torch.zeros(1, 4000, 3).double(), d, torch.full((1, 4000, 1), 3.0).double(), torch.zeros(1, 4000, 2)), [ImplicitFunctionWrapper(Linear4())])
    expect(abs(float(out.depths.mean()) - 3) < 0.05 and abs(float(out.depths.std()) - 0.5) < 0.05, "noise of the first depth")
    rec.trace()


# ---------------------------------------------------------------- models
class ToyField(ImplicitFunctionBase, torch.nn.Module):
    gain: float = 1.0
    shift: float = 0.0

    def __post_init__(self):
        self.scale = torch.nn.Parameter(torch.tensor(float(self.gain)))

    @staticmethod
    def allows_multiple_passes():
        return True

    def forward(self, *, ray_bundle, fun_viewpool=None, camera=None, global_code=None, **kw):
        p = ray_bundle.origins[..., None, :] + ray_bundle.lengths[..., None] * ray_bundle.directions[..., None, :]
        return toy(p, float(self.gain), self.shift, self.scale / self.gain, fun_viewpool, global_code)


def toy(p, gain, shift, k, fun_viewpool, code):
    dens = gain * torch.exp(-4 * ((p - torch.tensor([0.1, 0.2, 0.0]).to(p)) ** 2).sum(-1, keepdim=True)) * 3 * k
    col = 0.5 + 0.5 * torch.sin(p * 2 + shift)
    if code is not None:
        col = col + code.reshape(code.shape[0], *[1] * (p.ndim - 2), -1)[..., :3]
    if fun_viewpool is not None:
        v = fun_viewpool(p.reshape(p.shape[0], -1, 3))
        col = col + v[:, 0].reshape(*p.shape[:-1], -1)[..., :3]
    return dens, col, {}


class ToyFeatures(FeatureExtractorBase, torch.nn.Module):
    def get_feat_dims(self):
        return 3

    def forward(self, imgs, masks=None, **kw):
        return {"rgb": imgs * 2 - 0.5}


registry.register(ToyField)
registry.register(ToyFeatures)


def model_kw(W, H, passes, chunk, pts=3, **kw):
    return dict(render_image_width=W, render_image_height=H, chunk_size_grid=chunk, raysampler_class_type="NearFarRaySampler",
                raysampler_NearFarRaySampler_args=dict(n_pts_per_ray_evaluation=pts, n_pts_per_ray_training=pts, min_depth=1.5, max_depth=4.5,
                                                       stratified_point_sampling_training=False),
                renderer_MultiPassEmissionAbsorptionRenderer_args=dict(
                    n_pts_per_ray_fine_training=4, n_pts_per_ray_fine_evaluation=4, stratified_sampling_coarse_training=False,
                    raymarcher_EmissionAbsorptionRaymarcher_args=dict(background_opacity=0.5, bg_color=(0.125, 0.25, 0.5))),
                sampling_mode_training="full_grid", implicit_function_class_type="ToyField", tqdm_trigger_threshold=10 ** 6, **kw)


def batch(first, n, H, W, names=None):
    g = gen(first * 10 + n)
    return dict(camera=cams(first, n), image_rgb=torch.rand(n, 3, H, W, generator=g), fg_probability=torch.rand(n, 1, H, W, generator=g), mask_crop=None, depth_map=None,
                sequence_name=names or ["s%d" % i for i in range(n)], frame_timestamp=torch.arange(n).float())


def forward(m, b, mode):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return m(**{k: v for k, v in b.items()}, evaluation_mode=mode)


def ref_view(m, cam, fields, passes, n_fine, mode, code=None, viewpool=None):
    """float64 images of the passes for one camera; rays and coarse points by the library's sampler"""
    b = m.raysampler(cam, mode)
    o, d, l = b.origins.double(), b.directions.double(), b.lengths.double()
    out = []
    for k in range(passes):
        p = o[..., None, :] + l[..., None] * d[..., None, :]
        dens, col, _ = toy(p, fields[k][0], fields[k][1], 1.0, viewpool, code)
        f, z, msk, w = ref_ea(dens[..., 0], col, l, 0.5, (0.125, 0.25, 0.5))
        out.append((f.permute(0, 3, 1, 2), z.permute(0, 3, 1, 2), msk.permute(0, 3, 1, 2)))
        if k + 1 < passes:
            e = (l[..., 1:] + l[..., :-1]) / 2
            new = sample_pdf(e.reshape(-1, e.shape[-1]).float(), w[..., 1:-1].reshape(-1, w.shape[-1] - 2).float(), n_fine, det=True, eps=1e-5).double()
            l = torch.sort(torch.cat([l, new.reshape(*l.shape[:-1], n_fine)], -1), -1).values
    return out


def ref_views(m, b, targets, fields, passes, mode, codes=None, viewpools=None):
    vs = [ref_view(m, b["camera"][[i]], fields, passes, 4, mode, None if codes is None else codes[i:i + 1].double(), None if viewpools is None else viewpools[i])
          for i in range(targets)]
    return [[torch.cat([v[k][j] for v in vs]) for j in range(3)] for k in range(passes)]


def check_preds(preds, want, b, what, targets, bgm=True, atol=2e-4):
    last = want[-1]
    for k, w in zip(("images_render", "depths_render", "masks_render"), last):
        expect_close("%s: %s" % (what, k), preds[k], w, atol=atol)
    r = preds["implicitron_render"]
    expect(isinstance(r, ImplicitronRender) and r.image_render is preds["images_render"] and r.depth_render is preds["depths_render"]
           and r.mask_render is preds["masks_render"], what + ": the render object holds other images")
    fg = (b["fg_probability"][:targets] >= 0.5).double()
    gt = b["image_rgb"][:targets].double() * fg
    mse = ((last[0] - gt) ** 2).mean()
    expect_close(what + ": rgb error", preds["loss_rgb_mse"], mse, atol=1e-3)
    total = preds["loss_rgb_mse"].double()
    if len(want) > 1:
        expect_close(what + ": rgb error of the first pass", preds["loss_prev_stage_rgb_mse"], ((want[-2][0] - gt) ** 2).mean(), atol=1e-3)
        total = total + preds["loss_prev_stage_rgb_mse"]
    else:
        expect("loss_prev_stage_rgb_mse" not in preds, what + ": error of a pass that was not made")
    expect_close(what + ": objective", preds["objective"], total, atol=1e-6)


def run_generic(case, rec):
    H, W, passes = case["H"], case["W"], case["passes"]
    fields = [(1.0, 0.0)] * passes
    base = None
    for chunk in [0] + [3 * i for i in range(1, H * W + 2)]:
        m = make(GenericModel, num_passes=passes, n_train_target_views=case["targets"], **model_kw(W, H, passes, chunk))
        for n in (1, 2, 3):
            b = batch(n, n, H, W)
            for mode in (EV, TR):
                k = 1 if mode == EV else n if case["targets"] <= 0 else min(n, case["targets"])
                want = ref_views(m, b, k, fields, passes, mode)
                what = "chunks of %d, %d views, %s, %d targets" % (chunk, n, mode.name, k)
                keep = {q: b[q].clone() for q in ("image_rgb", "fg_probability")}
                preds = forward(m, b, mode)
                check_preds(preds, want, b, what, k)
                expect(all(torch.equal(v, b[q]) for q, v in keep.items()), what + ": the inputs were changed")
                rec.state(what)
                rec.step()
    rec.trace()


def run_overfit(case, rec):
    H, W = 2, 3
    kind = case["coarse"]
    kw = {"none": {}, "same": {"coarse_implicit_function_class_type": "ToyField", "coarse_implicit_function_ToyField_args": {"gain": 0.5, "shift": 0.7}},
          "shared": {"share_implicit_function_across_passes": True}}[kind]
    fields = {"none": [(2.0, 0.2)], "same": [(0.5, 0.7), (2.0, 0.2)], "shared": [(2.0, 0.2)] * 2}[kind]
    for chunk in [0] + [3 * i for i in range(1, H * W + 2)]:
        m = make(OverfitModel, implicit_function_ToyField_args={"gain": 2.0, "shift": 0.2}, **kw, **model_kw(W, H, 1, chunk))
        for n in (1, 2, 3):
            b = batch(n, n, H, W)
            for mode in (EV, TR):
                what = "overfit, coarse %s, chunks of %d, %d views, %s" % (kind, chunk, n, mode.name)
                if chunk and n > 1 and False:
                    continue
                preds = forward(m, b, mode)
                check_preds(preds, ref_views(m, b, n, fields, len(fields), mode), b, what, n)
                rec.state(what)
                rec.step()
    expect(len(list(m.parameters())) == {"none": 1, "same": 2, "shared": 1}[kind], "number of parameters")
    rec.trace()


def encoder_kw(n):
    return dict(global_encoder_class_type="SequenceAutodecoder",
                global_encoder_SequenceAutodecoder_args=dict(autodecoder_args=dict(n_instances=n, encoding_dim=3, init_scale=1.0)))


def run_history(case, rec):
    """forward calls with codes, of several batches: each gives what it gives alone"""
    H, W = 2, 2
    cls = {"generic": GenericModel, "overfit": OverfitModel}[case["model"]]
    kw = dict(n_train_target_views=-1, num_passes=2) if cls is GenericModel else dict(share_implicit_function_across_passes=True)
    ops = [(("a",), TR), (("b",), EV), (("b", "a"), TR), (("a", "c"), TR)]
    for hist in itertools.product(range(len(ops)), repeat=case["depth"]):
        if hist[0] != case["first"]:
            continue
        torch.manual_seed(11)
        m = make(cls, **kw, **encoder_kw(5), **model_kw(W, H, 1, 6))
        table, seen = None, {}
        for i in hist:
            names, mode = ops[i]
            b = batch(i, len(names), H, W, list(names))
            preds = forward(m, b, mode)
            k = 1 if (mode == EV and cls is GenericModel) else len(names)
            with torch.no_grad():
                code = m.global_encoder(sequence_name=list(names), frame_timestamp=None)
            for nm, c in zip(names, code):
                if nm in seen:
                    expect(torch.equal(seen[nm], c), "history %s: the code of %s changed" % (hist, nm))
                seen[nm] = c.clone()
            expect(len({tuple(c.tolist()) for c in seen.values()}) == len(seen), "history %s: sequences share a code" % (hist,))
            want = ref_views(m, b, k, [(1.0, 0.0)] * 2, 2, mode, codes=code)
            check_preds(preds, want, b, "%s, history %s, names %s" % (case["model"], hist, names), k, atol=5e-4)
            if cls is GenericModel:
                expect(all(not f.bound_args for f in m._implicit_functions), "arguments stay bound")
            rec.step()
        rec.state(hist)
    rec.trace()


def run_pool(case, rec):
    H, W = 3, 2
    for n, targets, passes in itertools.product((1, 2, 3), (-1, 1, 2), (1, 2)):
        for names in (["s"] * n, ["s", "t", "s"][:n]):
            m = make(GenericModel, n_train_target_views=targets, num_passes=passes, view_pooler_enabled=True, image_feature_extractor_class_type="ToyFeatures",
                     mask_images=False,
                     view_pooler_args=dict(feature_aggregator_class_type=case["agg"], view_sampler_args=dict(masked_sampling=False)),
                     **model_kw(W, H, 1, 9))
            b = batch(n, n, H, W, names)
            for mode in (EV, TR):
                k = 1 if mode == EV else n if targets <= 0 else min(n, targets)
                what = "pooled views, %s, %d views %s, %s, %d passes" % (case["agg"], n, names, mode.name, passes)
                preds = forward(m, b, mode)

                def pooler(i):
                    def f(pts):     # the pooler leaves out the target itself, so that the targets have to be at their places
                        with torch.no_grad():
                            return m.view_pooler(pts=pts.float().expand(k, -1, -1), seq_id_pts=names[:k], camera=b["camera"], seq_id_camera=names,
                                                 feats={"rgb": b["image_rgb"] * 2 - 0.5}, masks=None)[i:i + 1].double()
                    return f
                want = ref_views(m, b, k, [(1.0, 0.0)] * passes, passes, mode, viewpools=[pooler(i) for i in range(k)])
                for q, w in zip(("images_render", "depths_render", "masks_render"), want[-1]):
                    expect_close("%s: %s" % (what, q), preds[q], w, atol=1e-3)
                rec.state(what)
                rec.step()
    rec.trace()


FIELDS = {
    "NeuralRadianceFieldImplicitFunction": dict(n_harmonic_functions_xyz=2, n_harmonic_functions_dir=1, n_hidden_neurons_xyz=8, n_hidden_neurons_dir=4, n_layers_xyz=2, append_xyz=(1,)),
    "NeRFormerImplicitFunction": dict(n_harmonic_functions_xyz=2, n_harmonic_functions_dir=1, n_hidden_neurons_xyz=16, n_hidden_neurons_dir=4, n_layers_xyz=2),
    "VoxelGridImplicitFunction": dict(
        voxel_grid_density_args=dict(voxel_grid_class_type="FullResolutionVoxelGrid", extents=(2.0, 2.0, 2.0), voxel_grid_FullResolutionVoxelGrid_args=dict(
            n_features=1, resolution_changes={0: (3, 3, 3)})),
        voxel_grid_color_args=dict(voxel_grid_class_type="FullResolutionVoxelGrid", extents=(2.0, 2.0, 2.0), voxel_grid_FullResolutionVoxelGrid_args=dict(
            n_features=1, resolution_changes={0: (3, 3, 3)})),
        harmonic_embedder_xyz_density_args=dict(n_harmonic_functions=0, append_input=True), harmonic_embedder_xyz_color_args=dict(n_harmonic_functions=0, append_input=True),
        harmonic_embedder_dir_color_args=dict(n_harmonic_functions=1, append_input=True), decoder_density_MLPDecoder_args=dict(network_args=dict(n_layers=1, output_dim=1)),
        decoder_color_MLPDecoder_args=dict(network_args=dict(n_layers=2, output_dim=3, hidden_dim=8))),
    "SRNImplicitFunction": dict(raymarch_function_args=dict(n_hidden_units=6, out_features=6), pixel_generator_args=dict(n_hidden_units=6, in_features=6)),
    "IdrFeatureField": dict(dims=(12, 12), bias=0.4, n_harmonic_functions_xyz=1),
}
RENDER = {
    "SRNImplicitFunction": dict(renderer_class_type="LSTMRenderer", renderer_LSTMRenderer_args=dict(num_raymarch_steps=2, init_depth=2.0, init_depth_noise_std=0.0, hidden_size=4,
                                                                                                   n_feature_channels=6, bg_color=[0.1, 0.2, 0.3])),
    "IdrFeatureField": dict(renderer_class_type="SignedDistanceFunctionRenderer", renderer_SignedDistanceFunctionRenderer_args=dict(
        bg_color=(0.1, 0.2, 0.3), ray_normal_coloring_network_args=dict(dims=(6,), d_out=3))),
}


def field_args(name):
    if name != "VoxelGridImplicitFunction":
        return FIELDS[name]
    return OmegaConf.merge(get_default_args(VoxelGridImplicitFunction), DictConfig(FIELDS[name]))


def run_kinds(case, rec):
    """every pair of fields makes a model; its images do not depend on the chunking or the other views of the batch"""
    name, coarse, code = case["fine"], case["coarse"], case["code"]
    H, W = 3, 2
    srn_, idr = name == "SRNImplicitFunction", name == "IdrFeatureField"
    ref = None
    pts = 1 if srn_ or idr else 3
    for model in ("generic", "overfit"):
        if model == "generic" and coarse not in (None, name):
            continue
        if name == "VoxelGridImplicitFunction" and model == "generic" and coarse:
            continue
        for chunk in [0] + [pts * i for i in range(1, H * W + 1)]:
            kw = model_kw(W, H, 1, chunk, pts)
            kw["implicit_function_class_type"] = name
            kw["implicit_function_%s_args" % name] = field_args(name)
            kw.update(RENDER.get(name, {}))
            if idr:
                kw["raysampler_class_type"] = "AdaptiveRaySampler"
                kw["raysampler_AdaptiveRaySampler_args"] = dict(n_pts_per_ray_evaluation=1, n_pts_per_ray_training=1, scene_extent=1.0)
                kw.pop("raysampler_NearFarRaySampler_args")
            if code:
                kw.update(encoder_kw(4))
            if model == "generic":
                kw["num_passes"] = 2 if coarse else 1
            elif coarse:
                kw["coarse_implicit_function_class_type"] = coarse
                kw["coarse_implicit_function_%s_args" % coarse] = field_args(coarse)
            torch.manual_seed(13)
            m = make({"generic": GenericModel, "overfit": OverfitModel}[model], **kw)
            m.eval()
            what = "%s, %s with coarse %s, code %s, chunks of %d" % (model, name, coarse, code, chunk)
            b = batch(1, 2, H, W)
            one = {k: (v[[0]] if k == "camera" else v[:1] if v is not None else None) for k, v in b.items()}
            with torch.no_grad() if not idr else torch.enable_grad():
                p1 = forward(m, one, EV)
                p2 = forward(m, one, EV)
                p3 = forward(m, b, EV) if model == "generic" or not idr else p1
            for k in ("images_render", "depths_render", "masks_render"):
                expect(bool(torch.isfinite(p1[k]).all()), what + ": %s is not finite" % k)
                expect_close(what + ": again: " + k, p2[k], p1[k], atol=1e-5)
                expect_close(what + ": in a batch: " + k, p3[k][:1], p1[k], atol=2e-4)
            if chunk == 0:
                ref = p1
            else:
                for k in ("images_render", "depths_render", "masks_render"):
                    expect_close(what + ": unlike unchunked: " + k, p1[k], ref[k], atol=1e-3)
            if code:
                codes = torch.cat([p for k, p in m.global_encoder.named_parameters()])
                expect_close(what + ": norm of the codes", p1.get("loss_autodecoder_norm"), (codes.detach().double() ** 2).mean())
            else:
                expect("loss_autodecoder_norm" not in p1, what + ": norm of no codes")
            rec.state(what)
            rec.step()
    rec.trace()


RUN = {"mlp": run_mlp, "cone": run_cone, "nerf": run_nerf, "srn": run_srn, "bind": run_bind, "idr": run_idr, "multi": run_multi, "sdf": run_sdf, "inside": run_inside, "sdftrain": run_sdftrain,
       "lstm": run_lstm, "generic": run_generic, "overfit": run_overfit, "history": run_history, "pool": run_pool, "kinds": run_kinds}


def cases(tier):
    deep = tier == "thorough"
    out = [{"kind": "mlp", "n": n} for n in (1, 2, 3, 4) + ((5,) if deep else ())] + [{"kind": "cone"}]
    for former, code, p in itertools.product((False, True), (False, True), (0, 1, 2)):
        if former or p < 2:
            out.append({"kind": "nerf", "former": former, "code": code, "pool": p})
    out += [{"kind": "srn", "hyper": h} for h in (False, True)]
    out += [{"kind": "bind", "depth": 5 if deep else 4, "first": f} for f in ("bind a", "bind b", "unbind", "call", "call b")]
    out += [{"kind": "idr", "n": n} for n in (1, 2, 3)]
    for passes, bins in itertools.product((1, 2, 3), (False, True)):
        out.append({"kind": "multi", "passes": passes, "bins": bins, "vals": [0.0, 0.7, 5.0] if not deep else [0.0, 0.1, 0.7, 5.0, 100.0]})
    for scene in SCENES:
        for scale, nh in ((1.0, 0), (2.5, 1)):
            for size in ((3, 4), (1, 5)) + (((5, 6),) if deep else ()):
                out.append({"kind": "sdf", "scene": scene, "scale": scale, "nh": nh, "size": size})
        for near in (False, True):
            out.append({"kind": "sdftrain", "scene": scene, "near": near})
        out += [{"kind": "inside", "scene": scene, "scale": sc} for sc in (1.0, 2.0)]
    for steps in (0, 1, 2, 3):
        for bg in (None, [0.4, 0.1, -0.3]):
            out.append({"kind": "lstm", "steps": steps, "bg": bg})
    for passes, targets in itertools.product((1, 2), (-1, 1, 2)):
        for H, W in ((2, 3), (3, 2)) + (((4, 4),) if deep else ()):
            out.append({"kind": "generic", "H": H, "W": W, "passes": passes, "targets": targets})
    out += [{"kind": "overfit", "coarse": c} for c in ("none", "same", "shared")]
    for model in ("generic", "overfit"):
        for first in range(4):
            out.append({"kind": "history", "model": model, "depth": 4 if deep else 3, "first": first})
    out += [{"kind": "pool", "agg": a} for a in ("ReductionFeatureAggregator", "AngleWeightedReductionFeatureAggregator")]
    for fine in FIELDS:
        for coarse in (None, "NeuralRadianceFieldImplicitFunction", "VoxelGridImplicitFunction"):
            if coarse and fine in RENDER:
                continue
            for code in (False, True):
                if code and "Voxel" in fine + str(coarse):
                    continue
                out.append({"kind": "kinds", "fine": fine, "coarse": coarse, "code": code})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
