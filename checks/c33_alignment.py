"""C33: corresponding_points_alignment, iterative_closest_point and efficient_pnp against closed-form optima, for every point set / transform / option of a lattice."""
import itertools
import math
import warnings

import torch
from mc.core import Violation, expect, expect_close, expect_raises

from pytorch3d.ops import corresponding_points_alignment, efficient_pnp, iterative_closest_point
from pytorch3d.ops.points_alignment import SimilarityTransform
from pytorch3d.ops.utils import wmean
from pytorch3d.structures import Pointclouds

PROPERTY = "C33"
ASSUMPTIONS = [
    "at least one point of each cloud has a positive weight, weights are not negative, and the points of a cloud are not all equal when the scale is estimated",
    "where several transforms are optimal any of them may be returned: the objective is compared, and the transform itself only where it is unique",
    "ICP steps where two points are nearest neighbours to within 1e-4 are checked for descent only; PnP points are not coplanar and lie in front of the camera",
]
BOUNDS = {
    "quick": "optimum: every map of 3 points of the plane to a 3 x 3 lattice, of 4 points of space to {0,1}^3, x weights (none and 4..6 vectors) x scale x reflection; recovery: 6 clouds x 35 orthogonal matrices "
             "x 8 translations x 4 scales x options x float32/float64; batches: every triple of sizes 3..6 as list, padded and Pointclouds, with and without weights; ICP (float32, what knn_points takes): 5 cloud pairs x 27 rotations "
             "x 8 translations x scale x reflection, every step checked; ragged batches of every pair of sizes; PnP: 6 clouds x 78 rotations x 4 translations x both solvers x weights; cameras: 1..3 of 3 classes x 12 rotations x 3 translations x 3 scales x both modes, every "
             "combination of 6 (12 for two) relative rotations",
    "thorough": "as quick with a 4 x 3 lattice and 4 points in the plane, {0,1,2}^3 maps of 3 points in space, 5 points to {0,1}^3, 12 more weight vectors, 125 ICP rotations x 27 translations, 4 times the PnP transforms",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64, f32 = torch.float64, torch.float32


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def T(x):
    return torch.tensor(x, dtype=f64)


def rot3(axis, ang):
    """Row-vector convention: points are multiplied from the left."""
    a = T(axis)
    a = a / a.norm()
    K = torch.tensor([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]], dtype=f64)
    return (torch.eye(3, dtype=f64) + math.sin(ang) * K + (1 - math.cos(ang)) * K @ K).T


def rot2(ang):
    return T([[math.cos(ang), math.sin(ang)], [-math.sin(ang), math.cos(ang)]])


# ---------------------------------------------------------------- reference optimum
def gain(C):
    """max over rotations of <R, C> for C (B, d, d): closed form in the plane, the quaternion form in space."""
    if C.shape[-1] == 2:
        return torch.hypot(C[:, 0, 0] + C[:, 1, 1], C[:, 0, 1] - C[:, 1, 0])
    x, y, z = 0, 1, 2
    S = lambda a, b: C[:, a, b]
    N = torch.stack([
        torch.stack([S(x, x) + S(y, y) + S(z, z), S(y, z) - S(z, y), S(z, x) - S(x, z), S(x, y) - S(y, x)], -1),
        torch.stack([S(y, z) - S(z, y), S(x, x) - S(y, y) - S(z, z), S(x, y) + S(y, x), S(z, x) + S(x, z)], -1),
        torch.stack([S(z, x) - S(x, z), S(x, y) + S(y, x), -S(x, x) + S(y, y) - S(z, z), S(y, z) + S(z, y)], -1),
        torch.stack([S(x, y) - S(y, x), S(z, x) + S(x, z), S(y, z) + S(z, y), -S(x, x) - S(y, y) + S(z, z)], -1),
    ], -2)
    return torch.linalg.eigvalsh(N)[:, -1]


def best(X, Y, w, scale, refl):
    """Least weighted squared error over the allowed transforms."""
    W = w / w.sum(1, keepdim=True)
    Xc = X - (W[..., None] * X).sum(1, keepdim=True)
    Yc = Y - (W[..., None] * Y).sum(1, keepdim=True)
    C = torch.einsum("bn,bni,bnj->bij", w, Xc, Yc)
    g = gain(C)
    if refl:
        F = torch.diag(T([-1.0] + [1.0] * (X.shape[2] - 1)))
        g = torch.maximum(g, gain(F @ C))
    xx, yy = (w[..., None] * Xc ** 2).sum((1, 2)), (w[..., None] * Yc ** 2).sum((1, 2))
    return yy - g * g / xx if scale else xx + yy - 2 * g


def objective(X, Y, w, sol):
    R, t, s = (a.double() for a in sol)
    return (w * ((s[:, None, None] * X @ R + t[:, None] - Y) ** 2).sum(-1)).sum(1)


def check_opt(what, X, Y, w, sol, scale, refl, tol=1e-9):
    """The solution is an allowed transform and no allowed transform is better."""
    b, n, d = X.shape
    expect(tuple(sol.R.shape) == (b, d, d) and tuple(sol.T.shape) == (b, d) and tuple(sol.s.shape) == (b,), "%s: shapes" % what)
    R = sol.R.double()
    otol = 1e-6 if sol.R.dtype == f64 else 1e-4
    expect_close(what + ": R is orthonormal", R @ R.transpose(1, 2), torch.eye(d, dtype=f64).expand(b, d, d), otol * 1e-1, 0)
    det = torch.det(R)
    expect_close(what + ": determinant", det.abs() if refl else det, torch.ones(b, dtype=f64), otol, 0)
    if not scale:
        expect(bool((sol.s == 1).all()), "%s: scale %s without estimation" % (what, sol.s))
    else:
        expect(bool((sol.s >= -otol).all()), "%s: negative scale %s" % (what, sol.s.min()))
    got, want = objective(X, Y, w, sol), best(X, Y, w, scale, refl)
    size = (w * ((X ** 2).sum(-1) + (Y ** 2).sum(-1))).sum(1)
    bad = got > want + tol * size + tol
    if bad.any():
        i = int(bad.nonzero()[0])
        raise Violation("%s: weighted squared error %.9g, the best transform has %.9g (X=%s Y=%s w=%s)" % (
            what, float(got[i]), float(want[i]), X[i].tolist(), Y[i].tolist(), w[i].tolist()))
    ident = (w * ((X - Y) ** 2).sum(-1)).sum(1)
    expect(bool((got <= ident + tol * size + tol).all()), "%s: worse than the identity" % what)


# ---------------------------------------------------------------- menus
SET2 = {
    "corner": [[0, 0], [1, 0], [0, 1]],
    "scalene": [[0, 0], [2, 0.5], [0.5, 1.5]],
    "line": [[0, 0], [1, 0], [3, 0]],
    "quad": [[0, 0], [2, 0], [1, 1], [0, 3]],
    "away": [[10, -4], [11, -4], [10.5, -2]],
}
SET3 = {
    "corner": [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "scalene": [[0, 0, 0], [2, 0.5, 0], [0.5, 1.5, 0.25], [0, 0.5, 1]],
    "flat": [[0, 0, 0], [1, 0, 0], [0, 2, 0], [1, 1, 0]],
    "away": [[9, -4, 3], [10, -4, 3], [9, -2.5, 3], [9, -4, 4.5]],
    "bent": [[0, 0, 0], [1, 0, 0], [1, 1, 0], [1, 1, 1]],
}
FIVE3 = [[0, 0, 0], [2, 0.5, 0], [0.5, 1.5, 0.25], [0, 0.5, 1], [1, -1, 0.5]]


def weights(n, tier):
    out = [None, [1.0] * n, [float(i + 1) for i in range(n)], [0.5 ** i for i in range(n)], [0.0] + [1.0] * (n - 1), [3.0] + [0.25] * (n - 1), [1.0] * (n - 1) + [1e-3]]
    if tier == "thorough":
        out += [list(w) for w in itertools.islice(itertools.product((0.0, 0.5, 2.0), repeat=n), 1, None) if sum(x > 0 for x in w) > 2][:40]
    return out


def orthos(d):
    """(matrix, reflection?)"""
    out = []
    if d == 2:
        for a in (0.0, 0.1, math.pi / 3, math.pi / 2, 2.0, math.pi - 1e-3, math.pi, -1.0, -math.pi / 2, -2.7):
            out.append((rot2(a), False))
            out.append((torch.diag(T([1.0, -1.0])) @ rot2(a), True))
        return out
    for ax, an in [((0, 0, 1), 0.0)] + [(a, t) for a in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 1), (0.2, 0.5, -0.7)) for t in (1e-3, 0.4, math.pi / 2, 3.0, math.pi)]:
        out.append((rot3(ax, an), False))
        if an in (0.0, 0.4, math.pi):
            out.append((-rot3(ax, an), True))
    return out


# ---------------------------------------------------------------- optimum over every map to a lattice
def run_opt(c, rec):
    d, name, scale, refl, tier = c["d"], c["set"], c["scale"], c["refl"], c["tier"]
    if name == "five":
        X0 = T(FIVE3)
    elif name == "three":
        X0 = T(SET3["scalene"])[:3]
    else:
        X0 = T((SET2 if d == 2 else SET3)[name])
    n = len(X0)
    lat = T(list(itertools.product((0, 1, 2), repeat=2))) if d == 2 else T(list(itertools.product((0, 1, 2) if n == 3 else (0, 1), repeat=3)))
    grids = torch.cartesian_prod(*[torch.arange(len(lat))] * n)
    if d == 2 and n == 4 and tier == "quick":
        grids = grids[(grids < 9).all(1) & (grids[:, 0] % 2 == 0)]
    part, parts = c.get("part", 0), c.get("parts", 1)
    grids = grids[part::parts]
    Y = lat[grids] * 1.5 - 0.5
    X = X0[None].expand(len(Y), n, d)
    for w in weights(n, tier):
        ww = torch.ones(len(Y), n, dtype=f64) if w is None else T(w)[None].expand(len(Y), n)
        sol = quiet(corresponding_points_alignment, X, Y, weights=None if w is None else ww, estimate_scale=scale, allow_reflection=refl)
        check_opt("alignment %s d=%d weights=%s scale=%s reflection=%s" % (name, d, w, scale, refl), X, Y, ww, sol, scale, refl)
        for i in range(len(Y)):
            rec.state((d, name, w, scale, refl, grids[i]))
        rec.step(len(Y))
    rec.trace()


# ---------------------------------------------------------------- exact recovery
def run_exact(c, rec):
    d, name = c["d"], c["set"]
    X0 = T((SET2 if d == 2 else SET3)[name]) if name != "five" else T(FIVE3)
    dtype = f64 if c["double"] else f32
    full = torch.linalg.matrix_rank(X0 - X0.mean(0)) == d
    Q = []
    for (R, neg), t, s in itertools.product(orthos(d), itertools.product((0.0, -2.5), repeat=d), (1.0, 0.5, 3.0, 0.02)):
        Q.append((R, neg, T(t), s))
    for scale, refl, w in itertools.product((False, True), (False, True), weights(len(X0), "quick")):
        if w is not None and min(w) == 0 and len(X0) < d + 2:
            continue
        sel = [q for q in Q if (scale or q[3] == 1.0) and (refl or not q[1])]
        if refl and not full:
            continue  # a mirror image of a flat cloud fits as well
        if not full and torch.linalg.matrix_rank(X0 - X0.mean(0)) < d - 1:
            continue
        R = torch.stack([q[0] for q in sel])
        t = torch.stack([q[2] for q in sel])
        s = T([q[3] for q in sel])
        X = X0[None].expand(len(sel), *X0.shape)
        Y = s[:, None, None] * X @ R + t[:, None]
        ww = None if w is None else T(w)[None].expand(len(sel), len(X0)).to(dtype)
        sol = quiet(corresponding_points_alignment, X.to(dtype), Y.to(dtype), weights=ww, estimate_scale=scale, allow_reflection=refl)
        what = "recovery %s d=%d weights=%s scale=%s reflection=%s %s" % (name, d, w, scale, refl, dtype)
        span = float(X0.abs().max())
        a = 1e-9 if c["double"] else 2e-3 * span
        if w is not None and min(w) < 1e-2 and not c["double"]:
            a *= 20
        expect_close(what + ": R", sol.R, R, a * 10, 0)
        expect_close(what + ": s", sol.s, s, a * 10, 0)
        expect_close(what + ": T", sol.T, t, a * 10 * max(span, 1), a)
        for i in range(len(sel)):
            rec.state((d, name, w, scale, refl, dtype, R[i], t[i], s[i]))
        rec.step(len(sel))
    # a reflection is never returned unless allowed, though it would be exact
    sel = [q for q in Q if q[1]]
    R = torch.stack([q[0] for q in sel])
    X = X0[None].expand(len(sel), *X0.shape)
    Y = X @ R + torch.stack([q[2] for q in sel])[:, None]
    for scale in (False, True):
        sol = quiet(corresponding_points_alignment, X.to(dtype), Y.to(dtype), estimate_scale=scale)
        check_opt("mirrored %s d=%d scale=%s" % (name, d, scale), X, Y, torch.ones(X.shape[:2], dtype=f64), sol, scale, False, 1e-9 if c["double"] else 1e-4)
    rec.trace()


# ---------------------------------------------------------------- batch layouts
def cloud(n, k):
    """n points in general position."""
    i = torch.arange(n, dtype=f64)
    return torch.stack([torch.sin(1.3 * i + k), torch.cos(2.1 * i * (1 + 0.1 * k)), torch.sin(0.7 * i * i + 0.3 * k)], -1)


def run_batch(c, rec):
    sizes = c["sizes"]
    Xs = [cloud(n, k) for k, n in enumerate(sizes)]
    Ys = [1.5 * x @ rot3((1, 2, -1), 0.5 + k) + 0.3 * cloud(len(x), k + 7) + 2 for k, x in enumerate(Xs)]
    Ws = [torch.arange(1, n + 1, dtype=f64) / (k + 1) for k, n in enumerate(sizes)]
    equal = len(set(sizes)) == 1
    for scale, refl, weighted, dtype in itertools.product((False, True), (False, True), (None, "list", "padded"), (f64, f32)):
        cast = lambda L: [a.to(dtype) for a in L]
        if weighted == "list":
            w = cast(Ws)
        elif weighted:
            w = torch.full((len(sizes), max(sizes)), 5.0, dtype=dtype)  # the padding must not count
            for k, v in enumerate(Ws):
                w[k, : len(v)] = v
        else:
            w = None
        inputs = [("clouds", Pointclouds(cast(Xs)), Pointclouds(cast(Ys)))]
        if equal:
            inputs.append(("tensors", torch.stack(Xs).to(dtype), torch.stack(Ys).to(dtype)))
            inputs.append(("mixed", torch.stack(Xs).to(dtype), Pointclouds(cast(Ys))))
        for kind, X, Y in inputs:
            sol = quiet(corresponding_points_alignment, X, Y, weights=w, estimate_scale=scale, allow_reflection=refl)
            for k, n in enumerate(sizes):
                one = SimilarityTransform(sol.R[k:k + 1], sol.T[k:k + 1], sol.s[k:k + 1])
                ww = Ws[k][None] if weighted else torch.ones(1, n, dtype=f64)
                what = "%s sizes %s element %d weights=%s scale=%s reflection=%s %s" % (kind, sizes, k, weighted, scale, refl, dtype)
                check_opt(what, Xs[k][None], Ys[k][None], ww, one, scale, refl, 1e-9 if dtype == f64 else 1e-4)
                if dtype == f64:
                    alone = quiet(corresponding_points_alignment, Xs[k][None], Ys[k][None], weights=ww if weighted else None, estimate_scale=scale, allow_reflection=refl)
                    got, want = objective(Xs[k][None], Ys[k][None], ww, one), objective(Xs[k][None], Ys[k][None], ww, alone)
                    expect_close(what + ": objective alone and in a batch", got, want, 1e-9, 1e-9)
                    if n >= 4:
                        for a, b in zip(one, alone):
                            expect_close(what + ": alone and in a batch", a, b, 1e-7, 1e-7)
                rec.state((kind, sizes, k, weighted, scale, refl, dtype))
                rec.step()
    if c["first"]:
        a = torch.rand(2, 5, 3)
        expect_raises(lambda: quiet(corresponding_points_alignment, a, a[:1]), "batch sizes differ", (ValueError,))
        expect_raises(lambda: quiet(corresponding_points_alignment, a, a[:, :4]), "numbers of points differ", (ValueError,))
        expect_raises(lambda: quiet(corresponding_points_alignment, a, a[:, :, :2]), "dimensions differ", (ValueError,))
        expect_raises(lambda: quiet(corresponding_points_alignment, a, a, torch.ones(2, 4)), "wrong weights", (ValueError,))
        P = Pointclouds([a[0], a[1, :3]])
        expect_raises(lambda: quiet(corresponding_points_alignment, P, Pointclouds([a[0, :3], a[1]])), "sizes differ", (ValueError,))
        expect_raises(lambda: quiet(corresponding_points_alignment, P, P, [torch.ones(5), torch.ones(5)]), "wrong list of weights", (ValueError,))
        expect_raises(lambda: iterative_closest_point(a, a[:1]), "ICP: batch sizes differ", (ValueError,))
        expect_raises(lambda: iterative_closest_point(a, a[:, :, :2]), "ICP: dimensions differ", (ValueError,))
        eye = torch.eye(3).expand(2, 3, 3)
        for bad in ((eye[:1], torch.zeros(2, 3), torch.ones(2)), (eye, torch.zeros(2, 2), torch.ones(2)), (eye, torch.zeros(2, 3), torch.ones(1)), (eye, torch.zeros(2, 3))):
            expect_raises(lambda: iterative_closest_point(a, a, init_transform=bad), "ICP: bad initial transform", (ValueError,))
    rec.trace()


# ---------------------------------------------------------------- ICP as a transition system
def icp_check(what, Xs, Ys, sol, init, thr, maxit, scale, refl, rec, dtype=f32):
    """Every recorded transform is the optimum for the nearest neighbours under the one before; the stopping rule is the documented one."""
    K = len(Xs)
    tol = 2e-5
    cur = [(torch.eye(Xs[0].shape[1], dtype=f64), torch.zeros(Xs[0].shape[1], dtype=f64), T(1.0)) if init is None else tuple(a[k].double() for a in init) for k in range(K)]
    prev = None
    expect(1 <= len(sol.t_history) <= maxit, "%s: %d steps of at most %d" % (what, len(sol.t_history), maxit))
    for step, h in enumerate(sol.t_history):
        rm, rel, tie = [], [], False
        for k in range(K):
            R, t, s = cur[k]
            D = torch.cdist(s * Xs[k] @ R + t, Ys[k], compute_mode="donot_use_mm_for_euclid_dist")
            idx = D.argmin(1)
            d2 = D.sort(1).values
            gap = float((d2[:, 1] - d2[:, 0]).min()) if d2.shape[1] > 1 else 1.0
            one = SimilarityTransform(h.R[k:k + 1], h.T[k:k + 1], h.s[k:k + 1])
            w = torch.ones(1, len(Xs[k]), dtype=f64)
            R2, t2, s2 = (a[k].double() for a in h)
            after = s2 * Xs[k] @ R2 + t2
            if gap < 1e-4:
                tie = True
                rec.count("ties")
                rm.append(float("nan"))
            else:
                check_opt("%s step %d element %d" % (what, step, k), Xs[k][None], Ys[k][idx][None], w, one, scale, refl, tol)
                rm.append(float(((after - Ys[k][idx]) ** 2).sum(1).mean().sqrt()))
            before = float((D.min(1).values ** 2).mean())
            got = float((torch.cdist(after, Ys[k]).min(1).values ** 2).mean())
            # with an initial transform whose scale is not estimated afterwards the first step may lose
            if step or init is None or scale or not c_scaled(init):
                expect(got <= before + tol * (1 + before), "%s step %d element %d: mean squared distance rises from %r to %r" % (what, step, k, before, got))
            cur[k] = (R2, t2, s2)
        last = step == len(sol.t_history) - 1
        if not tie:
            if prev is not None and all(p == p for p in prev):
                rel = [(p - r) / max(p, 1e-300) for p, r in zip(prev, rm)]
                noise = [p < (1e-3) for p in prev]
                clear = not any(abs(r - thr) < (1e-3) or z for r, z in zip(rel, noise))
                stop = all(r <= thr for r in rel)
                if clear:
                    expect(stop == (last and sol.converged), "%s: step %d relative change %s, threshold %s, but %s" % (what, step, rel, thr, "stopped" if last else "went on"))
            elif prev is None:
                if thr < 1:
                    expect(not (last and sol.converged), "%s: converged on the first step" % what)
            if last:
                expect_close(what + ": rmse", sol.rmse, T(rm), 1e-3, 1e-6)
        prev = rm
        rec.step()
    expect(sol.converged or len(sol.t_history) == maxit, "%s: gave up after %d of %d steps" % (what, len(sol.t_history), maxit))
    for a, b in zip(sol.RTs, sol.t_history[-1]):
        expect_close(what + ": the last transform of the history", a, b, 0, 0)
    out = sol.Xt
    if isinstance(out, Pointclouds):
        L = out.points_list()
        expect([len(p) for p in L] == [len(x) for x in Xs], "%s: sizes of the transformed clouds" % what)
    else:
        L = list(out)
    for k in range(K):
        expect_close(what + ": Xt is X transformed", L[k], cur[k][2] * Xs[k] @ cur[k][0] + cur[k][1], 1e-4, 1e-5)


def c_scaled(init):
    return bool((init[2] != 1).any())


ICP_SETS = {
    "tetra": ([[0, 0, 0], [2, 0.1, 0], [0.2, 1.7, 0], [0, 0.3, 1.4]], None),
    "seven": ([[0, 0, 0], [2, 0.1, 0], [0.2, 1.7, 0], [0, 0.3, 1.4], [1.9, 1.6, 0.2], [1.8, 0.2, 1.5], [-1, -0.9, -1.2]], None),
    "more_targets": ([[0, 0, 0], [2, 0.1, 0], [0.2, 1.7, 0], [0, 0.3, 1.4]], [[0, 0, 0], [2, 0.1, 0], [0.2, 1.7, 0], [0, 0.3, 1.4], [3, 3, 3], [-2, -2.5, 1], [1.1, 0.9, 0.8]]),
    "fewer_targets": ([[0, 0, 0], [2, 0.1, 0], [0.2, 1.7, 0], [0, 0.3, 1.4], [0.9, 0.8, 0.7], [1.8, 0.2, 1.5]], [[0.1, 0, 0], [2, 0.1, 0.1], [0.2, 1.6, 0], [0, 0.3, 1.3]]),
    "plane2": ([[0, 0], [2, 0.1], [0.2, 1.7], [1.4, 1.2], [-1.1, 0.6]], None),
}


def icp_moves(d, tier):
    v = (-1.0, 0.0, 1.0) if tier == "quick" else (-1.0, -0.4, 0.0, 0.4, 1.0)
    tv = (0.0, 0.45) if tier == "quick" else (-0.6, 0.03, 0.45)
    if d == 2:
        R = [rot2(a) for a in (0.0, 0.1, -0.2, 0.6, 1.5, -2.4, math.pi)]
    else:
        R = [torch.eye(3, dtype=f64) if ax == (0, 0, 0) else rot3(ax, 0.3 * sum(abs(x) for x in ax)) for ax in itertools.product(v, repeat=3)]
    return [(r, T(t)) for r in R for t in itertools.product(tv, repeat=d)]


def run_icp(c, rec):
    name, scale, refl, tier = c["set"], c["scale"], c["refl"], c["tier"]
    X0, Y0 = ICP_SETS[name]
    X0 = T(X0)
    Y0 = X0 if Y0 is None else T(Y0)
    n = len(X0)
    moves = icp_moves(X0.shape[1], tier)[c["part"]::c["parts"]]
    for i, (R, t) in enumerate(moves):
        g = 1.1 if scale else 1.0
        Y = g * Y0 @ R + t
        what = "ICP %s R=%s t=%s scale=%s reflection=%s" % (name, R.tolist(), t.tolist(), scale, refl)
        thr, maxit = ((1e-6, 100), (0.05, 100), (1e-6, 3), (1e-6, 1))[i % 4] if name != "seven" else (1e-6, 100)
        sol = quiet(iterative_closest_point, X0[None].float(), Y[None].float(), max_iterations=maxit, relative_rmse_thr=thr, estimate_scale=scale, allow_reflection=refl)
        icp_check(what, [X0.float().double()], [Y.float().double()], sol, None, thr, maxit, scale, refl, rec)
        # started in the basin: the neighbours are the true ones
        if Y0 is X0 or name == "more_targets":
            D = torch.cdist(X0, Y)
            if bool((D.argmin(1) == torch.arange(n)).all()):
                rec.count("basin")
                expect(sol.converged or maxit <= 3, "%s: does not converge from the true neighbours" % what)
                expect(len(sol.t_history) <= 5 or thr == 0, "%s: %d steps from the true neighbours" % (what, len(sol.t_history)))
                expect_close(what + ": R", sol.RTs.R[0], R, 2e-4, 0)
                expect_close(what + ": T", sol.RTs.T[0], t, 2e-4, 0)
                expect_close(what + ": s", sol.RTs.s[0], T(g), 2e-4, 0)
        # a start near the truth, from anywhere
        if Y0 is X0:
            small = rot3((1, -1, 2), 0.05) if X0.shape[1] == 3 else rot2(0.05)
            for isc in ((1.0, 1.05) if scale else (1.0,)):
                init = SimilarityTransform((R @ small)[None].float(), (t + 0.02)[None].float(), T([g * isc]).float())
                sol = quiet(iterative_closest_point, X0[None].float(), Y[None].float(), init_transform=init, estimate_scale=scale, allow_reflection=refl)
                icp_check(what + " from near the truth", [X0.float().double()], [Y.float().double()], sol, init, 1e-6, 100, scale, refl, rec)
                expect(sol.converged, "%s: does not converge from near the truth" % what)
                expect_close(what + " from near the truth: R", sol.RTs.R[0], R, 2e-4, 0)
                expect_close(what + " from near the truth: T", sol.RTs.T[0], t, 2e-4, 0)
                expect_close(what + " from near the truth: s", sol.RTs.s[0], T(g), 2e-4, 0)
        rec.state((name, R, t, scale, refl))
    rec.trace()


def run_icp_batch(c, rec):
    """Batches of every pair of sizes for X and Y: each element follows the transitions of its own points only."""
    (n1, n2), (m1, m2) = c["n"], c["m"]
    for scale, refl, dtype, kind in itertools.product((False, True), (False, True), (f32,), ("clouds", "tensors", "mixed")):
        Xs = [cloud(n1, 0), cloud(n2, 1)]
        Ys = [cloud(m1, 0) @ rot3((1, 1, 0), 0.1) + 5.05, cloud(m2, 1) @ rot3((0, 1, -1), 0.15) + T([5.0, 5.05, 4.9])]
        Xs = [x + 5 for x in Xs]  # the zero padding is far from the points
        Xs, Ys = [x.to(dtype) for x in Xs], [y.to(dtype) for y in Ys]
        if kind == "clouds":
            X, Y = Pointclouds(Xs), Pointclouds(Ys)
        elif kind == "tensors":
            if n1 != n2 or m1 != m2:
                continue
            X, Y = torch.stack(Xs), torch.stack(Ys)
        else:
            if n1 != n2:
                continue
            X, Y = torch.stack(Xs), Pointclouds(Ys)
        what = "ICP batch X %s Y %s %s scale=%s reflection=%s %s" % ((n1, n2), (m1, m2), kind, scale, refl, dtype)
        sol = quiet(iterative_closest_point, X, Y, estimate_scale=scale, allow_reflection=refl, max_iterations=30)
        Xd, Yd = [x.double() for x in Xs], [y.double() for y in Ys]
        icp_check(what, Xd, Yd, sol, None, 1e-6, 30, scale, refl, rec, dtype)
        rec.state((n1, n2, m1, m2, kind, scale, refl, dtype))
    rec.trace()


# ---------------------------------------------------------------- perspective-n-point
CUBE = [list(p) for p in itertools.product((0.0, 1.0), repeat=3)]
EXTRA = [[0.3, 0.6, 0.2], [0.8, 0.1, 0.9], [-0.5, 0.4, 0.7], [0.2, -0.3, 1.5]]
PNP = {"cube": CUBE, "cube+": CUBE + EXTRA, "six": [(CUBE + EXTRA)[i] for i in (0, 1, 2, 8, 9, 10)], "six'": [(CUBE[:4] + EXTRA)[i] for i in (0, 1, 2, 4, 5, 6)],
       "seven": [(CUBE + EXTRA)[i] for i in (0, 3, 5, 8, 9, 10, 11)], "wide": [[5 * a - 2 for a in p] for p in CUBE + EXTRA]}


def run_pnp(c, rec):
    X0 = T(PNP[c["set"]])
    n = len(X0)
    angles = (0.0, 0.5, 1.5, 3.0) if c["tier"] == "quick" else (0.0, 0.01, 0.5, 1.0, 1.5, 2.0, 3.0, math.pi)
    far = 4.0 * float((X0 - X0.mean(0)).norm(dim=1).max())
    Rs = [rot3(ax, an) for ax in itertools.product((-1, 0, 1), repeat=3) if any(ax) for an in angles][c["part"]::2]
    Ts = [(0, 0, 1), (0.25, -0.1, 1.2), (0, 0, 2.5), (-0.1, 0.2, 1)] + ([(0, 0, 5), (0.3, 0.3, 1.5)] if c["tier"] == "thorough" else [])
    tr = [(R, T(t) * far) for R in Rs for t in Ts]
    R = torch.stack([a for a, _ in tr])
    t = torch.stack([b for _, b in tr])
    X = X0[None].expand(len(tr), n, 3)
    cam = X @ R + t[:, None]
    assert bool((cam[..., 2] > 0).all())
    y = cam[..., :2] / cam[..., 2:]
    for dtype, skip, w in itertools.product((f64, f32), (False, True), ("none", "even", "outlier")):
        if dtype == f32 and (skip or n < 8 or w == "outlier" or c["set"] == "wide"):
            continue
        Xi, yi = X, y
        ww = None
        if w == "even":
            ww = torch.full((len(tr), n), 0.5, dtype=dtype)
            ww[:, ::2] = 2.0
        if w == "outlier":
            # points of weight zero do not count, whatever their image
            Xi = torch.cat([X, torch.tensor([[7.0, -3.0, 2.0]], dtype=f64).expand(len(tr), 1, 3)], 1)
            yi = torch.cat([y, torch.tensor([[0.9, 0.4]], dtype=f64).expand(len(tr), 1, 2)], 1)
            ww = torch.cat([torch.ones(len(tr), n, dtype=dtype), torch.zeros(len(tr), 1, dtype=dtype)], 1)
        sol = quiet(efficient_pnp, Xi.to(dtype), yi.to(dtype), ww, skip_quadratic_eq=skip)
        a = 1e-6 if dtype == f64 else 2e-2
        what = "PnP %s skip_quadratic_eq=%s weights=%s %s" % (c["set"], skip, w, dtype)
        expect_close(what + ": R", sol.R, R, a, 0)
        expect_close(what + ": T", sol.T, t, a * far, 0)
        expect_close(what + ": x_cam", sol.x_cam[:, :n], cam, a * far, 0)
        expect_close(what + ": err_2d", sol.err_2d, torch.zeros(len(tr)), a, 0)
        expect_close(what + ": err_3d", sol.err_3d, torch.zeros(len(tr)), a * far, 0)
        expect_close(what + ": proper rotation", torch.det(sol.R.double()), torch.ones(len(tr), dtype=f64), 1e-4, 0)
        rec.step(len(tr))
        if dtype == f64:
            # alone and in a batch
            for i in range(0, len(tr), 37):
                s1 = quiet(efficient_pnp, Xi[i:i + 1], yi[i:i + 1], None if ww is None else ww[i:i + 1], skip_quadratic_eq=skip)
                expect_close(what + ": alone", s1.R[0], sol.R[i], 2e-6, 0)
        for i in range(len(tr)):
            rec.state((c["set"], dtype, skip, w, R[i], t[i]))
    rec.trace()


# ---------------------------------------------------------------- weighted means
def run_mean(c, rec):
    x = torch.arange(24, dtype=f64).reshape(2, 3, 4).sin()
    for w in itertools.product((0.0, 1.0, 0.25), repeat=3):
        for w2 in ((1.0, 1.0, 1.0), (0.5, 0.0, 2.0)):
            W = T([w, w2])
            for keep in (False, True):
                for dim in (-2, (-2,), (0, 1), (0, -2)):
                    got = wmean(x, W, dim=dim, keepdim=keep)
                    dims = {-2: (1,), (-2,): (1,), (0, 1): (0, 1), (0, -2): (0, 1)}[dim]
                    tot = W[..., None].sum(dims, keepdim=keep)
                    want = (x * W[..., None]).sum(dims, keepdim=keep) / tot.clamp(1e-9)
                    expect_close("wmean weights=%s dim=%s keepdim=%s" % (w, dim, keep), got, want, 1e-12, 0)
                    rec.step()
            rec.state((w, w2))
    expect_close("wmean without weights", wmean(x), x.mean(1, keepdim=True), 1e-12, 0)
    expect_raises(lambda: wmean(x, torch.ones(2, 2, dtype=f64)), "wmean takes weights of the wrong size", (ValueError,))
    rec.trace()


CAM_R = [([0, 0, 1], 0.0), ([0, 0, 1], math.pi / 2), ([1, 0, 0], math.pi), ([0, 1, 0], math.pi), ([0, 0, 1], math.pi), ([1, 1, 1], 2 * math.pi / 3), ([1, 2, -1], 0.7), ([-1, 0.5, 2], 2.9),
         ([1, 0, 0], math.pi / 2), ([0, 1, 0], -math.pi / 2), ([1, -1, 0], math.pi), ([0.2, 1, 0.1], 1e-3)]
CAM_T = [[0.0, 0.0, 3.0], [1.0, -0.5, 2.0], [-2.0, 1.0, 4.0], [0.5, 2.0, -1.0]]


def run_cams(case, rec):
    """corresponding_cameras_alignment: exact similarities are recovered, otherwise the least squares optimum over similarities is returned"""
    from pytorch3d.ops import corresponding_cameras_alignment
    from pytorch3d.renderer import FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras

    rots = [rot3(*r) for r in CAM_R]
    n, cls = case["n"], {"persp": PerspectiveCameras, "fov": FoVPerspectiveCameras, "ortho": OrthographicCameras}[case["cls"]]
    ks = torch.arange(n, dtype=f64)
    own = {"fov": 40.0 + ks} if cls is FoVPerspectiveCameras else {"focal_length": 1.5 + ks[:, None].expand(n, 2), "principal_point": 0.25 * ks[:, None].expand(n, 2)}
    make = lambda R, t: cls(R=R, T=t, **own)
    # centers in general position
    R = torch.stack([rots[(5 + 3 * i) % len(rots)] for i in range(n)])
    t = T(CAM_T[:n])
    src = make(R.clone(), t.clone())

    def same(a, b, what):
        for k, v in own.items():
            expect(torch.equal(getattr(a, k), v) and type(a) is cls, what + ": %s changed" % k)
        expect(torch.equal(src.R, R) and torch.equal(src.T, t), what + ": the source cameras changed")

    for (i, RA), TA, sA in itertools.product(enumerate(rots), [[0.0, 0.0, 0.0], [1.0, -2.0, 0.5], [-30.0, 4.0, 10.0]], (1.0, 0.25, 4.0)):
        tR = RA @ R
        tT = (T(TA)[None, None] @ R)[:, 0] + sA * t
        tgt = make(tR, tT)
        for mode, est in itertools.product(("extrinsics", "centers"), (True, False)):
            if (sA != 1 and (not est or n == 1)) or (mode == "centers" and n < 3):
                continue
            what = "%d %s cameras moved by rotation %d, %s, scale %g; %s, estimate_scale=%s" % (n, case["cls"], i, TA, sA, mode, est)
            if mode == "centers":  # camera centers are computed in float32
                out = corresponding_cameras_alignment(make(R.float(), t.float()), make(tR.float(), tT.float()), estimate_scale=est, mode=mode)
                expect_close(what + ": R", out.R, tR.float(), 1e-4, 0)
                expect_close(what + ": T", out.T, tT.float(), 1e-3, 1e-4)
                continue
            out = corresponding_cameras_alignment(src, tgt, estimate_scale=est, mode=mode)
            expect_close(what + ": R", out.R, tR, 1e-6, 0)
            expect_close(what + ": T", out.T, tT, 1e-5, 1e-6)
            same(out, src, what)
            rec.step()
        rec.state(("exact", n, i, TA, sA))
    # targets that no similarity reaches
    for combo in itertools.product(range(case["rots"]), repeat=n):
        tR = torch.stack([rots[c].T @ R[k] for k, c in enumerate(combo)])
        turn = sum(combo)
        tT = T([CAM_T[(k + turn) % 4] for k in range(n)]) + 0.1 * turn
        tgt = make(tR, tT)
        C = torch.einsum("nij,nkj->ik", tR, R)
        for est in (True, False):
            what = "%d %s cameras, relative rotations %s, estimate_scale=%s" % (n, case["cls"], combo, est)
            out = corresponding_cameras_alignment(src, tgt, estimate_scale=est)
            same(out, src, what)
            Q = out.R[0] @ R[0].T
            expect_close(what + ": one rotation", out.R, Q @ R, 1e-9, 0)
            expect_close(what + ": orthonormal", Q @ Q.T, torch.eye(3, dtype=f64), 1e-9, 0)
            expect(abs(float(torch.det(Q)) - 1) < 1e-9, lambda: "%s: determinant %g, a reflection" % (what, torch.det(Q)))
            got, want = float((Q * C).sum()), float(gain(C[None])[0])
            expect(abs(got - want) < 1e-6, lambda: "%s: correlation with the targets %.9g, the best rotation has %.9g" % (what, got, want))
            A, B = (R @ t[:, :, None])[..., 0], (R @ tT[:, :, None])[..., 0]
            Ac, Bc = A - A.mean(0), B - B.mean(0)
            s = float((Ac * Bc).sum() / (Ac * Ac).sum()) if est and n > 1 else 1.0
            tA = B.mean(0) - s * A.mean(0)
            expect_close(what + ": T", out.T, (tA[None, None] @ R)[:, 0] + s * t, 1e-6, 1e-6)
            rec.step()
        rec.state(("best", n, combo))
    expect_raises(lambda: corresponding_cameras_alignment(src, make(R, t), mode="other"), "unknown mode", (ValueError,))
    expect_raises(lambda: corresponding_cameras_alignment(src, PerspectiveCameras(R=torch.eye(3).expand(n + 1, 3, 3), T=torch.zeros(n + 1, 3))), "different numbers of cameras", (ValueError,))
    rec.trace()


RUN = {"cams": run_cams, "opt": run_opt, "exact": run_exact, "batch": run_batch, "icp": run_icp, "icp_batch": run_icp_batch, "pnp": run_pnp, "mean": run_mean}


def cases(tier):
    deep = tier == "thorough"
    out = [{"kind": "mean"}]
    first = True
    for sizes in itertools.product((3, 4, 5, 6), repeat=3) if deep else [s for s in itertools.product((3, 4, 6), repeat=3)]:
        out.append({"kind": "batch", "sizes": list(sizes), "first": first})
        first = False
    for d, S in ((2, SET2), (3, SET3)):
        for name in list(S) + (["five"] if d == 3 else []):
            for dbl in (True, False):
                out.append({"kind": "exact", "d": d, "set": name, "double": dbl})
    for sc, rf in itertools.product((False, True), repeat=2):
        for name in SET2:
            out.append({"kind": "opt", "d": 2, "set": name, "scale": sc, "refl": rf, "tier": tier})
        for name in SET3:
            out.append({"kind": "opt", "d": 3, "set": name, "scale": sc, "refl": rf, "tier": tier})
        if deep:
            for p in range(4):
                out.append({"kind": "opt", "d": 3, "set": "five", "scale": sc, "refl": rf, "tier": "quick", "part": p, "parts": 4})
                out.append({"kind": "opt", "d": 3, "set": "three", "scale": sc, "refl": rf, "tier": "quick", "part": p, "parts": 4})
        parts = 16 if deep else 2
        for name in ICP_SETS:
            for p in range(parts if name != "plane2" else 1):
                out.append({"kind": "icp", "set": name, "scale": sc, "refl": rf, "tier": tier, "part": p, "parts": parts if name != "plane2" else 1})
    for n in itertools.product((4, 5, 7), repeat=2):
        for m in itertools.product((4, 5, 7), repeat=2):
            out.append({"kind": "icp_batch", "n": list(n), "m": list(m)})
    for name in PNP:
        for p in (0, 1):
            out.append({"kind": "pnp", "set": name, "tier": tier, "part": p})
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for cls in ("persp", "fov", "ortho"):
            out.append({"kind": "cams", "n": n, "cls": cls, "rots": (12, 12, 8 if deep else 6, 5)[n - 1]})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
