"""C17: list / packed / padded conversions for every small sequence of counts, and message passing over every small edge list."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d import _C
from pytorch3d.ops import GraphConv, packed_to_padded, padded_to_packed
from pytorch3d.ops.graph_conv import gather_scatter, gather_scatter_python
from pytorch3d.structures import utils as su

PROPERTY = "C17"
ASSUMPTIONS = ["padded sizes at least as large as the largest count", "when unpadding by value, no data row consists of the pad value only"]
BOUNDS = {
    "quick": "all sequences of 1-4 counts from 0..3 (340), trailing shapes (), (1,), (3,), (2,3), (2,1,2), padded to the maximum and to one and two more, 3 pad values, 3 dtypes, "
             "contiguous and permuted memory, gradients; all edge lists of up to 3 edges over 1-3 vertices (incl. repeats and self-edges) x directed x feature sizes",
    "thorough": "as quick with sequences of 5 counts and counts up to 4 for up to 4 elements, and edge lists of 4 edges",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 6 if th else 5):
        mx = 4 if th and n < 5 else 3
        seqs = list(itertools.product(range(mx + 1), repeat=n))
        for lo in range(0, len(seqs), 32):
            out.append(["layout", n, mx, lo, min(len(seqs), lo + 32)])
    for V in (1, 2, 3):
        for E in range(0, 5 if th else 4):
            tot = (V * V) ** E
            for lo in range(0, tot, 250):
                out.append(["graph", V, E, lo, min(tot, lo + 250)])
    out.append(["multidim"])
    out.append(["errors"])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


TRAIL = [(), (1,), (3,), (2, 3), (2, 1, 2)]


def data(c, tr, dtype=torch.float32):
    n = sum(c)
    t = 1
    for k in tr:
        t *= k
    x = (torch.arange(n * t, dtype=f64) * 7 % 1000 + 1).reshape((n,) + tr)
    return x.to(dtype)


def firsts(c):
    return torch.tensor([sum(c[:i]) for i in range(len(c))], dtype=torch.int64)


def padded(c, x, M, tr, pad=0):
    out = torch.full((len(c), M) + tr, pad, dtype=x.dtype)
    o = 0
    for i, k in enumerate(c):
        out[i, :k] = x[o:o + k]
        o += k
    return out


def up(shape):
    n = 1
    for s in shape:
        n *= s
    return ((torch.arange(n) * 13) % 31 + 1).float().reshape(shape)


def run_layout(case, rec):
    _, n, mx, lo, hi = case
    for c in list(itertools.product(range(mx + 1), repeat=n))[lo:hi]:
        first = firsts(c)
        mask = [torch.arange(max(c) + 2) < k for k in c]
        for tr in TRAIL:
            x = data(c, tr)
            lst = list(x.split(list(c)))
            tag = "counts %s trailing %s: " % (list(c), tr)
            # ---- ops.packed_to_padded / padded_to_packed
            for M in (max(c), max(c) + 1, max(c) + 2):
                xi = x.clone().requires_grad_(True)
                src = xi if M != max(c) + 1 or x.dim() < 2 else xi.transpose(0, 1).contiguous().transpose(0, 1)
                p = packed_to_padded(src, first, M)
                want = padded(c, x, M, tr)
                expect_close(tag + "packed_to_padded to %d" % M, p, want, atol=0, rtol=0, dtype=True)
                if x.numel():
                    w = up(p.shape)
                    (g,) = torch.autograd.grad((p * w).sum(), xi)
                    expect_close(tag + "gradient of packed_to_padded to %d" % M, g, torch.cat([w[i, :k] for i, k in enumerate(c)]), atol=0)
                junk = want.clone()
                for i, k in enumerate(c):
                    junk[i, k:] = -777.0
                for dim in range(1, 2 + len(tr)):
                    ji = junk.movedim(1, dim).contiguous().requires_grad_(True)
                    q = padded_to_packed(ji, first, sum(c), max_size_dim=dim) if dim > 1 else padded_to_packed(ji, first, sum(c))
                    expect_close(tag + "padded_to_packed from %d in dimension %d" % (M, dim), q, x, atol=0, rtol=0, dtype=True)
                    if x.numel():
                        w = up(q.shape)
                        (g,) = torch.autograd.grad((q * w).sum(), ji)
                        expect_close(tag + "gradient of padded_to_packed from %d in dimension %d" % (M, dim), g, padded(c, w, M, tr).movedim(1, dim), atol=0)
                    if tr:
                        q = padded_to_packed(ji, first, sum(c), max_size_dim=dim - ji.dim())
                        expect_close(tag + "padded_to_packed, negative dimension", q, x, atol=0, rtol=0)
                    rec.step()
            # ---- structures.utils
            for dt in (torch.float32, torch.int64, f64):
                xs = [y.to(dt) for y in lst]
                pk, num, fi, idx = su.list_to_packed(xs)
                expect_close(tag + "list_to_packed", pk, x.to(dt), dtype=True)
                expect(num.tolist() == list(c) and num.dtype == torch.int64, tag + "list_to_packed counts")
                expect(fi.tolist() == first.tolist(), tag + "list_to_packed first indices %s" % fi.tolist())
                expect(idx.tolist() == [i for i, k in enumerate(c) for _ in range(k)], tag + "list_to_packed item to list %s" % idx.tolist())
                for how in (list(c), tuple(c)):
                    back = su.packed_to_list(pk, list(how))
                    expect(len(back) == n, tag + "packed_to_list length")
                    for a, b in zip(back, xs):
                        expect_close(tag + "packed_to_list", a, b, dtype=True)
                for pad in (0, -1, 5.0):
                    pad_ = int(pad) if dt == torch.int64 else pad
                    for extra in (None, 0, 2):
                        size = None if extra is None else (max(c) + extra,) + tr
                        P = su.list_to_padded(xs, size, pad_value=pad_)
                        expect_close(tag + "list_to_padded size %s pad %s" % (size, pad), P, padded(c, x.to(dt), max(c) + (extra or 0), tr, pad_), dtype=True)
                        back = su.padded_to_list(P, list(c))
                        for a, b in zip(back, xs):
                            expect_close(tag + "padded_to_list", a, b, dtype=True)
                        full = su.padded_to_list(P)
                        for i, a in enumerate(full):
                            expect_close(tag + "padded_to_list without sizes", a, P[i])
                        if len(tr) == 1:
                            expect_close(tag + "padded_to_packed by size", su.padded_to_packed(P, split_size=list(c)), x.to(dt), dtype=True)
                            if not bool((x == pad_).all(-1).any()):
                                expect_close(tag + "padded_to_packed by value", su.padded_to_packed(P, pad_value=pad_), x.to(dt), dtype=True)
                            expect_close(tag + "padded_to_packed all", su.padded_to_packed(P), P.reshape(-1, tr[0]))
                        rec.step()
                if len(set(c)) == 1:
                    expect_close(tag + "list_to_padded equisized", su.list_to_padded(xs, equisized=True), torch.stack(xs), dtype=True)
            if x.numel() and len(tr) <= 2:
                xi = x.clone().requires_grad_(True)
                ls = list(xi.split(list(c)))
                P = su.list_to_padded(ls, pad_value=3.0)
                w = up(P.shape)
                (g,) = torch.autograd.grad((P * w).sum(), xi, retain_graph=True)
                expect_close(tag + "gradient of list_to_padded", g, torch.cat([w[i, :k] for i, k in enumerate(c)]), atol=0)
                pk = su.list_to_packed(ls)[0]
                (g,) = torch.autograd.grad((pk * up(pk.shape)).sum(), xi)
                expect_close(tag + "gradient of list_to_packed", g, up(pk.shape), atol=0)
            # 1D placeholders of empty elements
            if tr and 0 in c and sum(c):
                xs = [y if len(y) else torch.zeros(0) for y in lst]
                expect_close(tag + "list_to_padded with flat empty elements", su.list_to_padded(xs), padded(c, x, max(c), tr))
        rec.trace()
        rec.state(list(c))


def run_multidim(case, rec):
    """elements differing in every dimension"""
    sizes = list(itertools.product(range(0, 3), range(1, 4)))
    for a, b, c in itertools.product(sizes, repeat=3):
        xs = [torch.arange(1, 1 + p * q).reshape(p, q).float() for p, q in (a, b, c)]
        live = [s for s in (a, b, c) if s[0]]
        if not live:
            continue
        H, W = max(s[0] for s in live), max(s[1] for s in live)
        for size in (None, (H, W), (H + 1, W + 2)):
            if size is not None and any(s[1] > size[1] for s in (a, b, c)):
                continue
            P = su.list_to_padded(xs, size, pad_value=-2.0)
            want = torch.full((3,) + (size or (H, W)), -2.0)
            for i, x in enumerate(xs):
                if len(x):
                    want[i, :x.shape[0], :x.shape[1]] = x
            expect_close("list_to_padded of sizes %s to %s" % ((a, b, c), size), P, want)
            back = su.padded_to_list(P, [tuple(x.shape) for x in xs])
            for x, y in zip(xs, back):
                if len(x):
                    expect_close("padded_to_list of sizes %s" % ((a, b, c),), y, x)
            rec.step()
        rec.state([a, b, c])
    rec.trace()


def run_graph(case, rec):
    _, V, E, lo, hi = case
    pairs = list(itertools.product(range(V), repeat=2))
    for k in range(lo, hi):
        es = [pairs[(k // len(pairs) ** j) % len(pairs)] for j in range(E)]
        edges = torch.tensor(es, dtype=torch.int64).reshape(E, 2)
        for D in (1, 3):
            x = data((V,), (D,))
            for directed in (False, True):
                A = torch.zeros(V, V)
                for a, b in es:
                    A[a, b] += 1
                    if not directed:
                        A[b, a] += 1
                tag = "edges %s on %d vertices, %d features, directed=%s: " % (es, V, D, directed)
                w = up((V, D))
                for name, fn in (("gather_scatter", gather_scatter), ("gather_scatter_python", gather_scatter_python)):
                    xi = x.clone().requires_grad_(True)
                    y = fn(xi, edges, directed)
                    expect_close(tag + name, y, A @ x, atol=0, rtol=0)
                    (g,) = torch.autograd.grad((y * w).sum(), xi)
                    expect_close(tag + name + " gradient", g, A.t() @ w, atol=0, rtol=0)
                if k % 7 == 0 or E < 3:
                    torch.manual_seed(0)
                    conv = GraphConv(D, 2, directed=directed)
                    with torch.no_grad():
                        for j, p in enumerate(conv.parameters()):
                            p.copy_((torch.arange(p.numel()).reshape(p.shape) * 3 + j) % 5 - 2.0)
                    xi = x.clone().requires_grad_(True)
                    y = conv(xi, edges)
                    want = x @ conv.w0.weight.t() + conv.w0.bias + A @ (x @ conv.w1.weight.t() + conv.w1.bias)
                    expect_close(tag + "GraphConv", y, want, atol=1e-4)
                    w2 = up((V, 2))
                    (g,) = torch.autograd.grad((y * w2).sum(), xi)
                    expect_close(tag + "GraphConv gradient", g, w2 @ conv.w0.weight + A.t() @ w2 @ conv.w1.weight, atol=1e-3)
                rec.step()
        rec.trace()
        rec.state([V, es])


def run_errors(case, rec):
    conv = GraphConv(3, 4, init="zero")
    expect(float(conv.w0.weight.abs().sum() + conv.w1.weight.abs().sum()) == 0, "GraphConv init zero")
    y = conv(torch.zeros(0, 3, requires_grad=True), torch.zeros(0, 2, dtype=torch.int64))
    expect(tuple(y.shape) == (0, 4) and y.requires_grad, "GraphConv without vertices")
    for fn in (lambda: GraphConv(3, 4, init="uniform"), lambda: gather_scatter(torch.zeros(2, 3), torch.zeros(1, 3, dtype=torch.int64)),
               lambda: gather_scatter_python(torch.zeros(2, 3, dtype=f64), torch.zeros(1, 2, dtype=torch.int64)),
               lambda: su.padded_to_list(torch.zeros(2, 3, 4), [1]), lambda: su.padded_to_packed(torch.zeros(2, 3, 4), split_size=[1]),
               lambda: su.padded_to_packed(torch.zeros(2, 3, 4), split_size=[1, 2], pad_value=0), lambda: su.padded_to_packed(torch.zeros(2, 3)),
               lambda: su.list_to_padded([torch.zeros(2, 3), torch.zeros(2, 3, 1)]), lambda: su.list_to_padded([torch.zeros(2, 3)], (2, 3, 4)),
               lambda: su.list_to_packed([]), lambda: packed_to_padded(torch.zeros(2, 3, dtype=f64), torch.zeros(1, dtype=torch.int64), 2)):
        try:
            fn()
        except ValueError:
            rec.step()
            continue
        raise Violation("a call with wrong sizes or types is not rejected")
    rec.trace()
    rec.state(case)
