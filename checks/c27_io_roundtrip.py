"""C27: saving and loading every small mesh and point cloud in every format, option and kind of file."""
import io
import itertools
import os
import pathlib
import shutil
import tempfile

import numpy as np
import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.io import IO, load_obj, load_objs_as_meshes, load_ply, save_obj, save_ply
from pytorch3d.io.experimental_gltf_io import MeshGlbFormat
from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes, Pointclouds

PROPERTY = "C27"
ASSUMPTIONS = ["vertex normals are attached to meshes of at least one face (a mesh without faces has none by design)", "glTF: at least one vertex and one face (empty accessors are not legal), UV textures with one uv per vertex",
               "texture maps hold 8-bit values", "OBJ texture maps need at least one face"]
BOUNDS = {
    "quick": "every vertex count 0..4 x up to 3 faces from 5 shapes (incl. repeated and unused vertices) x OBJ, OFF, PLY text, PLY binary, GLB x decimal places None/0/3/9 x "
             "normals x vertex colours (3 and 4 channels, 8 bit or float) x face colours x UV textures x path, Path and stream, with and without gradients; "
             "every 8-bit value and every pair of uv and face indices; point clouds of 0..4 points x normals x features; meshes of more than 65535 vertices",
    "thorough": "as quick with up to 4 faces",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1

VALS = [0.0, 1.0, -1.0, 0.5, 1e-7, -2.25e-4, 123456.789, 0.1, 1.0 / 3, -77.125, 3.14159265, 1e6]
FACES = [(0, 1, 2), (2, 1, 0), (0, 2, 3), (1, 1, 2), (3, 0, 1)]


def cases(tier):
    out = []
    mf = 4 if tier == "thorough" else 3
    for fmt in ("obj", "off", "ply", "plyb", "glb"):
        for V in range(0, 5):
            for F in range(0, mf + 1):
                out.append(["mesh", fmt, V, F])
    for V in range(0, 5):
        out.append(["cloud", V])
        out.append(["functions", V])
    for k in range(4):
        out.append(["map", k])
    out.append(["large"])
    out.append(["errors"])
    return out


def run(case, rec):
    d = tempfile.mkdtemp(prefix="c27-", dir="/tmp")
    try:
        globals()["run_" + case[0]](case, rec, d)
    finally:
        shutil.rmtree(d)
    rec.sample({"case": case})


def values(n, c, salt):
    return torch.tensor([[VALS[(salt + 5 * i + 7 * j + i * j) % len(VALS)] for j in range(c)] for i in range(n)], dtype=torch.float32).reshape(n, c)


def written(x, places, text):
    """the value a text file holds"""
    if not text:
        return x
    p = 6 if places is None else places
    return torch.tensor([float("%.*f" % (p, float(v))) for v in x.detach().reshape(-1)], dtype=torch.float64).reshape(x.shape).float()


def colours(n, c, salt):
    return torch.tensor([[((salt * 37 + i * 61 + j * 97) % 256) / 255.0 for j in range(c)] for i in range(n)], dtype=torch.float32).reshape(n, c)


def snapshot(m):
    out = [x.clone() for x in m.verts_list() + m.faces_list()] if isinstance(m, Meshes) else [x.clone() for x in m.points_list()]
    if isinstance(m, Meshes):
        t = m.textures
        if isinstance(t, TexturesVertex):
            out += [x.clone() for x in t.verts_features_list()]
        if isinstance(t, TexturesAtlas):
            out += [x.clone() for x in t.atlas_list()]
        if isinstance(t, TexturesUV):
            out += [x.clone() for x in t.maps_list() + t.verts_uvs_list() + t.faces_uvs_list()]
        if m.has_verts_normals():
            out += [x.clone() for x in m.verts_normals_list()]
    else:
        for l in (m.normals_list(), m.features_list()):
            out += [x.clone() for x in l or []]
    return out


def unchanged(tag, m, before):
    for a, b in zip(snapshot(m), before):
        expect(a.shape == b.shape and bool((a == b).all()), tag + ": saving changes the object")


def make_io():
    i = IO()
    i.register_meshes_format(MeshGlbFormat())
    return i


def face_sets(V, F):
    ok = [f for f in FACES if max(f) < V]
    if F == 0:
        yield []
    elif F == 1:
        for f in ok:
            yield [f]
    else:
        for k in range(len(ok)):
            yield [ok[(k * (j + 1) + j) % len(ok)] for j in range(F)]


TEX = {
    "obj": ["none", "uv"],
    "off": ["none", "v3", "v4", "f3", "f4"],
    "ply": ["none", "v3", "v3u8", "v4"],
    "plyb": ["none", "v3", "v3u8", "v4"],
    "glb": ["none", "v3", "v4", "uv"],
}


def texture(kind, V, F, faces, salt, glb):
    if kind[0] == "v":
        return TexturesVertex([colours(V, int(kind[1]), salt)])
    if kind[0] == "f":
        return TexturesAtlas([colours(F, int(kind[1]), salt)[:, None, None]])
    if kind == "uv":
        n = V if glb else 2 + salt % 3
        uv = values(n, 2, salt) % 1.0
        fuv = faces if glb else torch.tensor([[(i + j * salt) % n for j in range(3)] for i in range(F)], dtype=torch.int64).reshape(F, 3)
        return TexturesUV([colours(6, 3, salt).reshape(2, 3, 3)], [fuv], [uv])
    return None


def run_mesh(case, rec, d):
    _, fmt, V, F = case
    I = make_io()
    text = fmt not in ("plyb", "glb")
    suffix = "ply" if fmt == "plyb" else fmt
    salt = 0
    for faces in face_sets(V, F):
        f = torch.tensor(faces, dtype=torch.int64).reshape(len(faces), 3)
        for tex, normals, places, grad, pathkind in itertools.product(TEX[fmt], (False, True) if suffix == "ply" else (False,), (None, 0, 3, 9) if text else (None,), (False, True), ("str", "Path")):
            if tex == "uv" and F == 0 and fmt == "obj":
                continue
            if tex[0] == "f" and F == 0:
                continue
            if fmt == "glb" and (V == 0 or F == 0):
                continue
            if tex == "uv" and V == 0:
                continue
            salt += 1
            v = values(V, 3, salt)
            m = Meshes([v.clone().requires_grad_(grad)], [f.clone()], texture(tex, V, F, f, salt, fmt == "glb"), verts_normals=[values(V, 3, salt + 3)] if normals and V else None)
            has_normals = normals and V > 0 and F > 0
            tag = "%s of %d vertices, faces %s, texture %s%s, decimal_places %s, %s" % (fmt, V, faces, tex, " with normals" if has_normals else "", places, pathkind)
            before = snapshot(m)
            p = os.path.join(d, "M%d.%s" % (salt, suffix if salt % 5 else suffix.upper()))
            if pathkind == "Path":
                p = pathlib.Path(p)
            kw = {} if places is None else {"decimal_places": places}
            if tex == "v3u8":
                kw["colors_as_uint8"] = True
            I.save_mesh(m, p, binary={"ply": False, "plyb": [True, None][salt % 2]}.get(fmt), **kw)
            unchanged(tag, m, before)
            r = I.load_mesh(p)
            expect(len(r) == 1, tag + ": number of meshes")
            expect_close(tag + ": vertices", r.verts_list()[0], written(v, places, text), atol=0, rtol=1e-7)
            expect(r.faces_list()[0].shape == f.shape and bool((r.faces_list()[0] == f).all()), lambda: "%s: faces are %s" % (tag, r.faces_list()[0].tolist()))
            if has_normals:
                expect(r.has_verts_normals(), tag + ": the normals are lost")
                expect_close(tag + ": normals", r.verts_normals_list()[0], written(values(V, 3, salt + 3), places, text), atol=0, rtol=1e-7)
            t, want = r.textures, m.textures
            if tex == "none" or (tex == "v4" and suffix == "ply") or V == 0:
                if tex == "none":
                    expect(t is None, tag + ": textures appear")
            elif tex[0] == "v":
                expect(isinstance(t, TexturesVertex), tag + ": the colours are lost")
                c = want.verts_features_list()[0]
                if tex == "v3u8":
                    expect_close(tag + ": colours", t.verts_features_list()[0], c, atol=1e-6)
                else:
                    expect_close(tag + ": colours", t.verts_features_list()[0], written(c, places, text), atol=0, rtol=1e-6)
            elif tex[0] == "f":
                expect(isinstance(t, TexturesAtlas), tag + ": the face colours are lost")
                expect_close(tag + ": face colours", t.atlas_list()[0], want.atlas_list()[0], atol=1e-6)
            else:
                expect(isinstance(t, TexturesUV), tag + ": the texture is lost")
                expect_close(tag + ": map", t.maps_padded()[0], want.maps_padded()[0], atol=1e-6)
                expect_close(tag + ": verts_uvs", t.verts_uvs_list()[0], written(want.verts_uvs_list()[0], places, text), atol=1e-6)
                expect(t.faces_uvs_list()[0].tolist() == want.faces_uvs_list()[0].tolist(), tag + ": faces_uvs")
            r2 = I.load_mesh(p, include_textures=False)
            expect(r2.textures is None and bool((r2.verts_list()[0] == r.verts_list()[0]).all()), tag + ": loading without textures")
            if tex != "none" and salt % 2:
                q = os.path.join(d, "O%d.%s" % (salt, suffix))
                I.save_mesh(m, q, include_textures=False, binary={"ply": False, "plyb": True}.get(fmt), **kw)
                unchanged(tag, m, before)
                r2 = I.load_mesh(q)
                expect(r2.textures is None and bool((r2.verts_list()[0] == r.verts_list()[0]).all()) and r2.faces_list()[0].tolist() == f.tolist(), tag + ": saving without textures")
            # a second generation is identical
            q = os.path.join(d, "N%d.%s" % (salt, suffix))
            if V and (F or fmt != "glb"):
                I.save_mesh(r, q, binary={"ply": False}.get(fmt), **kw)
                s = I.load_mesh(q)
                expect(bool((s.verts_packed() == r.verts_packed()).all()) and s.faces_packed().tolist() == r.faces_packed().tolist(), tag + ": second generation")
                if isinstance(t, TexturesUV):
                    expect_close(tag + ": second generation of the map", s.textures.maps_padded(), t.maps_padded(), atol=1e-6)
            rec.step()
        rec.trace()
        rec.state([fmt, V, faces])


def run_cloud(case, rec, d):
    V = case[1]
    I = IO()
    salt = 0
    for normals, feats, fmt, places, pathkind in itertools.product((False, True), ("none", "c3", "u8"), ("text", "bin", "default"), (None, 0, 3, 9), ("str", "Path", "stream")):
        if fmt != "text" and places is not None:
            continue
        salt += 1
        p = values(V, 3, salt)
        nn = values(V, 3, salt + 4)
        ff = colours(V, 3, salt)
        pc = Pointclouds([p.clone()], normals=[nn.clone()] if normals else None, features=[ff.clone()] if feats != "none" else None)
        tag = "cloud of %d points normals=%s features=%s %s places=%s %s" % (V, normals, feats, fmt, places, pathkind)
        before = snapshot(pc)
        path = os.path.join(d, "c%d.ply" % salt)
        if pathkind == "Path":
            path = pathlib.Path(path)
        if pathkind == "stream":
            path = io.BytesIO()
        kw = {} if places is None else {"decimal_places": places}
        if feats == "u8":
            kw["colors_as_uint8"] = True
        I.save_pointcloud(pc, path, binary={"text": False, "bin": True}.get(fmt), **kw)
        unchanged(tag, pc, before)
        if pathkind == "stream":
            path.seek(0)
        r = I.load_pointcloud(path)
        expect_close(tag + ": points", r.points_list()[0], written(p, places, fmt == "text"), atol=0, rtol=1e-7)
        if V:
            expect((r.normals_list() is not None) == normals and (r.features_list() is not None) == (feats != "none"), tag + ": attributes")
            if normals:
                expect_close(tag + ": normals", r.normals_list()[0], written(nn, places, fmt == "text"), atol=0, rtol=1e-7)
            if feats == "c3":
                expect_close(tag + ": features", r.features_list()[0], written(ff, places, fmt == "text"), atol=0, rtol=1e-6)
            if feats == "u8":
                expect_close(tag + ": 8-bit features", r.features_list()[0], ff, atol=1e-6)
        rec.step()
    rec.trace()
    rec.state(case)


def run_functions(case, rec, d):
    """save_obj / load_obj / save_ply / load_ply with streams, normals and uvs separately"""
    V = case[1]
    salt = 0
    for F in range(0, 4):
        for faces in face_sets(V, F):
            f = torch.tensor(faces, dtype=torch.int64).reshape(len(faces), 3)
            for nrm, uvs, places, stream in itertools.product((False, True), (False, True), (None, 3), (False, True)):
                salt += 1
                v = values(V, 3, salt)
                n, u = values(3, 3, salt + 1), values(2 + salt % 2, 2, salt + 2) % 1
                fn = torch.tensor([[(i + salt * j) % 3 for j in range(3)] for i in range(F)], dtype=torch.int64).reshape(F, 3)
                fu = torch.tensor([[(i * j + salt) % u.shape[0] for j in range(3)] for i in range(F)], dtype=torch.int64).reshape(F, 3)
                tag = "save_obj V=%d faces=%s normals=%s uvs=%s places=%s stream=%s" % (V, faces, nrm, uvs, places, stream)
                kw = {}
                if nrm and V:
                    kw.update(normals=n, faces_normals_idx=fn)
                if uvs and V and F and not stream:
                    kw.update(verts_uvs=u, faces_uvs=fu, texture_map=colours(4, 3, salt).reshape(2, 2, 3))
                path = os.path.join(d, "f%d.obj" % salt)
                if stream:
                    # save_obj derives the texture's file names from the path, so it takes paths only
                    save_obj(path, v, f, decimal_places=places, **kw)
                    path = io.StringIO(open(path).read()) if salt % 2 else io.BytesIO(open(path, "rb").read())
                else:
                    save_obj(path, v, f, decimal_places=places, **kw)
                gv, gf, ga = load_obj(path)
                expect_close(tag + ": vertices", gv, written(v, places, True), atol=0, rtol=1e-7)
                expect(gf.verts_idx.tolist() == f.tolist(), lambda: "%s: faces %s" % (tag, gf.verts_idx.tolist()))
                if "normals" in kw and (V or F):
                    expect_close(tag + ": normals", ga.normals, written(n, places, True), atol=0, rtol=1e-7)
                    if F:
                        expect(gf.normals_idx.tolist() == fn.tolist(), tag + ": normals_idx")
                elif F:
                    expect(bool((gf.normals_idx == -1).all()), tag + ": normals_idx of nothing")
                if "verts_uvs" in kw:
                    expect_close(tag + ": uvs", ga.verts_uvs, written(u, places, True), atol=1e-7)
                    expect(gf.textures_idx.tolist() == fu.tolist(), tag + ": textures_idx")
                    expect(gf.materials_idx.tolist() == [0] * F and list(ga.texture_images) == ["mesh"], tag + ": material")
                    expect_close(tag + ": image", ga.texture_images["mesh"], kw["texture_map"], atol=1e-6)
                elif F:
                    expect(bool((gf.textures_idx == -1).all()) and bool((gf.materials_idx == -1).all()), tag + ": textures_idx of nothing")
                for asc in (False, True):
                    for st in (False, True):
                        t2 = "save_ply V=%d faces=%s normals=%s ascii=%s stream=%s" % (V, faces, nrm, asc, st)
                        pp = io.BytesIO() if st else os.path.join(d, "g%d.ply" % salt)
                        save_ply(pp, v, f if F or salt % 2 else None, verts_normals=values(V, 3, salt + 1) if nrm and V else None, ascii=asc, decimal_places=places)
                        if st:
                            pp.seek(0)
                        pv, pf = load_ply(pp)
                        expect_close(t2 + ": vertices", pv, written(v, places, asc), atol=0, rtol=1e-7)
                        expect(pf.tolist() == f.tolist() and pf.dtype == torch.int64 and pf.shape[1] == 3, t2 + ": faces")
                rec.step()
            rec.trace()
            rec.state([V, faces])
    rec.state(case)


def run_map(case, rec, d):
    """every 8-bit value in a texture image survives any number of generations"""
    k = case[1]
    I = make_io()
    img = torch.arange(256, dtype=torch.float32).reshape(16, 16, 1).expand(16, 16, 3) / 255
    img = torch.stack([img[..., 0], img.flip(0)[..., 0], img.transpose(0, 1)[..., 0]], -1)
    H, W = [(16, 16), (8, 32), (256, 1), (1, 256)][k]
    img = img.reshape(H, W, 3).contiguous()
    for fmt in ("obj", "glb"):
        m = Meshes([values(3, 3, 1)], [torch.tensor([[0, 1, 2]])], TexturesUV([img.clone()], [torch.tensor([[0, 1, 2]])], [torch.tensor([[0.0, 0.25], [1.0, 0.0], [0.5, 1.0]])]))
        for gen in range(3):
            p = os.path.join(d, "g%d.%s" % (gen, fmt))
            I.save_mesh(m, p)
            m = I.load_mesh(p)
            t = m.textures
            expect_close("%s image %dx%d generation %d" % (fmt, H, W, gen), t.maps_padded()[0], img, atol=1e-6)
            expect_close("%s uvs generation %d" % (fmt, gen), t.verts_uvs_list()[0], torch.tensor([[0.0, 0.25], [1.0, 0.0], [0.5, 1.0]]), atol=1e-6)
            rec.step()
    rec.trace()
    rec.state(case)


def run_large(case, rec, d):
    I = make_io()
    for V in (255, 256, 257, 32768, 65535, 65536, 65537, 70000):
        v = torch.rand(V, 3, generator=torch.Generator().manual_seed(1))
        f = torch.tensor([[0, V - 1, V // 2], [V - 1, V - 2, 1], [V // 2, 0, 2]])
        for fmt in ("glb", "ply", "off", "obj"):
            if V > 60000 and fmt in ("obj", "off"):
                continue
            p = os.path.join(d, "L.%s" % fmt)
            I.save_mesh(Meshes([v], [f]), p)
            r = I.load_mesh(p)
            expect(r.faces_packed().tolist() == f.tolist(), lambda: "%s of %d vertices: faces %s" % (fmt, V, r.faces_packed().tolist()))
            expect_close("%s of %d vertices" % (fmt, V), r.verts_packed(), v, atol=1e-6)
            rec.step()
    files = []
    for k in range(3):
        p = os.path.join(d, "o%d.obj" % k)
        save_obj(p, values(k + 3, 3, k), torch.tensor([[0, 1, k]]))
        files.append(p)
    for n in range(1, 4):
        for sel in itertools.product(range(3), repeat=n):
            ms = load_objs_as_meshes([files[s] for s in sel])
            expect(len(ms) == n, "load_objs_as_meshes count")
            for i, s in enumerate(sel):
                expect_close("load_objs_as_meshes %s" % (sel,), ms.verts_list()[i], written(values(s + 3, 3, s), None, True), atol=0, rtol=1e-7)
                expect(ms.faces_list()[i].tolist() == [[0, 1, s]], "load_objs_as_meshes faces")
            rec.step()
    rec.trace()
    rec.state(case)


def run_errors(case, rec, d):
    I = make_io()
    v, f = torch.rand(3, 3), torch.tensor([[0, 1, 2]])
    m = Meshes([v], [f])
    p = os.path.join(d, "a")
    for fn in (lambda: I.save_mesh(m, p + ".xyz"), lambda: I.load_mesh(p + ".xyz"), lambda: I.save_mesh(m.extend(2), p + ".ply"), lambda: I.save_mesh([m], p + ".ply"),
               lambda: I.save_pointcloud(m, p + ".ply"), lambda: I.save_pointcloud(Pointclouds([v, v]), p + ".ply"), lambda: I.save_pointcloud(Pointclouds([v]), p + ".obj"),
               lambda: I.load_pointcloud(p + ".obj"), lambda: save_obj(p + ".obj", v[:, :2], f), lambda: save_obj(p + ".obj", v, f[:, :2]),
               lambda: save_obj(p + ".obj", v, f, normals=v), lambda: save_obj(p + ".obj", v, f, verts_uvs=v, faces_uvs=f, texture_map=torch.rand(2, 2, 3)),
               lambda: save_ply(p + ".ply", v[:, :2]), lambda: save_ply(p + ".ply", v, f[:, :2]), lambda: save_ply(p + ".ply", v, f, verts_normals=v[:2]),
               lambda: I.register_meshes_format(3), lambda: I.register_pointcloud_format(MeshGlbFormat())):
        try:
            fn()
        except ValueError:
            rec.step()
            continue
        raise Violation("a wrong call of the IO functions is accepted")
    rec.trace()
    rec.state(case)
