"""C28: every legal layout of small mesh files, written by an independent generator, and every way of cutting them short."""
import base64
import io
import itertools
import json
import os
import pathlib
import shutil
import signal
import struct
import tempfile
import warnings
from contextlib import contextmanager

import numpy as np
import torch
from iopath.common.file_io import PathManager
from mc.core import Violation, expect, expect_close

from pytorch3d.io import IO, load_obj, load_ply
from pytorch3d.io.experimental_gltf_io import load_meshes, MeshGlbFormat
from pytorch3d.io.obj_io import MeshObjFormat
from pytorch3d.io.off_io import MeshOffFormat
from pytorch3d.io.pluggable_formats import MeshFormatInterpreter, PointcloudFormatInterpreter
from pytorch3d.io.ply_io import MeshPlyFormat, PointcloudPlyFormat
from pytorch3d.renderer import TexturesAtlas, TexturesVertex
from pytorch3d.structures import Meshes, Pointclouds

PROPERTY = "C28"
ASSUMPTIONS = [
    "PLY faces have a single list property; other forms are refused by the reader",
    "OBJ comments stand on their own lines and lines are not continued",
    "OFF integer colours are recognised from the first coloured line",
    "a polygon is split into the fan around its first corner; in PLY and OFF files of equal polygons, fans are compared as sets of triangles",
]
BOUNDS = {
    "quick": "PLY: text, little and big endian x orders and types of x, y, z x colours, normals, uvs and unknown properties in several orders x 0, 1, 3 vertices; list widths x polygon sets; "
             "element orders and unknown elements with fixed, mixed and list properties; comments, line endings; path, Path, binary and text streams; every truncation and trailing data. "
             "OBJ: reference style x absolute or relative x data first or interleaved x polygon sets x separators, comments, extra fields, materials. OFF: header forms x colours x polygon sets x comments; "
             "truncations. glTF: storage layouts x index types x node transforms x colour types, GLB or data URI. Every registration order of the readers",
    "thorough": "as quick with all six orders and nine types of coordinates for every attribute layout",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1

POLYS = {
    "none": [],
    "tri": [(0, 1, 2)],
    "tris": [(0, 1, 2), (2, 1, 3), (4, 0, 3)],
    "quads": [(0, 1, 2, 3), (4, 3, 2, 1)],
    "pent": [(4, 0, 2, 1, 3)],
    "mixed": [(0, 1, 2, 3), (2, 1, 4), (3, 4, 0, 1, 2), (0, 2, 4)],
    "mixed2": [(0, 1, 2), (2, 1, 4, 3)],
}


def fan(polys):
    return [(p[0], p[i + 1], p[i + 2]) for p in polys for i in range(len(p) - 2)]


@contextmanager
def limit(tag, seconds=20):
    def stop(*_):
        raise Violation(tag + ": the reader does not come to an end")

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def same_faces(tag, got, polys):
    want = fan(polys)
    got = [tuple(t) for t in got.tolist()]
    if len({len(p) for p in polys}) > 1 or all(len(p) == 3 for p in polys):
        expect(got == want, lambda: "%s: faces are %s, want %s" % (tag, got, want))
    else:
        expect(sorted(got) == sorted(want), lambda: "%s: faces are %s, want %s" % (tag, got, want))


def refused(tag, f):
    try:
        with limit(tag):
            f()
    except Violation:
        raise
    except Exception:
        return
    raise Violation(tag + ": accepted")


# ---------------------------------------------------------------- PLY

NP = {"char": "i1", "uchar": "u1", "short": "i2", "ushort": "u2", "int": "i4", "uint": "u4", "float": "f4", "double": "f8",
      "int8": "i1", "uint8": "u1", "int16": "i2", "uint16": "u2", "int32": "i4", "uint32": "u4", "float32": "f4", "float64": "f8"}


def number(v, typ):
    return repr(float(v)) if NP[typ][0] == "f" else str(int(v))


def ply(fmt, elements, crlf=False, comments=()):
    """elements: [name, [(prop, type, None or count type)], rows]; rows hold numbers or lists of them"""
    nl = "\r\n" if crlf else "\n"
    h = ["ply", "format %s 1.0" % {"ascii": "ascii", "le": "binary_little_endian", "be": "binary_big_endian"}[fmt]]
    comments = list(comments)
    for name, props, rows in elements:
        h += comments[:1]
        h.append("element %s %d" % (name, len(rows)))
        for p, t, c in props:
            h.append("property %s %s" % (t, p) if c is None else "property list %s %s %s" % (c, t, p))
            h += comments[1:2]
    h += comments[2:]
    h.append("end_header")
    out = (nl.join(h) + nl).encode()
    head = len(out)
    e = ">" if fmt == "be" else "<"
    for _, props, rows in elements:
        for row in rows:
            if fmt == "ascii":
                words = []
                for v, (_, t, c) in zip(row, props):
                    words += [number(v, t)] if c is None else [str(len(v))] + [number(x, t) for x in v]
                out += (" ".join(words) + nl).encode()
            else:
                for v, (_, t, c) in zip(row, props):
                    if c is not None:
                        out += np.array(len(v), e + NP[c]).tobytes()
                    out += np.array(v, e + NP[t]).tobytes()
    return out, head


XYZ = np.array([[0, 1, 2], [7, 3, 11], [5, 100, 4], [9, 8, 6], [12, 13, 10]], dtype=np.float64)
FRAC = XYZ * np.array([0.5, -0.25, 1.125]) + np.array([0.1, 0.2, 0.3])
EXTRA = {
    "nx": [0.5, -0.25, 0.75, 0.1, 0.2], "ny": [1.0, 0.3, -0.2, 0.6, 0.0], "nz": [0.0, 1.0, 0.9, -0.8, 0.7],
    "red": [255, 0, 17, 128, 3], "green": [1, 2, 254, 40, 50], "blue": [200, 100, 0, 60, 255], "alpha": [7, 8, 9, 10, 11],
    "texture_u": [0.0, 0.25, 1.0, 0.5, 0.125], "texture_v": [1.0, 0.75, 0.3, 0.0, 0.6],
    "quality": [3, 1, 4, 1, 5], "flags": [0, 1, 2, 3, 4],
}


def vertex_element(V, coords, types, attrs, order):
    """coords: order of xyz; attrs: [(prop, type)], order: where they stand"""
    c = [(n, t, None) for n, t in zip(coords, types)]
    a = [(n, t, None) for n, t in attrs]
    props = {"after": c + a, "before": a + c, "between": c[:1] + a + c[1:], "zip": [p for pair in itertools.zip_longest(c, a) for p in pair if p]}[order]
    rows = []
    want = {}
    for n, t, _ in props:
        if n in "xyz":
            col = (FRAC if NP[t][0] == "f" else XYZ)[:, "xyz".index(n)]
        else:
            col = np.array(EXTRA[n], dtype=np.float64)
            if n in ("red", "green", "blue", "alpha") and NP[t][0] == "f":
                col = col / 255
        if NP[t] == "f4":
            col = col.astype(np.float32).astype(np.float64)
        want[n] = col[:V]
    for i in range(V):
        rows.append([want[n][i] for n, _, _ in props])
    return ["vertex", props, rows], want


def stack(want, names):
    return torch.tensor(np.stack([want[n] for n in names], -1), dtype=torch.float32)


def check_ply(tag, data, V, want, attrs, polys, d, rec, text_ok, how=None):
    n = rec.counters.get("files", 0) if hasattr(rec, "counters") else 0
    path = os.path.join(d, "file.ply")
    with open(path, "wb") as f:
        f.write(data)
    t = dict(attrs)
    with limit(tag):
        readers = {"stream": lambda: load_ply(io.BytesIO(data)), "path": lambda: load_ply(path)}
        if text_ok:
            readers["text"] = lambda: load_ply(io.StringIO(data.decode(), newline=None))
        for k, rd in readers.items():
            v, f = rd()
            expect_close(tag + " (%s): vertices" % k, v, stack(want, "xyz"), atol=0, rtol=1e-6)
            same_faces(tag + " (%s)" % k, f, polys)
            rec.step()
        m = IO().load_mesh(pathlib.Path(path))
        expect_close(tag + " (mesh): vertices", m.verts_list()[0], stack(want, "xyz"), atol=0, rtol=1e-6)
        same_faces(tag + " (mesh)", m.faces_list()[0], polys)
        colours = None
        if all(c in t for c in ("red", "green", "blue")):
            colours = stack(want, ("red", "green", "blue"))
            if all(NP[t[c]][1] == "1" for c in ("red", "green", "blue")):
                colours = colours / 255
        normals = stack(want, ("nx", "ny", "nz")) if all(c in t for c in ("nx", "ny", "nz")) else None
        p = IO().load_pointcloud(path)
        expect_close(tag + " (cloud): points", p.points_list()[0], stack(want, "xyz"), atol=0, rtol=1e-6)
        if V:
            expect((p.features_list() is not None) == (colours is not None), tag + ": whether there are features")
            expect((p.normals_list() is not None) == (normals is not None), tag + ": whether there are normals")
            if colours is not None:
                expect_close(tag + ": features", p.features_list()[0], colours, atol=1e-6)
                expect_close(tag + ": vertex colours", m.textures.verts_features_list()[0], colours, atol=1e-6)
            if normals is not None:
                expect_close(tag + ": normals", p.normals_list()[0], normals, atol=1e-6)
                if polys:
                    expect_close(tag + ": mesh normals", m.verts_normals_list()[0], normals, atol=1e-6)
        rec.step(2)


ATTRS = {
    "none": [],
    "uchar": [("red", "uchar"), ("green", "uchar"), ("blue", "uchar")],
    "uint8a": [("red", "uint8"), ("green", "uint8"), ("blue", "uint8"), ("alpha", "uint8")],
    "bgr": [("blue", "uchar"), ("red", "uchar"), ("green", "uchar")],
    "float": [("red", "float"), ("green", "float"), ("blue", "float")],
    "rgonly": [("red", "uchar"), ("green", "uchar")],
    "normals": [("nx", "float"), ("ny", "float"), ("nz", "float")],
    "normalsd": [("nz", "double"), ("ny", "float"), ("nx", "float32")],
    "all": [("nx", "float"), ("ny", "float"), ("nz", "float"), ("red", "uchar"), ("green", "uchar"), ("blue", "uchar"), ("texture_u", "float"), ("texture_v", "double")],
    "uv": [("texture_v", "float"), ("texture_u", "float")],
    "other": [("quality", "float"), ("flags", "short")],
    "mixed": [("flags", "uchar"), ("red", "uchar"), ("nx", "float"), ("green", "uchar"), ("ny", "float"), ("blue", "uchar"), ("nz", "float"), ("quality", "int")],
}
TYPES = [("float",) * 3, ("double",) * 3, ("float32",) * 3, ("float64",) * 3, ("float", "double", "float"), ("int", "float", "float"), ("uchar",) * 3, ("short", "ushort", "int16"),
         ("uint", "int32", "uint32"), ("int8", "uint8", "char"), ("double", "uint16", "float32")]


def run_plyverts(case, rec, d):
    fmt, attr = case[1:3]
    attrs = ATTRS[attr]
    full = attr in ("none", "other", "all") or len(case) == 4
    for coords in itertools.permutations("xyz") if full else [("x", "y", "z"), ("z", "y", "x")]:
        for types in TYPES if full else TYPES[:6]:
            for order in ("after", "before", "between", "zip") if attrs else ("after",):
                for V in (0, 1, 3):
                    el, want = vertex_element(V, coords, types, attrs, order)
                    els = [el, ["face", [("vertex_indices", "int", "uchar")], [[(0, 1, 2)]] if V == 3 else []]]
                    tag = "PLY %s %s" % (fmt, [[(p, t) for p, t, _ in el[1]], V])
                    data, _ = ply(fmt, els)
                    check_ply(tag, data, V, want, attrs, POLYS["tri"] if V == 3 else [], d, rec, fmt == "ascii" and attr in ("none", "mixed"))
                    rec.trace()
        rec.state([case, coords])


def run_plyfaces(case, rec, d):
    _, fmt, polys = case
    polys = POLYS[polys]
    for ct, it, name, crlf in itertools.product(("uchar", "uint8", "char", "short", "ushort", "int", "uint", "int32"), ("int", "uint", "uchar", "short", "uint16", "int32", "char"),
                                                ("vertex_index", "vertex_indices"), (False, True) if fmt == "ascii" else (False,)):
        el, want = vertex_element(5, ("x", "y", "z"), ("float",) * 3, [], "after")
        data, _ = ply(fmt, [el, ["face", [(name, it, ct)], [[p] for p in polys]]], crlf)
        check_ply("PLY %s faces %s as list %s %s%s" % (fmt, polys, ct, it, " crlf" if crlf else ""), data, 5, want, [], polys, d, rec, fmt == "ascii")
        rec.trace()
    rec.state(case)


UNKNOWN = {
    "fixed": ["edge", [("vertex1", "int", None), ("vertex2", "int", None)], [[0, 1], [1, 2], [2, 0]]],
    "mixedtypes": ["material", [("r", "uchar", None), ("shine", "float64", None), ("k", "short", None)], [[1, 0.5, -3], [255, -2.25, 7]]],
    "lists": ["strip", [("idx", "int", "uchar")], [[[1, 2, 3]], [[]], [[5, 6, 7, 8, 9]]]],
    "equal lists": ["strip", [("idx", "short", "ushort")], [[[1, 2]], [[3, 4]]]],
    "empty lists": ["strip", [("idx", "int", "uchar")], [[[]], [[]]]],
    "list and scalars": ["patch", [("w", "float32", None), ("idx", "double", "int"), ("n", "uchar", None), ("ids", "ushort", "uchar")], [[0.5, [1.5, 2.5], 3, [9]], [-0.25, [], 4, [8, 7, 6]]]],
    "zero": ["nothing", [("a", "float", None)], []],
    "zero lists": ["nothing", [("a", "float", "uchar")], []],
}


def run_plyelements(case, rec, d):
    _, fmt, unknown = case
    extra = UNKNOWN[unknown]
    for polys, attr in itertools.product(("none", "tris", "mixed"), ("none", "mixed")):
        el, want = vertex_element(5, ("x", "y", "z"), ("float",) * 3, ATTRS[attr], "between")
        face = ["face", [("vertex_indices", "int", "uchar")], [[p] for p in POLYS[polys]]]
        for els in itertools.permutations([el, face, extra]):
            for com in ((), ("comment hello world", "comment", "obj_info something", ""), ("obj_info num_cols 4", "comment element vertex 7", "comment end_header ")):
                data, head = ply(fmt, els, False, com)
                tag = "PLY %s elements %s, faces %s, vertices %s, comments %s" % (fmt, [(e[0], len(e[2])) for e in els], polys, attr, bool(com))
                check_ply(tag, data, 5, want, ATTRS[attr], POLYS[polys], d, rec, fmt == "ascii")
                rec.trace()
    rec.state(case)


def run_plybad(case, rec, d):
    """cut short at every byte (or number), too much data, and wrong counts"""
    _, fmt, unknown, polys = case
    path = os.path.join(d, "bad.ply")

    def bad(tag, data):
        with open(path, "wb") as f:
            f.write(data)
        refused(tag + " (stream)", lambda: load_ply(io.BytesIO(data)))
        refused(tag + " (path)", lambda: load_ply(path))
        rec.step(2)

    el, want = vertex_element(5, ("x", "y", "z"), ("float",) * 3, ATTRS["mixed"] if unknown != "fixed" else [], "after")
    face = ["face", [("vertex_indices", "int", "uchar")], [[p] for p in POLYS[polys]]]
    for els in ([el, face, UNKNOWN[unknown]], [UNKNOWN[unknown], face, el]):
        data, head = ply(fmt, els)
        load_ply(io.BytesIO(data))
        name = "PLY %s %s" % (fmt, [(e[0], len(e[2])) for e in els])
        for k in range(0, head - 1 if fmt == "ascii" else len(data)):
            bad("%s cut to %d of %d bytes" % (name, k, len(data)), data[:k])
        if fmt == "ascii":
            lines = data[head:].decode().split("\n")[:-1]
            for i, ln in enumerate(lines):
                words = ln.split(" ")
                for j in range(len(words)):
                    bad("%s without the numbers from %d of line %d" % (name, j, i), data[:head] + "\n".join(lines[:i] + [" ".join(words[:j])]).encode() + b"\n")
                    for w in ("x", "1,", "nan?", "--1"):
                        bad("%s with %s for number %d of line %d" % (name, w, j, i), data[:head] + "\n".join(lines[:i] + [" ".join(words[:j] + [w] + words[j + 1:])] + lines[i + 1:]).encode() + b"\n")
                bad("%s with an extra number on line %d" % (name, i), data[:head] + "\n".join(lines[:i] + [ln + " 1"] + lines[i + 1:]).encode() + b"\n")
        for extra in (b"1", b"\x01\x02", b"3 0 1 2\n"):
            bad("%s followed by %s" % (name, extra), data + extra)
        text = data[:head].decode().split("\n")
        for i, ln in enumerate(text[:-1]):
            rest = data[head:]
            # without its element line a property joins the element before, which may be legal
            bads = [text[:i] + text[i + 1:]] if not ln.startswith(("property", "element")) or "vertex_indices" in ln or ln.split()[-1] in "xyz" else []
            if ln.startswith("element"):
                w = ln.split(" ")
                if int(w[2]):
                    bads += [text[:i] + [" ".join([w[0], w[1], str(int(w[2]) + 1)])] + text[i + 1:]]
                bads += [text[:i] + [" ".join([w[0], w[1], x])] + text[i + 1:] for x in ("x", "", "1.5")]
            elif ln.startswith("property"):
                bads += [text[:i] + [ln.replace(ln.split(" ")[1 if "list" not in ln else 2], "quad", 1)] + text[i + 1:], text[:i] + [ln, ln] + text[i + 1:]]
            elif ln.startswith("format"):
                bads += [text[:i] + [x] + text[i + 1:] for x in ("format ascii 2.0", "format", "format binary 1.0")] + [text[:i] + [ln, ln] + text[i + 1:]]
            elif ln == "ply":
                bads += [["plx"] + text[1:]]
            if ln == "end_header":
                bads = []
            for b in bads:
                bad("%s with header %s" % (name, [x for x in b if x not in text] or "without " + ln), "\n".join(b).encode() + rest)
        rec.trace()
    rec.state(case)


# ---------------------------------------------------------------- OBJ

V5 = [(0.0, 0.5, -1.25), (1.0, 2.0, 3.0), (-0.001, 1e-3, 4.5), (10.0, -20.0, 0.125), (0.25, 0.75, 1.5)]
T4 = [(0.0, 1.0), (0.25, 0.5), (1.0, 0.125), (0.75, 0.0)]
N3 = [(0.0, 0.0, 1.0), (0.5, -0.5, 0.25), (-1.0, 0.0, 0.0)]
SPELL = [lambda x: repr(x), lambda x: "%e" % x, lambda x: ("%+f" % x), lambda x: str(int(x)) if x == int(x) else repr(x).replace("0.", ".") if abs(x) < 1 and "e" not in repr(x) else repr(x)]


def run_obj(case, rec, d):
    _, style, rel, place, polys = case
    P = POLYS[polys]
    n = 0
    for sep, noise, extra, spell in itertools.product((" ", "  ", "\t", " lead", " crlf"), (0, 1, 2), (False, True), range(len(SPELL))):
        if sep != " " and spell:
            continue
        n += 1
        s = "\t" if sep == "\t" else "  " if sep == "  " else " "
        num = SPELL[spell]
        lines = []
        counts = [0, 0, 0]

        def put(kind, limit_):
            data = {"v": V5, "vt": T4, "vn": N3}[kind]
            i = {"v": 0, "vt": 1, "vn": 2}[kind]
            while counts[i] < min(limit_, len(data)):
                w = [kind] + [num(x) for x in data[counts[i]]]
                if extra and kind == "v":
                    w += ["1.0", "0.5", "0.25"]
                if extra and kind == "vt":
                    w += ["0.0"]
                lines.append(s.join(w))
                counts[i] += 1

        kinds = ["v"] + (["vt"] if "t" in style else []) + (["vn"] if "n" in style else [])
        if place == "first":
            for k in kinds:
                put(k, 99)
        elif place == "reversed":
            for k in reversed(kinds):
                put(k, 99)
        wt, wn = [], []
        for fi, p in enumerate(P):
            if place == "interleaved":
                for k in kinds:
                    put(k, {"v": max(p) + 1, "vt": 1 + fi, "vn": 1 + fi}[k])
            if noise == 1 and fi % 2:
                lines += ["# a comment f 1 2 3", "", "   "]
            if noise == 2:
                lines += ["g group%d" % fi, "s %d" % fi, "o object", "l 1 2", "#v 9 9 9", "vp 0.1 0.2", "foo bar"]
            corner = []
            for c, v in enumerate(p):
                nt, nn = counts[1] or len(T4), counts[2] or len(N3)
                ti, ni = (fi + c) % nt, (fi + 2 * c) % nn
                # with -1, -1, -1 on the first face
                if fi == 0 and rel == "last":
                    ti, ni = nt - 1, nn - 1

                def ix(i, count, k):
                    relative = rel in ("rel", "last") or (rel == "mix" and (c + k) % 2)
                    return str(i - count) if relative else str(i + 1)

                a = ix(v, counts[0], 0)
                b = ix(ti, counts[1], 1) if "t" in style else ""
                e = ix(ni, counts[2], 2) if "n" in style else ""
                corner.append(a + ("/" + b if "t" in style or "n" in style else "") + ("/" + e if "n" in style else ""))
                wt.append(ti if c == 0 or True else None)
                wn.append(ni)
            lines.append(s.join(["f"] + corner))
        if place == "interleaved":
            for k in kinds:
                put(k, 99)
        if noise == 1:
            lines = ["# header", ""] + lines + ["", "# end"]
        if sep == " lead":
            lines = ["  " + x + "  " for x in lines]
        data = (("\r\n" if sep == " crlf" else "\n").join(lines) + ("\n" if n % 2 else "")).encode()
        path = os.path.join(d, "a.obj")
        with open(path, "wb") as f:
            f.write(data)
        tag = "OBJ %s separator %r noise %d extra %s spelling %d: %r" % (case[1:], sep, noise, extra, spell, data.decode()[:400])
        with limit(tag), warnings.catch_warnings():
            warnings.simplefilter("error")
            warnings.filterwarnings("ignore", message="No mtl file")
            for src in (path, pathlib.Path(path), io.StringIO(data.decode()), io.BytesIO(data)):
                v, f, aux = load_obj(src)
                wv = torch.tensor([[float(num(x)) for x in r] for r in V5], dtype=torch.float32)
                expect_close(tag + ": vertices", v, wv, atol=0, rtol=1e-6)
                got = [tuple(t) for t in f.verts_idx.tolist()]
                expect(got == fan(P), lambda: "%s: faces are %s, want %s" % (tag, got, fan(P)))
                # the corners' other references, split in the same way
                i = 0
                et, en = [], []
                for p in P:
                    et += fan([wt[i: i + len(p)]])
                    en += fan([wn[i: i + len(p)]])
                    i += len(p)
                if P:
                    expect(f.textures_idx.tolist() == ([list(t) for t in et] if "t" in style else [[-1] * 3] * len(et)), lambda: "%s: texture indices are %s, want %s" % (tag, f.textures_idx.tolist(), et))
                    expect(f.normals_idx.tolist() == ([list(t) for t in en] if "n" in style else [[-1] * 3] * len(en)), lambda: "%s: normal indices are %s, want %s" % (tag, f.normals_idx.tolist(), en))
                for got_, want_, on in ((aux.verts_uvs, T4, "t" in style), (aux.normals, N3, "n" in style)):
                    expect((got_ is not None) == on, tag + ": which attributes there are")
                    if on:
                        expect_close(tag + ": attributes", got_, torch.tensor([[float(num(x)) for x in r] for r in want_], dtype=torch.float32), atol=0, rtol=1e-6)
                rec.step()
            m = IO().load_mesh(path)
            expect_close(tag + ": mesh vertices", m.verts_list()[0], wv, atol=0, rtol=1e-6)
            expect([tuple(t) for t in m.faces_list()[0].tolist()] == fan(P), tag + ": mesh faces")
        rec.trace()
    rec.state(case)


def run_objmat(case, rec, d):
    """materials: every way of assigning up to 4 faces to no material, a, b or the undefined c"""
    colours = {"a": (1.0, 0.5, 0.25), "b": (0.0, 1.0, 0.75), "x": (0.1, 0.2, 0.3)}
    P = POLYS["mixed"]
    for order in (("a", "b", "x"), ("x", "b", "a")):
        for assign in itertools.product((None, "a", "b", "c"), repeat=len(P)):
            for atlas in (False, True):
                lines = ["mtllib my file.mtl"] if case[1] else []
                lines += ["v %r %r %r" % v for v in V5]
                names, want = [], []
                cur = None
                for p, a in zip(P, assign):
                    if a is not None and (a != cur or len(names) % 2):
                        lines.append("usemtl " + a)
                        if a not in names:
                            names.append(a)
                        cur = a
                    lines.append("f " + " ".join(str(i + 1) for i in p))
                    want += [-1 if cur is None else names.index(cur)] * (len(p) - 2)
                mtl = "# materials\n" + "".join("newmtl %s\nKa 0 0 0\nKd %r %r %r\nKs 1 1 1\nNs 10\nillum 2\n\n" % ((k,) + colours[k]) for k in order)
                path = os.path.join(d, "m.obj")
                with open(path, "w") as f:
                    f.write("\n".join(lines))
                with open(os.path.join(d, "my file.mtl"), "w") as f:
                    f.write(mtl)
                tag = "OBJ materials %s, listed as %s, library %s, atlas %s" % (assign, order, case[1], atlas)
                if case[1] and not names:
                    # several materials and no choice between them
                    refused(tag, lambda: load_obj(path, create_texture_atlas=atlas))
                    with open(os.path.join(d, "my file.mtl"), "w") as f:
                        f.write("newmtl x\nKd 0.1 0.2 0.3")
                with limit(tag), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v, f, aux = load_obj(path, create_texture_atlas=atlas, texture_atlas_size=2)
                if case[1] and not names:
                    # without any usemtl the only material is used for all faces
                    want = [0] * len(want)
                    names = ["x"]
                expect(f.materials_idx.tolist() == want, lambda: "%s: material indices are %s, want %s" % (tag, f.materials_idx.tolist(), want))
                if case[1]:
                    for k in names:
                        if k in colours:
                            expect_close(tag + ": colour of " + k, aux.material_colors[k]["diffuse_color"], torch.tensor(colours[k]), atol=1e-6)
                if atlas:
                    w = torch.tensor([colours.get(names[i], (1.0,) * 3) if i >= 0 and case[1] and names[i] in colours else (1.0,) * 3 for i in want])
                    got = aux.texture_atlas
                    expect(got.shape == (len(want), 2, 2, 3), tag + ": atlas shape")
                    known = [i for i, j in enumerate(want) if j < 0 or names[j] in colours]
                    expect_close(tag + ": atlas", got[known], w[known][:, None, None].expand(len(known), 2, 2, 3), atol=1e-6)
                rec.step()
        rec.trace()
    rec.state(case)


def run_objbad(case, rec, d):
    base = ["v 0 0 0", "v 1 0 0", "v 0 1 0", "vt 0 0", "vt 0 1", "vn 0 0 1", "f 1/1/1 2/2/1 3/1/1"]
    for i, bad in [(0, "v 0 0"), (0, "v 0 0 x"), (0, "v"), (3, "vt 0"), (3, "vt a b"), (5, "vn 0 0"), (5, "vn 0 0 z"), (6, "f 1/1/1/1 2/2/1/1 3/1/1/1"), (6, "f 1/1/1 2/2 3/1/1"),
                   (6, "f 1/1/1 2//1 3/1/1"), (6, "f a b c"), (6, "f 1/1/1 2/2/1 3"), (6, "f 1.5 2 3"), (6, "f 1/ 2/2 3/2")]:
        data = "\n".join(base[:i] + [bad] + base[i + 1:])
        for end in ("", "\n"):
            refused("OBJ with the line %r" % bad, lambda: load_obj(io.StringIO(data + end)))
            rec.step()
    # indices that refer to nothing are reported
    for bad in ("f 1 2 4", "f -1 -2 -4", "f 0 1 2", "f 1/3 2/1 3/1", "f 1//2 2//1 3//1", "f 1/-3 2/1 3/1", "f -1//-2 1//-2 2//-2"):
        data = "\n".join(base[:6] + [bad])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                load_obj(io.StringIO(data))
            except Exception:
                w = [1]
            else:
                w = [x for x in w if "indices" in str(x.message)]
        expect(len(w) > 0, "OBJ with the line %r: not reported" % bad)
        rec.step()
    rec.trace()
    rec.state(case)


# ---------------------------------------------------------------- OFF

COL = [[255, 0, 17, 5], [1, 254, 128, 200], [3, 4, 250, 255], [60, 90, 0, 0], [20, 21, 22, 23]]


def run_off(case, rec, d):
    _, vcol, fcol, polys = case
    P = POLYS[polys]
    io_ = IO()
    for head, noise, whole, V in itertools.product(("OFF\n", "off ", "OFF", "", "Off\n# c\n\n", "\n#x\nOFF\n"), (0, 1, 2), (False, True), (5, 1, 0)):
        if V < 5 and (P or noise == 2 or fcol != "none" or (V == 0 and vcol != "none")):
            continue
        def colour(kind, i):
            if kind == "none":
                return []
            c = COL[i % 5][: int(kind[-1])]
            return [str(x) for x in c] if kind[0] == "i" else ["%.4f" % (x / 255) for x in c]

        def value(x):
            return str(int(x)) if whole else "%.3f" % x

        src = XYZ if whole else FRAC
        lines = ["%d %d 0%s" % (V, len(P), "  # counts" if noise == 1 else "")]
        if noise == 2:
            lines += ["# vertices"]
        for i in range(V):
            sep = " " if noise != 2 else "  "
            lines.append(sep.join([value(x) for x in src[i]] + colour(vcol, i)))
            if noise == 1 and i % 2:
                lines += ["", "# between 1 2 3"]
            if noise == 2:
                lines[-1] = "   " + lines[-1] + " # vertex %d" % i
        for i, p in enumerate(P):
            lines.append(" ".join([str(len(p))] + [str(x) for x in p] + colour(fcol, i)))
            if noise == 2:
                lines[-1] = lines[-1] + "   "
        data = head + "\n".join(lines) + ("\n" if noise else "")
        path = os.path.join(d, "a.off")
        with open(path, "w") as f:
            f.write(data)
        tag = "OFF %s header %r noise %d integers %s V=%d: %r" % (case[1:], head, noise, whole, V, data[:300])
        with limit(tag), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = io_.load_mesh(path)
            expect_close(tag + ": vertices", m.verts_list()[0], torch.tensor([[float(value(x)) for x in r] for r in src[:V]], dtype=torch.float32).reshape(V, 3), atol=0, rtol=1e-6)
            same_faces(tag, m.faces_list()[0], P)
            scale = lambda kind, i: [float(x) / (255 if kind[0] == "i" else 1) for x in colour(kind, i)]
            if vcol != "none":
                expect(isinstance(m.textures, TexturesVertex), tag + ": colours are missing")
                expect_close(tag + ": vertex colours", m.textures.verts_features_list()[0], torch.tensor([scale(vcol, i) for i in range(V)]), atol=1e-5)
            elif fcol != "none" and P:
                expect(isinstance(m.textures, TexturesAtlas), tag + ": face colours are missing")
                got = m.textures.atlas_list()[0]
                want = sorted((t, scale(fcol, i)) for i, p in enumerate(P) for t in fan([p]))
                have = sorted((tuple(t), c) for t, c in zip(m.faces_list()[0].tolist(), got.reshape(len(got), -1).tolist()))
                expect(len(want) == len(have), tag + ": number of colours")
                expect_close(tag + ": face colours", torch.tensor([c for _, c in have]), torch.tensor([c for _, c in want]), atol=1e-5)
            else:
                expect(m.textures is None, tag + ": colours appear")
            rec.step()
            t = [m.verts_list()[0].tolist(), m.faces_list()[0].tolist()]
            m = io_.load_mesh(pathlib.Path(path), include_textures=False)
            expect([m.verts_list()[0].tolist(), m.faces_list()[0].tolist()] == t and m.textures is None, tag + ": without textures")
        if noise == 0 and head in ("OFF\n", "", "OFF"):
            for k in range(len(lines)):
                words = lines[k].split(" ")
                for j in range(len(words)):
                    if k == 0 and j == 2:
                        continue  # the counts of faces may be all there is
                    # cut off inside the last face's colours or a polygon's corners it may be legal again
                    if k > V and (j >= 1 + len(P[k - 1 - V]) and (j - 1 - len(P[k - 1 - V]) in (0, 3))) and k == len(lines) - 1:
                        continue
                    if k == V and not P and j in (3, 6) and (V == 1):
                        continue
                    cut = head + "\n".join(lines[:k] + [" ".join(words[:j])])
                    with open(path, "w") as f:
                        f.write(cut)
                    refused("OFF cut to %r" % cut, lambda: io_.load_mesh(path))
                    rec.step()
            with open(path, "w") as f:
                f.write(data + "\n7 8 9\n")
            refused("OFF with more at the end: %r" % data, lambda: io_.load_mesh(path))
        rec.trace()
    rec.state(case)


# ---------------------------------------------------------------- glTF

NPT = {5121: "u1", 5123: "u2", 5125: "u4", 5126: "f4"}


def gltf(meshes, nodes, scene, layout, uri, index_type):
    """meshes: [[(positions, indices or None, colours or None, colour type)]]"""
    blob = b""
    views, accessors, jm = [], [], []

    def align(n):
        nonlocal blob
        blob += b"\xee" * (-len(blob) % n)

    def accessor(a, ct, kind, group=None):
        nonlocal blob
        a = np.asarray(a, "<" + NPT[ct])
        accessors.append({"componentType": ct, "count": len(a), "type": kind})
        return a

    for prims in meshes:
        out = []
        for pos, idx, col, ctype in prims:
            pos = np.asarray(pos, "<f4")
            attrs = {}
            cols = None
            if col is not None:
                cols = np.asarray(col, "<" + NPT[ctype])
            if layout == "interleaved":
                align(4)
                parts = [pos] + ([cols] if cols is not None else [])
                size = [p.shape[1] * p.itemsize for p in parts]
                offs = [0, size[0]]
                stride = sum(size) + (-sum(size) % 4)
                start = len(blob)
                for i in range(len(pos)):
                    row = b"".join(p[i].tobytes() for p in parts)
                    blob += row
                    if i + 1 < len(pos):
                        blob += b"\xdd" * (stride - len(row))
                views.append({"buffer": 0, "byteOffset": start, "byteLength": len(blob) - start, "byteStride": stride})
                for k, (p, o, name) in enumerate(zip(parts, offs, ("POSITION", "COLOR_0"))):
                    accessors.append({"bufferView": len(views) - 1, "byteOffset": o, "componentType": 5126 if k == 0 else ctype, "count": len(p), "type": "VEC%d" % p.shape[1]})
                    attrs[name] = len(accessors) - 1
            else:
                for p, ct, name in ((pos, 5126, "POSITION"),) + (((cols, ctype, "COLOR_0"),) if cols is not None else ()):
                    align(4)
                    elem = p.shape[1] * p.itemsize
                    stride = elem + (-elem % 4) + (8 if layout == "strided" else 0)
                    lead = 12 if layout == "offset" else 0
                    start = len(blob)
                    blob += b"\xcc" * lead
                    for i in range(len(p)):
                        blob += p[i].tobytes()
                        if i + 1 < len(p) and stride != elem:
                            blob += b"\xbb" * (stride - elem)
                    view = {"buffer": 0, "byteLength": len(blob) - start}
                    if start or layout != "plain":
                        view["byteOffset"] = start
                    if stride != elem:
                        view["byteStride"] = stride
                    views.append(view)
                    a = {"bufferView": len(views) - 1, "componentType": ct, "count": len(p), "type": "VEC%d" % p.shape[1]}
                    if lead:
                        a["byteOffset"] = lead
                    accessors.append(a)
                    attrs[name] = len(accessors) - 1
            prim = {"attributes": attrs}
            if layout != "plain":
                prim["mode"] = 4
            if idx is not None:
                i = np.asarray(idx, "<" + NPT[index_type]).reshape(-1)
                align(4)
                start = len(blob)
                blob += i.tobytes()
                views.append({"buffer": 0, "byteOffset": start, "byteLength": len(blob) - start})
                accessors.append({"bufferView": len(views) - 1, "componentType": index_type, "count": len(i), "type": "SCALAR"})
                prim["indices"] = len(accessors) - 1
            out.append(prim)
        jm.append({"primitives": out, "name": "m%d" % len(jm)})
    js = {"asset": {"version": "2.0"}, "scene": 1, "scenes": [{"nodes": []}, {"nodes": scene}], "nodes": nodes, "meshes": jm, "accessors": accessors, "bufferViews": views,
          "buffers": [{"byteLength": len(blob)}]}
    if uri:
        js["buffers"][0]["uri"] = "data:application/octet-stream;base64," + base64.b64encode(blob).decode()
        return json.dumps(js).encode()
    j = json.dumps(js).encode()
    j += b" " * (-len(j) % 4)
    blob += b"\0" * (-len(blob) % 4)
    return struct.pack("<III", 0x46546C67, 2, 28 + len(j) + len(blob)) + struct.pack("<II", len(j), 0x4E4F534A) + j + struct.pack("<II", len(blob), 0x004E4942) + blob


def column_matrix(node):
    if "matrix" in node:
        return np.array(node["matrix"], np.float64).reshape(4, 4).T
    m = np.eye(4)
    s = np.diag(list(node.get("scale", (1, 1, 1))) + [1.0])
    x, y, z, w = node.get("rotation", (0, 0, 0, 1))
    r = np.eye(4)
    r[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                 [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    m[:3, 3] = node.get("translation", (0, 0, 0))
    return m @ r @ s


H = 0.5 ** 0.5
XFORMS = [
    {}, {"translation": [1.0, -2.0, 0.5]}, {"scale": [2.0, 3.0, 0.5]}, {"rotation": [0.0, 0.0, H, H]}, {"rotation": [0.5, 0.5, 0.5, 0.5], "translation": [1.0, 2.0, 3.0]},
    {"scale": [1.0, 2.0, 4.0], "rotation": [H, 0.0, 0.0, H], "translation": [-1.0, 0.0, 5.0]},
    {"matrix": [1.0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 3.0, 4.0, 5.0, 1]}, {"matrix": [0, 2.0, 0, 0, -1.0, 0, 0, 0, 0, 0, 1.5, 0, 0.5, 0.25, -1.0, 1]},
]
POS = [[0.0, 0.5, 1.0], [1.0, -1.0, 0.25], [2.0, 0.75, -0.5], [0.1, 0.2, 0.3], [5.0, 6.0, 7.0], [-1.0, 0.0, 2.0]]


def run_gltf(case, rec, d):
    layout, uri, it = case[1:4]
    path = os.path.join(d, "a.glb")
    I = IO()
    I.register_meshes_format(MeshGlbFormat())
    tris = [[0, 1, 2], [3, 2, 1], [4, 5, 0]]
    for colour in (None, ("f4", 3), ("f4", 4), ("u1", 4), ("u2", 4), ("u1", 3), ("u2", 3)):
        if colour in (("u1", 3), ("u2", 3)) and layout == "interleaved" and False:
            continue
        for F in (1, 2, 3):
            col = None
            if colour:
                raw = np.array(COL + [[9, 8, 7, 6]])[:, : colour[1]]
                col = raw / 255.0 if colour[0] == "f4" else raw * (257 if colour[0] == "u2" else 1)
            ct = {"f4": 5126, "u1": 5121, "u2": 5123}[colour[0]] if colour else None
            for x1, x2 in itertools.product(range(len(XFORMS)), repeat=2) if F == 2 and (layout == "plain" or len(case) == 5) and colour in (None, ("f4", 3)) else [(0, 0), (5, 1)]:
                idx = None if it is None else tris[:F]
                pos = POS if it is not None else POS[: 3 * (F if F < 3 else 2)]
                cc = None if col is None else col[: len(pos)]
                second = ([[v * 2 for v in p] for p in POS[:3]], None if it is None else [[2, 1, 0]], None if cc is None else cc[:3], ct)
                meshes = [[(pos, idx, cc, ct), second], [second]]
                nodes = [dict(XFORMS[x1], mesh=0, children=[2]), {"mesh": 1}, dict(XFORMS[x2], mesh=1)]
                data = gltf(meshes, nodes, [0, 1], layout, uri, it)
                with open(path, "wb") as f:
                    f.write(data)
                tag = "glTF %s indices %s, colours %s, %d faces, transforms %d %d" % (case[1:], it, colour, F, x1, x2)
                m1 = column_matrix(nodes[0])
                m2 = m1 @ column_matrix(nodes[2])
                want = [("m0", meshes[0][0], m1), ("m0", second, m1), ("m1", second, np.eye(4)), ("m1", second, m2)]
                with limit(tag):
                    got = load_meshes(path, PathManager())
                    expect([n for n, _ in got] == [n for n, _, _ in want], lambda: "%s: meshes are %s" % (tag, [n for n, _ in got]))
                    for (_, m), (_, (p, i, c, _ct), mat) in zip(got, want):
                        w = (np.asarray(p, np.float64) @ mat[:3, :3].T) + mat[:3, 3]
                        expect_close(tag + ": vertices", m.verts_list()[0], torch.tensor(w, dtype=torch.float32), atol=1e-5)
                        wi = i if i is not None else np.arange(len(p)).reshape(-1, 3).tolist()
                        expect(m.faces_list()[0].tolist() == [list(t) for t in wi], lambda: "%s: faces are %s, want %s" % (tag, m.faces_list()[0].tolist(), wi))
                        if c is not None:
                            wc = np.asarray(c, np.float64) / {5126: 1, 5121: 255, 5123: 65535}[_ct]
                            expect(isinstance(m.textures, TexturesVertex), tag + ": colours are missing")
                            expect_close(tag + ": colours", m.textures.verts_features_list()[0], torch.tensor(wc, dtype=torch.float32), atol=1e-6)
                        else:
                            expect(m.textures is None, tag + ": colours appear")
                    whole = I.load_mesh(path)
                    expect_close(tag + ": joined vertices", whole.verts_packed(), torch.cat([m.verts_packed() for _, m in got]), atol=0)
                    off, wf = 0, []
                    for _, m in got:
                        wf += (m.faces_packed() + off).tolist()
                        off += len(m.verts_packed())
                    expect(whole.faces_packed().tolist() == wf, tag + ": joined faces")
                rec.step(2)
                if (x1, x2) == (0, 0) and not uri:
                    for k in range(0, len(data), 7):
                        with open(path, "wb") as f:
                            f.write(data[:k])
                        if k < len(data) - 3:
                            refused("%s cut to %d of %d bytes" % (tag, k, len(data)), lambda: load_meshes(path, PathManager()))
                            rec.step()
                rec.trace()
    rec.state(case)


# ---------------------------------------------------------------- dispatch

class Custom(MeshFormatInterpreter):
    def __init__(self, log, name, accept):
        self.log, self.name, self.accept = log, name, accept
        self.known_suffixes = (".ply",)

    def read(self, path, include_textures, device, path_manager, **kwargs):
        self.log.append(self.name)
        return Meshes([torch.zeros(3, 3)], [torch.tensor([[0, 1, 2]])]) if self.accept(str(path)) else None

    def save(self, data, path, path_manager, binary, **kwargs):
        self.log.append(self.name)
        return self.accept(str(path))


class CustomCloud(PointcloudFormatInterpreter):
    def __init__(self, log, name, accept):
        self.log, self.name, self.accept = log, name, accept

    def read(self, path, device, path_manager, **kwargs):
        self.log.append(self.name)
        return Pointclouds([torch.zeros(3, 3)]) if self.accept(str(path)) else None

    def save(self, data, path, path_manager, binary, **kwargs):
        self.log.append(self.name)
        return self.accept(str(path))


def run_dispatch(case, rec, d):
    perm = case[1]
    kinds = {"obj": MeshObjFormat, "off": MeshOffFormat, "ply": MeshPlyFormat, "glb": MeshGlbFormat}
    el, want = vertex_element(5, ("x", "y", "z"), ("float",) * 3, [], "after")
    files = {"ply": ply("le", [el, ["face", [("vertex_indices", "int", "uchar")], [[(0, 1, 2)]]]])[0],
             "obj": ("".join("v %r %r %r\n" % tuple(r) for r in FRAC) + "f 1 2 3\n").encode(),
             "off": ("OFF\n5 1 0\n" + "".join("%r %r %r\n" % tuple(r) for r in FRAC) + "3 0 1 2\n").encode().replace(b"np.float64(", b"").replace(b")", b""),
             "glb": gltf([[(FRAC, [[0, 1, 2]], None, None)]], [{"mesh": 0}], [0], "plain", False, 5125)}
    files["obj"] = files["obj"].replace(b"np.float64(", b"").replace(b")", b"")
    for present in itertools.product((0, 1), repeat=len(perm)):
        I = IO(include_default_formats=False)
        have = [k for k, on in zip(perm, present) if on]
        for k in have:
            I.register_meshes_format(kinds[k]())
        for k in kinds:
            for suffix in (k, k.upper(), k.capitalize()):
                for conv in (str, pathlib.Path):
                    for stem in ("a", "a.ply", "x.obj.off", "dir.ply/a") if sum(present) == 4 or len(case) == 3 else ("x.obj.off",):
                        p = os.path.join(d, stem + "." + suffix)
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, "wb") as f:
                            f.write(files[k])
                        tag = "reading %s with readers %s" % (stem + "." + suffix, have)
                        if k in have:
                            with limit(tag):
                                m = I.load_mesh(conv(p))
                            expect_close(tag, m.verts_list()[0], torch.tensor(FRAC, dtype=torch.float32), atol=1e-6)
                            q = conv(os.path.join(d, "out." + suffix))
                            I.save_mesh(m, q)
                            with open(q, "rb") as f:
                                got = f.read(4)
                            ok = {"ply": got[:3] == b"ply", "obj": got[:2] == b"v ", "off": got[:3] == b"off", "glb": got == b"glTF"}[k]
                            expect(ok, tag + ": saved as something else")
                        else:
                            refused(tag, lambda: I.load_mesh(conv(p)))
                            refused(tag + " (saving)", lambda: I.save_mesh(Meshes([torch.zeros(3, 3)], [torch.tensor([[0, 1, 2]])]), conv(p)))
                        rec.step()
        # later readers come first, and those which decline pass on
        for accepts in itertools.product((False, True), repeat=3):
            for cloud in (False, True):
                log = []
                J = IO(include_default_formats=bool(sum(present) % 2))
                for i, a in enumerate(accepts):
                    (J.register_pointcloud_format if cloud else J.register_meshes_format)((CustomCloud if cloud else Custom)(log, i, lambda p, a=a: a and p.endswith(".zzz")))
                call = (J.load_pointcloud if cloud else J.load_mesh, J.save_pointcloud if cloud else J.save_mesh)
                obj = Pointclouds([torch.zeros(3, 3)]) if cloud else Meshes([torch.zeros(3, 3)], [torch.tensor([[0, 1, 2]])])
                for k in (0, 1):
                    del log[:]
                    go = (lambda: call[0](os.path.join(d, "a.zzz"))) if k == 0 else (lambda: call[1](obj, os.path.join(d, "b.zzz")))
                    order = []
                    for i in (2, 1, 0):
                        order.append(i)
                        if accepts[i]:
                            break
                    tag = "%s %s, readers accept %s" % ("cloud" if cloud else "mesh", "load" if k == 0 else "save", accepts)
                    if any(accepts):
                        go()
                    else:
                        refused(tag, go)
                    expect(log == order, lambda: "%s: asked %s, want %s" % (tag, log, order))
                    rec.step()
        rec.trace()
    for bad in (object(), None, MeshPlyFormat):
        refused("registering %r" % (bad,), lambda: IO().register_meshes_format(bad))
        refused("registering %r" % (bad,), lambda: IO().register_pointcloud_format(bad))
    refused("registering a cloud format for meshes", lambda: IO().register_meshes_format(PointcloudPlyFormat()))
    rec.state(case)


def cases(tier):
    out = [["plyverts", f, a] + ([a] if tier == "thorough" else []) for f in ("ascii", "le", "be") for a in ATTRS]
    out += [["plyfaces", f, p] for f in ("ascii", "le", "be") for p in POLYS]
    out += [["plyelements", f, u] for f in ("ascii", "le", "be") for u in UNKNOWN]
    out += [["plybad", f, u, p] for f in ("ascii", "le", "be") for u in ("fixed", "lists", "list and scalars", "equal lists") for p in ("tris", "mixed")]
    out += [["obj", s, r, p, k] for s in ("v", "vt", "vn", "vtn") for r in ("abs", "rel", "mix", "last") for p in ("first", "reversed", "interleaved") for k in POLYS]
    out += [["objmat", x] for x in (False, True)] + [["objbad"]]
    out += [["off", v, f, p] for v in ("none", "i3", "i4", "f3", "f4") for f in ("none", "i3", "i4", "f3", "f4") for p in POLYS]
    out += [["gltf", l, u, i] + (["all"] if tier == "thorough" else []) for l in ("plain", "offset", "strided", "interleaved") for u in (False, True) for i in (None, 5121, 5123, 5125)]
    out += [["dispatch", list(p)] + (["all"] if tier == "thorough" else []) for p in itertools.permutations(("obj", "off", "ply", "glb"))]
    return out


def run(case, rec):
    d = tempfile.mkdtemp(prefix="c28-", dir="/tmp")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn = case[0]
            if fn == "plyverts":
                run_plyverts(case if len(case) == 4 else case, rec, d)
            else:
                globals()["run_" + fn](case, rec, d)
    finally:
        shutil.rmtree(d)
    rec.sample({"case": case})
