"""C31: frame datasets select and index exactly the frames matching their filters.

Every small annotation table x every combination of filters is written to disk, loaded by the real JsonIndexDataset and
SqlIndexDataset, and compared with a relational model (lists of rows and comprehensions); every look-up the data sets
offer is then made on every row. FrameData: every image / depth resolution x crop box x output size on small rasters.
"""
import dataclasses
import gzip
import itertools
import json
import logging
import os
import shutil
import tempfile
import warnings

import numpy as np
import torch

from mc.core import Violation, expect, expect_close, expect_raises

PROPERTY = "C31"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
BOUNDS = {
    "quick": "tables of 3 frames in up to 3 sequences (all 27 assignments) x 27 labellings (2 subsets, empty mask) x "
             "98 filter combinations (at most two filters active) for the JSON data set; 8 tables x 110 combinations "
             "for SQL; look-ups: all orders of all sub-lists of 4 frames; temporal order: 4 frames x all timestamp "
             "patterns x all file orders x subset filters; eval batches, joins; FrameData: rasters up to 8 x 8 x all "
             "boxes on a grid x 3 depth resolutions x output sizes; boxes of all masks on three rasters; all combinations of files present and data asked for; collation of all batches of up to 3",
    "thorough": "all 630 filter combinations for JSON and 1000 for SQL, 4 labels, 5 timestamp patterns",
}
ASSUMPTIONS = [
    "each frame is listed in at most one subset, frame numbers are unique within a sequence, masks have mass 0 or well "
    "above 1 (or unknown, for SQL); n_frames_per_sequence may pick any frames but exactly min(n, available) of them, "
    "the same ones for the same seed",
    "image path look-ups use normalised paths",
]
warnings.filterwarnings("ignore")
SUBSETS = {"a": "train_known", "b": "test_unseen"}


def _lib():
    for name in ("pytorch3d.implicitron.dataset.json_index_dataset", "pytorch3d.implicitron.dataset.sql_dataset"):
        logging.getLogger(name).setLevel(logging.ERROR)
    from pytorch3d.implicitron.dataset import types
    from pytorch3d.implicitron.dataset.json_index_dataset import JsonIndexDataset
    from pytorch3d.implicitron.dataset.sql_dataset import SqlIndexDataset

    return types, JsonIndexDataset, SqlIndexDataset


SEQS = ["s1", "s0", "s2"]  # order of the sequence file; not sorted by name
CATS = {"s1": "cup", "s0": "ball", "s2": "cup"}


def make_rows(assign, labels, numbers=None, stamps=None):
    """rows in file order; label = subset letter (a, b, - for none) + mask (1 full, 0 empty, ? unknown)"""
    rows, per = [], {}
    for k, (s, lab) in enumerate(zip(assign, labels)):
        seq = SEQS[s]
        i = per.get(seq, 0)
        per[seq] = i + 1
        number = numbers[k] if numbers else [4, 0, 7, 2][i]
        stamp = stamps[k] if stamps else [0.25, 0.0, 0.5, 0.125][i]
        rows.append(dict(seq=seq, number=number, stamp=stamp, subset=SUBSETS.get(lab[0]), k=k,
                         mass={"1": 100.0, "0": 0.0, "?": None}[lab[1]],
                         path="%s/img_%03d.png" % (seq, number)))
    return rows


def ident(r):
    return (r["seq"], r["number"])


def pose(k):
    c, s = np.cos(0.3 + k), np.sin(0.3 + k)
    return ((float(c), float(-s), 0.0), (float(s), float(c), 0.0), (0.0, 0.0, 1.0)), (0.5 * k, 1.0 + k, 2.0)


def frame_annotation(types, r):
    R, T = pose(r["k"])
    return types.FrameAnnotation(
        sequence_name=r["seq"], frame_number=r["number"], frame_timestamp=r["stamp"],
        image=types.ImageAnnotation(path=r["path"], size=(6, 8)),
        mask=types.MaskAnnotation(path="m%d.png" % r["k"], mass=r["mass"], bounding_box_xywh=(1.0, 1.0, 4.0, 3.0)),
        viewpoint=types.ViewpointAnnotation(R=R, T=T, focal_length=(1.5 + r["k"], 2.0), principal_point=(0.25, -0.5),
                                            intrinsics_format="ndc_isotropic"))


def write_tables(root, rows, types, seqs=None, sql=False, subset_db=False):
    """the two annotation files, the subset lists and (for sql) the data base"""
    seqs = SEQS if seqs is None else seqs
    fas = [frame_annotation(types, r) for r in rows]
    sas = [types.SequenceAnnotation(sequence_name=s, category=CATS[s],
                                    viewpoint_quality_score=0.5 + SEQS.index(s)) for s in seqs]
    lists = {v: [] for v in SUBSETS.values()}
    for r in rows:
        if r["subset"]:
            lists[r["subset"]].append((r["seq"], r["number"], r["path"]))
    with open(root + "/lists.json", "w") as f:
        json.dump(lists, f)
    if not sql:
        for name, objs in (("frames.jgz", fas), ("seqs.jgz", sas)):
            with gzip.open(root + "/" + name, "wt", compresslevel=1) as f:
                types.dump_dataclass(objs, f)
        return
    import sqlalchemy as sa
    from sqlalchemy.orm import Session
    from pytorch3d.implicitron.dataset import orm_types

    if os.path.exists(root + "/db.sqlite"):
        os.remove(root + "/db.sqlite")
    engine = sa.create_engine("sqlite:///" + root + "/db.sqlite")
    orm_types.Base.metadata.tables["frame_annots"].create(engine)
    orm_types.Base.metadata.tables["sequence_annots"].create(engine)
    with Session(engine) as session:
        for r, fa in zip(rows, fas):
            session.add(orm_types.SqlFrameAnnotation(
                sequence_name=fa.sequence_name, frame_number=fa.frame_number, frame_timestamp=fa.frame_timestamp,
                image=fa.image, depth=types.DepthAnnotation(None, None, None), mask=fa.mask, viewpoint=fa.viewpoint))
            session.flush()
        for s in sas:
            session.add(orm_types.SqlSequenceAnnotation(
                sequence_name=s.sequence_name, category=s.category, video=types.VideoAnnotation(None, None),
                point_cloud=types.PointCloudAnnotation("%s.ply" % s.sequence_name, 0.5, 10),
                viewpoint_quality_score=s.viewpoint_quality_score))
            session.flush()
        session.commit()
    if subset_db:
        with engine.connect() as c:
            pass
        if os.path.exists(root + "/lists.sqlite"):
            os.remove(root + "/lists.sqlite")
        e2 = sa.create_engine("sqlite:///" + root + "/lists.sqlite")
        t = sa.Table("set_lists", sa.MetaData(), sa.Column("sequence_name", sa.String),
                     sa.Column("frame_number", sa.Integer), sa.Column("_image_path", sa.String),
                     sa.Column("subset", sa.String))
        t.create(e2)
        with e2.connect() as c:
            for sub, entries in lists.items():
                for seq, num, path in entries:
                    c.execute(t.insert().values(sequence_name=seq, frame_number=num, _image_path=path, subset=sub))
            c.commit()
        e2.dispose()
    engine.dispose()


NO_BLOBS = dict(load_images=False, load_depths=False, load_depth_masks=False, load_masks=False, box_crop=False,
                image_height=None, image_width=None)


def json_ds(J, root, **kw):
    return J(frame_annotations_file=root + "/frames.jgz", sequence_annotations_file=root + "/seqs.jgz",
             subset_lists_file=root + "/lists.json", dataset_root=root, **NO_BLOBS, **kw)


def sql_ds(S, root, lists="lists.json", **kw):
    return S(sqlite_metadata_file=root + "/db.sqlite", subset_lists_file=root + "/" + lists, dataset_root=root,
             frame_data_builder_FrameDataBuilder_args=dict(NO_BLOBS), **kw)


# ---------------------------------------------------------------- relational models
def model_json(rows, f, seqs=None):
    """(frames, sequences in order) before frame sampling; None when no frame is in the requested subsets"""
    names = list(SEQS if seqs is None else seqs)
    if f.get("remove"):
        rows = [r for r in rows if r["mass"] > 1]
    if f.get("subsets"):
        rows = [r for r in rows if r["subset"] in f["subsets"]]
        if not rows:
            return None
        names = [s for s in names if any(r["seq"] == s for r in rows)]
    if f.get("cat"):
        names = [s for s in names if CATS[s] in f["cat"]]
    if f.get("pick"):
        names = [s for s in names if s in f["pick"]]
    if f.get("exclude"):
        names = [s for s in names if s not in f["exclude"]]
    if f.get("limit_seq"):
        names = names[: f["limit_seq"]]
    return [r for r in rows if r["seq"] in names]


def model_sql(rows, f):
    names = list(SEQS)
    if f.get("cat"):
        names = [s for s in names if CATS[s] in f["cat"]]
    if f.get("pick"):
        names = [s for s in names if s in f["pick"]]
    if f.get("exclude"):
        names = [s for s in names if s not in f["exclude"]]
    if f.get("seq_clause"):
        names = [s for s in names if s in ("s0", "s2")]
    if f.get("subsets"):  # the subsets apply before every other filter, the limits included
        names = [s for s in names if any(r["seq"] == s and r["subset"] in f["subsets"] for r in rows)]
    if f.get("per_cat"):
        seen, keep = {}, []
        for s in names:
            seen[CATS[s]] = seen.get(CATS[s], 0) + 1
            if seen[CATS[s]] <= f["per_cat"]:
                keep.append(s)
        names = keep
    if f.get("limit_seq"):
        names = names[: f["limit_seq"]]
    rows = [r for r in rows if r["seq"] in names]
    if f.get("subsets"):
        rows = [r for r in rows if r["subset"] in f["subsets"]]
    if f.get("remove"):
        rows = [r for r in rows if r["mass"] is None or r["mass"] > 0]
    if f.get("clause") == "or":
        rows = [r for r in rows if r["number"] >= 4 or r["number"] == 0]
    elif f.get("clause"):
        rows = [r for r in rows if r["number"] >= 2]
    if f.get("limit_to"):
        rows = sorted(rows, key=ident)[: f["limit_to"]]
    return rows


def combos(options, at_most):
    """all filter dictionaries with at most that many active filters"""
    names = list(options)
    for n in range(at_most + 1):
        for active in itertools.combinations(names, n):
            for values in itertools.product(*[options[a] for a in active]):
                d = {}
                for v in values:
                    d.update(v)
                yield d


A, B = SUBSETS["a"], SUBSETS["b"]
SEQ_FILTERS = [{"pick": ("s0",)}, {"pick": ("s1", "s2")}, {"exclude": ("s0",)}, {"cat": ("cup",)}, {"limit_seq": 1},
               {"limit_seq": 2}]
JSON_OPTIONS = {
    "subsets": [{"subsets": [A]}, {"subsets": [B]}, {"subsets": [A, B]}, {"subsets": [B, A]}],
    "remove": [{"remove": True}],
    "seqs": SEQ_FILTERS,
    "n": [{"n": 1}, {"n": 2}],
    "limit": [{"limit_to": 1}, {"limit_to": 2}],
}
SQL_OPTIONS = {
    "subsets": [{"subsets": [A]}, {"subsets": [A, B]}],
    "remove": [{"remove": True}],
    "seqs": SEQ_FILTERS + [{"per_cat": 1}, {"pick": ("s0", "s1"), "cat": ("cup",)}],
    "n": [{"n": 1}, {"n": 2}, {"n": 0}],
    "limit": [{"limit_to": 1}, {"limit_to": 2}],
    "limit_seq": [{"limit_seq": 2}],
    "clause": [{"clause": True}, {"clause": "or"}],
    "seq_clause": [{"seq_clause": True}],
}


def json_kwargs(f):
    kw = dict(remove_empty_masks=bool(f.get("remove")))
    for a, b in (("subsets", "subsets"), ("pick", "pick_sequence"), ("exclude", "exclude_sequence"),
                 ("cat", "limit_category_to"), ("limit_seq", "limit_sequences_to"), ("n", "n_frames_per_sequence"),
                 ("limit_to", "limit_to")):
        if a in f:
            kw[b] = f[a]
    return kw


def sql_kwargs(f):
    kw = dict(remove_empty_masks=bool(f.get("remove")))
    for a, b in (("subsets", "subsets"), ("pick", "pick_sequences"), ("exclude", "exclude_sequences"),
                 ("cat", "pick_categories"), ("limit_seq", "limit_sequences_to"), ("n", "n_frames_per_sequence"),
                 ("limit_to", "limit_to"), ("per_cat", "limit_sequences_per_category_to")):
        if a in f:
            kw[b] = f[a]
    if f.get("clause"):
        kw["pick_frames_sql_clause"] = ("frame_annots.frame_number >= 2" if f["clause"] is True else
                                        "frame_annots.frame_number >= 4 OR frame_annots.frame_number = 0")
    if f.get("seq_clause"):
        kw["pick_sequences_sql_clause"] = "sequence_name = 's0' OR sequence_name = 's2'"
    return kw


# ---------------------------------------------------------------- observing one data set
def check_frame(fd, r, name, root, subset=True):
    expect((fd.sequence_name, int(fd.frame_number)) == ident(r),
           "%s: frame %s delivered as %s" % (name, ident(r), (fd.sequence_name, int(fd.frame_number))))
    expect(fd.sequence_category == CATS[r["seq"]], "%s: category %s of %s" % (name, fd.sequence_category, ident(r)))
    if r["stamp"] is None:
        expect(fd.frame_timestamp is None, "%s: made-up timestamp" % name)
    else:
        expect(abs(float(fd.frame_timestamp) - r["stamp"]) < 1e-6, "%s: timestamp of %s" % (name, ident(r)))
    if subset:
        expect(fd.frame_type == r["subset"], "%s: subset of %s is %r, want %r" % (name, ident(r), fd.frame_type,
                                                                                 r["subset"]))
    expect(fd.image_path == os.path.join(root, r["path"]), "%s: image path of %s" % (name, ident(r)))
    R, T = pose(r["k"])
    expect_close(name + ": camera R", fd.camera.R, torch.tensor(R)[None], 1e-5, 1e-5)
    expect_close(name + ": camera T", fd.camera.T, torch.tensor(T)[None], 1e-5, 1e-5)
    expect_close(name + ": focal", fd.camera.focal_length, torch.tensor([[1.5 + r["k"], 2.0]]), 1e-5, 1e-5)
    expect(abs(float(fd.camera_quality_score) - 0.5 - SEQS.index(r["seq"])) < 1e-6, "%s: quality" % name)
    expect(fd.image_size_hw.tolist() == [6, 8], "%s: image size" % name)


def check_order(ds, rows, order, name, subset_filters=(None,)):
    """order: row of every index of the data set"""
    for seq in {r["seq"] for r in rows}:
        for sf in subset_filters:
            want = [i for i, r in enumerate(order) if r["seq"] == seq and (sf is None or r["subset"] in sf)]
            got = [tuple(x) for x in ds.sequence_frames_in_order(seq, sf)]
            expect(sorted(g[2] for g in got) == sorted(want),
                   lambda: "%s: sequence_frames_in_order(%s, %s) gives indices %s, want %s" % (
                       name, seq, sf, [g[2] for g in got], want))
            for ts, no, idx in got:
                r = order[int(idx)]
                expect((int(no), float(ts)) == (r["number"], float(r["stamp"] or 0)),
                       lambda: "%s: sequence_frames_in_order(%s, %s) says index %s is frame %s at %s, it is %s at %s"
                       % (name, seq, sf, idx, no, ts, r["number"], r["stamp"]))
            keys = [(float(g[0]), int(g[1])) for g in got]
            expect(keys == sorted(keys), lambda: "%s: frames of %s out of order: %s" % (name, seq, keys))
            expect(list(ds.sequence_indices_in_order(seq, sf)) == [g[2] for g in got],
                   "%s: sequence_indices_in_order(%s, %s)" % (name, seq, sf))


def check_dataset(ds, want, name, root, rec, sql=False, subset=True):
    """want: rows the data set must hold (as a set). Returns the row at every index."""
    by = {ident(r): r for r in want}
    expect(len(ds) == len(want), lambda: "%s: %d frames, want %d (%s)" % (name, len(ds), len(want), sorted(by)))
    order = []
    for i in range(len(ds)):
        fd = ds[i]
        key = (fd.sequence_name, int(fd.frame_number))
        expect(key in by, lambda: "%s: holds frame %s, which the filters exclude" % (name, key))
        check_frame(fd, by[key], name, root, subset)
        order.append(by[key])
        rec.step()
    expect(len({ident(r) for r in order}) == len(order), "%s: a frame is listed twice" % name)
    expect_raises(lambda: ds[len(ds)], "%s: an index past the end is accepted" % name, (IndexError,))
    seqs = {r["seq"] for r in want}
    expect(set(ds.sequence_names()) == seqs, lambda: "%s: sequences %s, want %s" % (
        name, sorted(ds.sequence_names()), sorted(seqs)))
    cats = {k: sorted(v) for k, v in ds.category_to_sequence_names().items()}
    wcats = {}
    for s in sorted(seqs):
        wcats.setdefault(CATS[s], []).append(s)
    expect({k: v for k, v in cats.items()} == wcats or (not sql and _extra_seqs_ok(cats, wcats)),
           lambda: "%s: categories %s, want %s" % (name, cats, wcats))
    return order


def _extra_seqs_ok(cats, wcats):
    # sequences whose frames were all removed by their mask may stay listed in the JSON data set
    return all(set(v) <= set(cats.get(k, ())) for k, v in wcats.items())


def scratch():
    d = tempfile.mkdtemp(prefix="verif_c31_")
    return d


# ---------------------------------------------------------------- cases
def cases(tier):
    thorough = tier == "thorough"
    out = []
    labels = ["a1", "b1", "a0"] + (["-1"] if thorough else [])
    for assign in itertools.product(range(3), repeat=3):
        for first in labels:
            out.append({"kind": "json", "assign": assign, "first": first, "labels": labels,
                        "n": 5 if thorough else 2})
    sql_tables = [((0, 0, 1, 1, 2), ("a1", "b1", "a0", "a?", "b1")), ((1, 2, 0, 1, 2), ("a1", "a0", "a1", "b1", "a1")),
                  ((0, 0, 0, 0, 1), ("a1", "a1", "b0", "a1", "-1")), ((2, 1, 1, 0, 0), ("b?", "a1", "a1", "b1", "a0")),
                  ((1, 1, 1, 1), ("b1", "a1", "a1", "b1")), ((0, 1, 2), ("a1", "a1", "a1")),
                  ((2, 2, 0, 0), ("a0", "a0", "a1", "b1")), ((0, 2, 0, 2, 0), ("a1", "b1", "a1", "b0", "a1"))]
    for assign, lab in sql_tables:
        for part in range(4):
            out.append({"kind": "sql", "assign": assign, "labels": lab, "part": part, "n": 7 if thorough else 2})
    for first in range(4):
        out.append({"kind": "lookup", "first": first})
    stamps = [0.0, 0.5, None] + ([1.0, 0.25] if thorough else [])
    for perm in itertools.permutations(range(3)):
        out.append({"kind": "order", "perm": perm, "stamps": stamps, "sql": False})
    for perm in itertools.permutations(range(3)):
        out.append({"kind": "order", "perm": perm, "stamps": [0.0, 0.5, 1.0], "sql": True,
                    "labels": 2 if thorough else 1})
    out.append({"kind": "evaljson"})
    out.append({"kind": "evalsql"})
    for a in range(3):
        out.append({"kind": "join", "n": a})
    for hw in [(8, 8), (6, 8), (8, 4)] + ([(4, 8), (8, 6), (5, 7)] if thorough else []):
        for dscale in ([1, 2, 0.5] if hw != (5, 7) else [1]):
            out.append({"kind": "frame", "hw": hw, "dscale": dscale, "step": 1 if thorough else 2})
    out.append({"kind": "collate"})
    out += [{"kind": "maskbox", "part": i} for i in range(4)]
    out += [{"kind": "switches", "part": k} for k in range(4)]
    out += [{"kind": "blobs", "mode": m} for m in ("RGB", "RGBA", "L", "P", "LA")]
    for mode in ("json", "sql"):
        out.append({"kind": "sampled", "mode": mode})
    return out


def run(case, rec):
    root = scratch()
    try:
        globals()["run_" + case["kind"]](case, rec, root)
    finally:
        shutil.rmtree(root)


def run_json(case, rec, root):
    types, J, _ = _lib()
    fs = list(combos(JSON_OPTIONS, case["n"]))
    assign = case["assign"]
    for rest in itertools.product(case["labels"], repeat=len(assign) - 1):
        rows = make_rows(assign, (case["first"],) + rest)
        write_tables(root, rows, types)
        for f in fs:
            name = "JSON rows %s filters %s" % ([(ident(r), r["subset"], r["mass"]) for r in rows], f)
            rec.trace()
            if not rec.state([assign, case["first"], rest, sorted(f.items(), key=str)]):
                continue
            want = model_json(rows, f)
            if want is None:
                expect_raises(lambda: json_ds(J, root, **json_kwargs(f)), name + ": no error for an empty subset",
                              (ValueError,))
                continue
            ds = json_ds(J, root, **json_kwargs(f))
            n = f.get("n", -1)
            if n > 0:
                base = dict(f)
                base.pop("limit_to", None)
                full = json_ds(J, root, **json_kwargs(base))
                got = [(full.frame_annots[i]["frame_annotation"].sequence_name,
                        full.frame_annots[i]["frame_annotation"].frame_number) for i in range(len(full))]
                for seq in SEQS:
                    mine = [g for g in got if g[0] == seq]
                    avail = [ident(r) for r in want if r["seq"] == seq]
                    expect(len(set(mine)) == len(mine) == min(n, len(avail)) and set(mine) <= set(avail),
                           lambda: "%s: sampled %s of %s" % (name, mine, avail))
                want = [next(r for r in want if ident(r) == g) for g in got]
            if f.get("limit_to"):
                want = want[: f["limit_to"]]
            expect(ds.is_filtered() == any(v for k, v in f.items() if k != "subsets"),
                   lambda: "%s: is_filtered() is %s" % (name, ds.is_filtered()))
            order = check_dataset(ds, want, name, root, rec)
            if n <= 0 or f.get("limit_to"):
                expect([ident(r) for r in order] == [ident(r) for r in want],
                       lambda: "%s: order %s, want %s" % (name, [ident(r) for r in order], [ident(r) for r in want]))
            if not f.get("limit_to") and not f.get("n"):
                srt = json_ds(J, root, sort_frames=True, **json_kwargs(f))
                got = [ident(x) for x in _rows_of(srt, rows)]
                exp = [ident(r) for r in sorted(want, key=lambda r: (r["seq"], r["stamp"]))]
                expect(got == exp, lambda: "%s sorted: %s, want %s" % (name, got, exp))
    rec.sample({"assign": assign, "filters": len(fs)})


def _rows_of(ds, rows):
    by = {ident(r): r for r in rows}
    return [by[(e["frame_annotation"].sequence_name, e["frame_annotation"].frame_number)] for e in ds.frame_annots]


def run_sql(case, rec, root):
    types, J, S = _lib()
    rows = make_rows(case["assign"], case["labels"])
    write_tables(root, rows, types, sql=True, subset_db=True)
    write_tables(root, [dict(r, mass=50.0 if r["mass"] is None else r["mass"]) for r in rows], types)
    for q, f in enumerate(combos(SQL_OPTIONS, case["n"])):
        if q % 4 != case["part"]:
            continue
        name = "SQL rows %s filters %s" % ([(ident(r), r["subset"], r["mass"]) for r in rows], f)
        rec.trace()
        rec.state([case["assign"], case["labels"], sorted(f.items(), key=str)])
        want = model_sql(rows, f)
        lists = "lists.json" if q % 3 else "lists.sqlite"
        kw = sql_kwargs(f)
        if q % 5 == 4:
            kw["preload_metadata"] = True
        if q % 7 == 6:
            kw["scoped_session"] = True
        if not want:
            expect_raises(lambda: sql_ds(S, root, lists, **kw), name + ": no error for an empty data set", (Exception,))
            continue
        ds = sql_ds(S, root, lists, **kw)
        n = f.get("n", -1)
        if n > 0:
            keys = [tuple(k) for k in ds._index.index] if hasattr(ds, "_index") else None
            got = [(fd.sequence_name, int(fd.frame_number)) for fd in (ds[i] for i in range(len(ds)))]
            for seq in SEQS:
                mine = [g for g in got if g[0] == seq]
                avail = [ident(r) for r in want if r["seq"] == seq]
                expect(len(set(mine)) == len(mine) == min(n, len(avail)) and set(mine) <= set(avail),
                       lambda: "%s: sampled %s of %s" % (name, mine, avail))
            want = [next(r for r in want if ident(r) == g) for g in got]
            again = sql_ds(S, root, lists, **kw)
            expect([(fd.sequence_name, int(fd.frame_number)) for fd in (again[i] for i in range(len(again)))] == got,
                   "%s: the sampled frames change between runs" % name)
        listed = [r for r in rows if not f.get("subsets") or r["subset"] in f["subsets"]]
        expect(ds.is_filtered() or len(ds) == len(listed), name + ": is_filtered() denies that frames are missing")
        expect(ds.is_filtered() == any(v and v != -1 for k, v in f.items() if k != "subsets"),
               lambda: "%s: is_filtered() is %s" % (name, ds.is_filtered()))
        order = check_dataset(ds, want, name, root, rec, sql=True, subset=bool(f.get("subsets")))
        if f.get("subsets"):
            sfs = [None, [A], [B], [A, B]]
        else:
            sfs = [None]
        check_order(ds, want, order, name, sfs)
        inside = {ident(r) for r in want}
        for r in rows:
            key = ident(r)
            if key in inside:
                check_frame(ds[key], r, name + " by key", root, bool(f.get("subsets")))
                check_frame(ds[key[0], torch.tensor(key[1]), r["path"]], r, name + " by key and path", root, False)
                check_frame(ds.meta[key], r, name + " meta", root, bool(f.get("subsets")))
                expect_raises(lambda: ds[key[0], key[1], "other.png"], name + ": wrong image path accepted",
                              (IndexError,))
            else:
                expect_raises(lambda: ds[key], "%s: frame %s was filtered out but is served" % (name, key),
                              (IndexError,))
        for seq in {r["seq"] for r in want}:
            idx = [i for i, r in enumerate(order) if r["seq"] == seq]
            for sel in ([idx, idx[::-1]] if len(idx) > 1 else [idx]):
                got = [tuple(x) for x in ds.get_frame_numbers_and_timestamps(sel)]
                exp = [(order[i]["number"], order[i]["stamp"]) for i in sel]
                expect([(int(a), float(b)) for a, b in (g[:2] for g in got)] == exp and all(len(g) == 2 for g in got),
                       lambda: "%s: frame numbers and timestamps of %s are %s, want %s" % (name, sel, got, exp))
        # the JSON data set with the same filters holds the same frames
        if set(f) <= {"subsets", "remove", "pick", "exclude", "cat"}:
            j = json_ds(J, root, **json_kwargs(f))
            expect({ident(r) for r in _rows_of(j, rows)} == {ident(r) for r in want},
                   lambda: "%s: JSON and SQL data sets hold different frames" % name)
            rec.count("json_vs_sql")


def run_lookup(case, rec, root):
    """frame look-ups by (sequence, number) on every list of up to 3 frames, and the subsets built from them"""
    types, J, S = _lib()
    rows = make_rows((0, 1, 0, 1), ("a1", "b1", "a0", "b1"))
    write_tables(root, rows, types)
    for f in ({}, {"remove": True}, {"pick": ("s0",)}, {"subsets": [A]}):
        ds = json_ds(J, root, **json_kwargs(f))
        held = _rows_of(ds, rows)
        pos = {ident(r): i for i, r in enumerate(held)}
        queries = [ident(r) for r in rows] + [("s0", 99), ("s9", 0)]
        paths = {ident(r): r["path"] for r in rows}
        for k in range(0, 4):
            for q in itertools.product(range(len(queries)), repeat=k):
                if (q[0] % 4 if q else 0) != case["first"]:
                    continue
                keys = [queries[i] for i in q]
                rec.trace()
                rec.state([str(f), q])
                want = [pos.get(x) for x in keys]
                full = [x + (paths[x],) if x in paths and i % 2 else x for i, x in enumerate(keys)]
                name = "look-up %s with filters %s" % (full, f)
                batches = [full, full[::-1], full[:1]]
                wb = [want, want[::-1], want[:1]]
                if all(w is not None for w in want):
                    expect(ds.seq_frame_index_to_dataset_index(batches) == wb, name)
                else:
                    expect_raises(lambda: ds.seq_frame_index_to_dataset_index(batches), name + ": missing frame accepted",
                                  (IndexError,))
                got = ds.seq_frame_index_to_dataset_index(batches, allow_missing_indices=True)
                expect(got == wb, lambda: "%s: %s, want %s" % (name, got, wb))
                got = ds.seq_frame_index_to_dataset_index(batches, allow_missing_indices=True,
                                                          remove_missing_indices=True)
                ww = [[x for x in b if x is not None] for b in wb]
                ww = [b for b in ww if b]
                expect(got == ww, lambda: "%s (removing): %s, want %s" % (name, got, ww))
                rec.step(3)
                if len(set(q)) < len(q):
                    continue
                filtered = bool(set(f) - {"subsets"})
                if any(w is None for w in want) and not filtered:
                    expect_raises(lambda: ds.subset_from_frame_index(full), name + ": subset with a missing frame",
                                  (IndexError,))
                    continue
                before = [ident(r) for r in _rows_of(ds, rows)]
                sub = ds.subset_from_frame_index(full)
                exp = [x for x in keys if x in pos]
                srows = [next(r for r in rows if ident(r) == x) for x in exp]
                expect([ident(r) for r in _rows_of(sub, rows)] == exp, lambda: "%s: subset holds %s, want %s" % (
                    name, [ident(r) for r in _rows_of(sub, rows)], exp))
                check_dataset(sub, srows, name + " subset", root, rec)
                check_order(sub, srows, srows, name + " subset", (None, [A]))
                expect([ident(r) for r in _rows_of(ds, rows)] == before, "%s changed the data set" % name)
                sub.frame_annots[:] = []
                expect([ident(r) for r in _rows_of(ds, rows)] == before, "%s shares its frames" % name)


def run_order(case, rec, root):
    """temporal order within a sequence for every pattern of timestamps, numbers and file orders"""
    types, J, S = _lib()
    perm = case["perm"]
    sql = case["sql"]
    for stamps in itertools.product(case["stamps"], repeat=3):
        for labels in itertools.product(["a1", "b1"], repeat=3):
            if sql and labels not in (("a1", "b1", "a1"), ("a1", "a1", "b1"))[: case.get("labels", 2)]:
                continue
            rows = make_rows((0, 0, 0, 1), labels + ("a1",), [perm[0] * 2, perm[1] * 2, perm[2] * 2, 1],
                             list(stamps) + [0.75])
            rows = [rows[3]] + rows[:3] if stamps[0] else rows
            name = "%s numbers %s times %s labels %s" % ("SQL" if sql else "JSON", perm, stamps, labels)
            rec.trace()
            rec.state([perm, stamps, labels])
            write_tables(root, rows, types, sql=sql)
            fs = [{}, {"subsets": [A, B]}, {"subsets": [A, B], "n": 3}, {"n": 2}]
            for f in (fs if not sql else fs[(sum(perm[:2]) + int(sum(x or 0 for x in stamps) * 2)) % 2::2]):
                if sql:
                    ds = sql_ds(S, root, **sql_kwargs(f))
                    by = {ident(r): r for r in rows}
                    order = [by[(fd.sequence_name, int(fd.frame_number))] for fd in (ds[i] for i in range(len(ds)))]
                    sfs = [None] + ([[A], [B], [B, A]] if f.get("subsets") else [])
                else:
                    ds = json_ds(J, root, **json_kwargs(f))
                    order = _rows_of(ds, rows)
                    sfs = [None, [A], [B], [A, B]]
                check_order(ds, order, order, name + str(f), sfs)
                if not sql:
                    idx = list(range(len(order)))
                    for sf in sfs:
                        for sel in (idx, idx[::-1], idx[1:]):
                            got = ds.get_frame_numbers_and_timestamps(sel, sf)
                            exp = [(order[i]["number"], order[i]["stamp"] or 0) for i in sel
                                   if sf is None or order[i]["subset"] in sf]
                            expect([tuple(g) for g in got] == exp, lambda: "%s: numbers and times of %s (%s) are %s, "
                                   "want %s" % (name, sel, sf, got, exp))
                            rec.step()
                elif not f.get("n") and stamps[0] != stamps[2]:
                    pre = sql_ds(S, root, precompute_seq_to_idx=True, **sql_kwargs(f))
                    for seq in pre.sequence_names():
                        expect(list(pre.sequence_indices_in_order(seq)) == list(ds.sequence_indices_in_order(seq)),
                               "%s: precomputed index order of %s differs" % (name, seq))


def run_evaljson(case, rec, root):
    """evaluation batches refer to the right frames for all filters and frame orders"""
    types, J, S = _lib()
    for assign in itertools.product(range(2), repeat=4):
        rows = make_rows(assign, ("a1", "b1", "a1", "b0"))
        write_tables(root, rows, types)
        keys = [ident(r) for r in rows]
        batches = [[keys[3], keys[0]], [keys[1]], [keys[2], keys[1], keys[0]]]
        for f in ({}, {"remove": True}, {"subsets": [B, A]}, {"sort": True}):
            name = "eval batches of %s with %s" % (keys, f)
            kw = json_kwargs(f)
            kw["sort_frames"] = bool(f.get("sort"))
            rec.trace()
            rec.state([assign, str(f)])
            if f.get("remove"):
                expect_raises(lambda: json_ds(J, root, eval_batch_index=batches, **kw), name + ": missing frame",
                              (IndexError,))
                continue
            ds = json_ds(J, root, eval_batch_index=batches, **kw)
            got = [[_key(ds[i]) for i in b] for b in ds.get_eval_batches()]
            expect(got == batches, lambda: "%s: %s, want %s" % (name, got, batches))
            # subsets keep batches pointing at the same frames
            for drop in range(4):
                keep = [k for i, k in enumerate(keys) if i != drop]
                for order in (keep, keep[::-1]):
                    sub = ds.subset_from_frame_index(order)
                    eb = sub.get_eval_batches()
                    if eb is None:
                        continue
                    got = [[_key(sub[i]) for i in b if i is not None] for b in eb]
                    want = [[k for k in b if k != keys[drop]] for b in batches]
                    wfull = [b for b in batches if keys[drop] not in b]
                    expect(got in (want, [b for b in want if b], wfull),
                           lambda: "%s: batches of the subset without %s are %s" % (name, keys[drop], got))
                    rec.step()


def _key(fd):
    return (fd.sequence_name, int(fd.frame_number))


def run_join(case, rec, root):
    """joined data sets hold all frames, and the batches of each still refer to its own frames"""
    types, J, S = _lib()
    seqs = ["s1", "s0", "s2"]
    parts_rows = []
    for i, s in enumerate(seqs):
        rows = make_rows((i,) * (2 if i != 1 else 3), ("a1", "b1", "a1")[: (2 if i != 1 else 3)])
        for j, r in enumerate(rows):
            r["k"] = 10 * i + j
        parts_rows.append(rows)
    for order in itertools.permutations(range(3), case["n"] + 1):
        for evals in (False, True):
            dss, batches = [], []
            for i in order:
                d = root + "/p%d" % i
                os.makedirs(d, exist_ok=True)
                rows = parts_rows[i]
                write_tables(d, rows, types, [seqs[i]])
                keys = [ident(r) for r in rows]
                eb = [[keys[-1], keys[0]], [keys[0]]]
                batches += eb
                kw = dict(eval_batch_index=eb) if evals else {}
                dss.append(J(frame_annotations_file=d + "/frames.jgz", sequence_annotations_file=d + "/seqs.jgz",
                             subset_lists_file=d + "/lists.json", dataset_root=root, remove_empty_masks=False,
                             **NO_BLOBS, **kw))
            name = "joining data sets %s%s" % (order, " with eval batches" if evals else "")
            rec.trace()
            rec.state([order, evals])
            others = [[_key(ds[i]) for i in range(len(ds))] for ds in dss[1:]]
            if case["n"] == 0:
                joined = dss[0]
                continue
            dss[0].join(dss[1:])
            joined = dss[0]
            want = [r for i in order for r in parts_rows[i]]
            got = [_key(joined[i]) for i in range(len(joined))]
            expect(got == [ident(r) for r in want], lambda: "%s: frames %s" % (name, got))
            check_dataset(joined, want, name, root, rec)
            check_order(joined, want, want, name, (None, [A]))
            expect([[_key(ds[i]) for i in range(len(ds))] for ds in dss[1:]] == others, name + ": changed the others")
            if evals:
                got = [[_key(joined[i]) for i in b] for b in joined.get_eval_batches()]
                expect(got == batches, lambda: "%s: eval batches refer to %s, want %s" % (name, got, batches))
            else:
                expect(joined.get_eval_batches() is None, name)


def run_evalsql(case, rec, root):
    types, J, S = _lib()
    rows = make_rows((0, 1, 2, 0, 1), ("a1",) * 5)
    write_tables(root, rows, types, sql=True)
    keys = [ident(r) for r in rows]
    batches = [[list(keys[0]), list(keys[3])], [list(keys[1])], [list(keys[2])], [list(keys[4]), list(keys[1])]]
    with open(root + "/eval.json", "w") as f:
        json.dump(batches, f)
    picks = [(), ("s0",), ("s1",), ("s2", "s1"), ("s0", "s1", "s2")]
    cats = [(), ("cup",), ("ball",), ("cup", "ball"), ("cup", "none")]
    excl = [(), ("s0",), ("s1",), ("s2", "s0")]
    for p, c, e in itertools.product(picks, cats, excl):
        f = {k: v for k, v in (("pick", p), ("cat", c), ("exclude", e)) if v}
        want = model_sql(rows, f)
        if not want:
            continue
        name = "eval batches with %s" % f
        rec.trace()
        rec.state([p, c, e])
        ds = sql_ds(S, root, eval_batches_file=root + "/eval.json", **sql_kwargs(f))
        held = {ident(r) for r in want}
        wb = [b for b in batches if all(tuple(x) in held for x in b)]
        got = ds.get_eval_batches()
        expect(got == wb, lambda: "%s: %s, want %s" % (name, got, wb))
        for b in got:
            for x in b:
                expect(_key(ds[tuple(x)]) == tuple(x), name)
                rec.step()


def run_sampled(case, rec, root):
    """per-sequence sampling: right counts, reproducible, other seeds give other samples of the same kind"""
    types, J, S = _lib()
    rows = make_rows((0, 0, 0, 0, 1, 1), ("a1",) * 6, [3, 1, 2, 0, 5, 4], [0.3, 0.1, 0.2, 0.0, 0.5, 0.4])
    write_tables(root, rows, types)
    write_tables(root, rows, types, sql=True)
    mk = (lambda **k: json_ds(J, root, remove_empty_masks=False, **k)) if case["mode"] == "json" else (
        lambda **k: sql_ds(S, root, remove_empty_masks=False, **k))
    by = {ident(r): r for r in rows}
    for n in range(1, 6):
        seen = set()
        for seed in range(24):
            ds = mk(n_frames_per_sequence=n, seed=seed)
            keys = [_key(ds[i]) for i in range(len(ds))]
            again = mk(n_frames_per_sequence=n, seed=seed)
            name = "%s n_frames_per_sequence=%d seed=%d" % (case["mode"], n, seed)
            expect([_key(again[i]) for i in range(len(again))] == keys, name + ": not reproducible")
            counts = {s: len([k for k in keys if k[0] == s]) for s in ("s0", "s1")}
            expect(len(set(keys)) == len(keys) and counts == {"s1": min(4, n), "s0": min(2, n)},
                   lambda: "%s: %s" % (name, keys))
            order = [by[k] for k in keys]
            check_order(ds, order, order, name)
            seen.add(tuple(sorted(keys)))
            rec.trace()
            rec.state([case["mode"], n, seed])
        import math
        expect(len(seen) > 1 or math.comb(4, min(n, 4)) * math.comb(2, min(2, n)) == 1,
               "%s: the seed has no effect for n=%d" % (case["mode"], n))


# ---------------------------------------------------------------- frame data
def build_frame(types, root, hw, dhw, bbox, crop, context, out_hw, name="x"):
    from pytorch3d.implicitron.dataset.frame_data import FrameDataBuilder

    fa = types.FrameAnnotation(
        sequence_name="s", frame_number=3, frame_timestamp=0.5,
        image=types.ImageAnnotation(path="img.png", size=hw),
        depth=types.DepthAnnotation(path="depth.png", scale_adjustment=2.0, mask_path="dmask.png"),
        mask=types.MaskAnnotation(path="mask.png", mass=10.0, bounding_box_xywh=bbox),
        viewpoint=types.ViewpointAnnotation(R=((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), T=(0.0, 0.0, 0.0),
                                            focal_length=(1.5, 2.0), principal_point=(0.25, -0.125),
                                            intrinsics_format=name))
    sa = types.SequenceAnnotation(sequence_name="s", category="c", viewpoint_quality_score=0.5)
    b = FrameDataBuilder(dataset_root=root, box_crop=crop, box_crop_context=context,
                         image_height=None if out_hw is None else out_hw[0],
                         image_width=None if out_hw is None else out_hw[1])
    return b.build(fa, sa)


def write_images(root, hw, dhw):
    from PIL import Image

    H, W = hw
    img = np.zeros((H, W, 3), np.uint8)
    img[..., 0] = np.arange(W)[None] * 10 + 5
    img[..., 1] = np.arange(H)[:, None] * 10 + 5
    img[..., 2] = 200
    Image.fromarray(img).save(root + "/img.png")
    mask = (((np.arange(H)[:, None] * W + np.arange(W)[None]) % 3) * 100).astype(np.uint8)
    Image.fromarray(mask).save(root + "/mask.png")
    h, w = dhw
    depth = (np.arange(h)[:, None] * 16 + np.arange(w)[None] + 1).astype(np.float16)
    Image.fromarray(depth.view(np.uint16)).save(root + "/depth.png")
    dm = (((np.arange(h)[:, None] + np.arange(w)[None]) % 2) * 255).astype(np.uint8)
    Image.fromarray(dm).save(root + "/dmask.png")
    return (img.transpose(2, 0, 1).astype(np.float32) / 255, mask[None].astype(np.float32) / 255,
            depth[None].astype(np.float32) * 2, (dm[None] > 0).astype(np.float32))


def pixel_rays(camera, hw):
    """world-space directions through the centres of all pixels of an image of that size (isotropic NDC)"""
    H, W = hw
    s = min(H, W) / 2.0
    f, p = camera.focal_length[0].double(), camera.principal_point[0].double()
    x = (W / 2.0 - (torch.arange(W, dtype=torch.float64) + 0.5)) / s
    y = (H / 2.0 - (torch.arange(H, dtype=torch.float64) + 0.5)) / s
    dx, dy = (x - p[0]) / f[0], (y - p[1]) / f[1]
    return torch.stack(torch.meshgrid(dy, dx, indexing="ij"), -1)


def run_frame(case, rec, root):
    types, J, S = _lib()
    hw, ds = tuple(case["hw"]), case["dscale"]
    H, W = hw
    dhw = (int(H * ds), int(W * ds))
    img, mask, depth, dmask = write_images(root, hw, dhw)
    for fmt in ("ndc_isotropic", "ndc_norm_image_bounds"):
        for crop in (False, True):
            step = case["step"]
            boxes = [(x, y, w, h) for x in range(0, W - 1, step) for y in range(0, H - 1, step)
                     for w in (2, 4, W) for h in (2, 4, H)] if crop else [(1, 1, 2, 2)]
            for box in boxes:
                for ctx in ((0.0, 0.5) if crop and fmt == "ndc_isotropic" else (0.0,)):
                    bx = [box[0] - box[2] * ctx / 2, box[1] - box[3] * ctx / 2, box[2] * (1 + ctx), box[3] * (1 + ctx)]
                    x0, y0 = max(0, bx[0]), max(0, bx[1])
                    x1, y1 = min(W, bx[0] + bx[2]), min(H, bx[1] + bx[3])
                    if any(abs(v - round(v)) > 1e-6 for v in (x0, y0, x1, y1)):
                        continue  # rounding to pixels is not specified further
                    x0, y0, x1, y1 = (int(round(v)) for v in (x0, y0, x1, y1))
                    if not crop:
                        x0, y0, x1, y1 = 0, 0, W, H
                    if any((v * ds) % 1 for v in (x0, y0, x1, y1)):
                        continue
                    d0, e0, d1, e1 = (int(v * ds) for v in (x0, y0, x1, y1))
                    if d1 <= d0 or e1 <= e0 or x1 <= x0 or y1 <= y0:
                        continue
                    ch, cw = y1 - y0, x1 - x0
                    for out_hw in (None, (ch * 2, cw * 2), (ch * 2, cw * 4), (ch * 3, cw)):
                        name = "frame of %s, depth %s, crop %s box %s context %s, output %s, %s" % (
                            hw, dhw, crop, box, ctx, out_hw, fmt)
                        rec.trace()
                        rec.state([hw, dhw, crop, box, ctx, str(out_hw), fmt])
                        fd = build_frame(types, root, hw, dhw, tuple(float(b) for b in box), crop, ctx, out_hw, fmt)
                        check_raster(fd, (img[:, y0:y1, x0:x1], mask[:, y0:y1, x0:x1], depth[:, e0:e1, d0:d1],
                                          dmask[:, e0:e1, d0:d1]), out_hw, name)
                        # rays through the pixels of the delivered image = rays through those of the original
                        orig = torch.tensor([[1.5, 2.0]]), torch.tensor([[0.25, -0.125]])
                        if fmt == "ndc_norm_image_bounds":
                            sc = torch.tensor([W, H], dtype=torch.float32) / min(W, H)
                            orig = tuple(o * sc for o in orig)
                        from types import SimpleNamespace
                        full = pixel_rays(SimpleNamespace(focal_length=orig[0], principal_point=orig[1]), hw)
                        fc = full[y0:y1, x0:x1]
                        eff = tuple(fd.effective_image_size_hw.tolist())
                        expect(eff == ((ch, cw) if out_hw is None else out_hw), name + ": effective size %s" % (eff,))
                        got = pixel_rays(fd.camera, eff)
                        if out_hw is None:
                            expect_close(name + ": rays", got, fc, 1e-4, 1e-4)
                        else:
                            s = min(out_hw[0] // ch, out_hw[1] // cw)
                            # s x s pixels cover one source pixel: their mean ray is its ray
                            g = got[: ch * s, : cw * s].reshape(ch, s, cw, s, 2).mean((1, 3))
                            expect_close(name + ": rays", g, fc, 1e-4, 1e-4)
                        rec.step()


def check_raster(fd, want, out_hw, name):
    img, mask, depth, dmask = (torch.from_numpy(np.ascontiguousarray(w)) for w in want)
    if out_hw is None:
        expect_close(name + ": image", fd.image_rgb, img, 1e-6, 1e-6)
        expect_close(name + ": mask", fd.fg_probability, mask, 1e-6, 1e-6)
        expect_close(name + ": depth", fd.depth_map, depth, 1e-4, 1e-4)
        expect_close(name + ": depth mask", fd.depth_mask, dmask, 1e-6, 1e-6)
        return
    h, w = img.shape[-2:]
    s = min(out_hw[0] // h, out_hw[1] // w)
    inside = torch.zeros(1, *out_hw)
    inside[:, : h * s, : w * s] = 1
    expect_close(name + ": mask_crop", fd.mask_crop, inside, 1e-6, 1e-6)
    for label, got, src in (("mask", fd.fg_probability, mask), ("depth", fd.depth_map, depth),
                            ("depth mask", fd.depth_mask, dmask)):
        expect(tuple(got.shape) == (1,) + tuple(out_hw), "%s: %s has size %s" % (name, label, tuple(got.shape)))
        k = h * s / src.shape[-2]
        if abs(k - round(k)) > 1e-9 or k < 1:
            # down-sampled nearest: values come from the source, nothing outside the content
            expect(bool((got * (1 - inside) == 0).all()), "%s: %s outside the content" % (name, label))
            continue
        k = int(round(k))
        up = src.repeat_interleave(k, -1).repeat_interleave(k, -2)
        full = torch.zeros(1, *out_hw)
        full[:, : up.shape[-2], : up.shape[-1]] = up
        expect_close("%s: %s" % (name, label), got.float(), full, 1e-4, 1e-4)
    expect_close(name + ": padding", fd.image_rgb * (1 - inside), torch.zeros(3, *out_hw), 0, 0)
    expect_close(name + ": constant channel", fd.image_rgb[2:], inside * 200 / 255, 1e-5, 1e-5)
    # bilinear interpolation of a ramp: exact in the interior
    xs = ((torch.arange(w * s, dtype=torch.float32) + 0.5) / s - 0.5).clamp(0, w - 1)
    base = img[0, 0, 0] * 255
    expect_close(name + ": red ramp", fd.image_rgb[0, 0, : w * s] * 255, base + xs * 10, 1e-2, 1e-3)
    ys = ((torch.arange(h * s, dtype=torch.float32) + 0.5) / s - 0.5).clamp(0, h - 1)
    expect_close(name + ": green ramp", fd.image_rgb[1, : h * s, 0] * 255, img[1, 0, 0] * 255 + ys * 10, 1e-2, 1e-3)


def tight_box(on):
    ys, xs = np.nonzero(on)
    return (int(xs.min()), int(ys.min()), int(xs.max() + 1 - xs.min()), int(ys.max() + 1 - ys.min()))


def run_maskbox(case, rec, root):
    """a frame without a bounding box gets the tight box of its mask: every mask of a small raster"""
    from PIL import Image

    from pytorch3d.implicitron.dataset.frame_data import FrameDataBuilder
    from pytorch3d.implicitron.dataset.utils import get_bbox_from_mask

    types, J, S = _lib()
    for h, w, vals in ((2, 3, (0.0, 0.27, 1.0)), (3, 4, (0.0, 1.0)), (4, 2, (0.1, 0.9))):
        for k, flat in enumerate(itertools.product(vals, repeat=h * w)):
            if k % 4 != case["part"]:
                continue
            m = np.array(flat, np.float32).reshape(h, w)
            for thr in (0.4, 0.2, 0.95):
                # the highest level, at or below the threshold, which more than one pixel exceeds
                levels = [v for v in sorted(set(vals) - {0.0}, reverse=True) if (m >= v).sum() > 1]
                got = tuple(int(v) for v in get_bbox_from_mask(m[None], thr))
                name = "box of the mask %s at %s" % (m.tolist(), thr)
                above = (m > thr).sum()
                if above > 1:
                    expect(got == tight_box(m > thr), "%s is %s, want %s" % (name, got, tight_box(m > thr)))
                elif levels:
                    expect(got in [tight_box(m >= v) for v in levels], "%s is %s" % (name, got))
                else:
                    expect(got[0] >= 0 and got[1] >= 0 and got[2] > 0 and got[3] > 0 and got[0] + got[2] <= w and got[1] + got[3] <= h, "%s is %s" % (name, got))
                rec.step()
            rec.state([h, w, flat])
    # the same through a frame: crop to the box of the mask in the file
    h, w = 3, 4
    img = np.zeros((h, w, 3), np.uint8)
    img[..., 0], img[..., 1] = np.arange(w)[None] * 10 + 5, np.arange(h)[:, None] * 10 + 5
    Image.fromarray(img).save(root + "/img.png")
    b = FrameDataBuilder(dataset_root=root, box_crop=True, box_crop_context=0.0, image_height=None, image_width=None)
    sa = types.SequenceAnnotation(sequence_name="s", category="c")
    for k, flat in enumerate(itertools.product((0, 1), repeat=h * w)):
        if k % 16 != case["part"] * 4 or sum(flat) < 2:
            continue
        m = np.array(flat, np.uint8).reshape(h, w)
        Image.fromarray(m * 255).save(root + "/mask%d.png" % k)
        fa = types.FrameAnnotation(sequence_name="s", frame_number=3, frame_timestamp=0.5, image=types.ImageAnnotation(path="img.png", size=(h, w)),
                                   mask=types.MaskAnnotation(path="mask%d.png" % k, mass=None, bounding_box_xywh=None))
        x, y, bw, bh = tight_box(m)
        name = "frame with the mask %s" % m.tolist()
        if bw < 2 or bh < 2:
            expect_raises(lambda: b.build(fa, sa), name + ": a box of one pixel is not rejected", (ValueError,))
            continue
        fd = b.build(fa, sa)
        expect(fd.bbox_xywh.tolist() == [x, y, bw, bh], "%s: box %s, want %s" % (name, fd.bbox_xywh.tolist(), (x, y, bw, bh)))
        expect(fd.crop_bbox_xywh.tolist() == [x, y, bw, bh], "%s: cropped to %s, want %s" % (name, fd.crop_bbox_xywh.tolist(), (x, y, bw, bh)))
        expect_close(name + ": image", fd.image_rgb, torch.from_numpy(img.transpose(2, 0, 1) / 255.0)[:, y: y + bh, x: x + bw].float(), 1e-6, 1e-6)
        expect_close(name + ": mask", fd.fg_probability, torch.from_numpy(m[None].astype(np.float32))[:, y: y + bh, x: x + bw], 1e-6, 1e-6)
        # a second crop, in the coordinates of the first result
        if bw > 2:
            fd.crop_by_given_bbox_(0.0, torch.tensor([1.0, 0.0, bw - 1.0, float(bh)]))
            expect_close(name + ": second crop", fd.image_rgb, torch.from_numpy(img.transpose(2, 0, 1) / 255.0)[:, y: y + bh, x + 1: x + bw].float(), 1e-6, 1e-6)
            expect(fd.effective_image_size_hw.tolist() == [bh, bw - 1], name + ": size after the second crop")
        expect_raises(lambda: fd.crop_by_metadata_bbox_(0.0), name + ": the original box is applied to a cropped frame", (ValueError,))
        rec.trace()
        rec.step()


SWITCHES = [("load_images", (True, False)), ("load_depths", (True, False)), ("load_depth_masks", (True, False)), ("load_masks", (True, False)),
            ("load_point_clouds", (False, True)), ("max_points", (0, 3)), ("mask_images", (False, True)), ("mask_depths", (False, True)),
            ("image_height", (None, 5, 9)), ("image_width", (None, 7, 4)), ("box_crop", (False, True)), ("box_crop_mask_thr", (0.4, 0.95)), ("box_crop_context", (0.3, 0.0, 0.8))]


def run_switches(case, rec, root):
    """a data set builds its frames with exactly the settings it is given: any two of them changed together"""
    from PIL import Image

    from pytorch3d.implicitron.dataset.frame_data import FrameDataBuilder
    from pytorch3d.io import save_ply

    types, J, S = _lib()
    h, w = 6, 8
    g = np.arange(h * w).reshape(h, w)
    Image.fromarray(np.stack([g * 5, 255 - g * 3, g * 4], -1).astype(np.uint8)).save(root + "/img.png")
    m = np.zeros((h, w), np.uint8)
    m[1:5, 2:7], m[2:4, 3:6] = 150, 255
    Image.fromarray(m).save(root + "/mask.png")
    Image.fromarray((g.astype(np.float16) * 0.5).view(np.uint16)).save(root + "/depth.png")
    Image.fromarray((g % 2 * 200).astype(np.uint8)).save(root + "/dmask.png")
    save_ply(root + "/pcl.ply", torch.arange(15.0).view(5, 3))
    fas = [types.FrameAnnotation(sequence_name="s", frame_number=k, frame_timestamp=0.5 * k, image=types.ImageAnnotation(path="img.png", size=(h, w)),
                                 mask=types.MaskAnnotation(path="mask.png", mass=9.0, bounding_box_xywh=(1.0, 1.0, 6.0, 4.0) if k else None),
                                 depth=types.DepthAnnotation(path="depth.png", scale_adjustment=3.0, mask_path="dmask.png"),
                                 viewpoint=types.ViewpointAnnotation(R=tuple(map(tuple, np.eye(3).tolist())), T=(0.0, 0.0, 1.0), focal_length=(1.5, 1.25), principal_point=(0.1, -0.2)))
           for k in range(2)]
    sas = [types.SequenceAnnotation(sequence_name="s", category="c", point_cloud=types.PointCloudAnnotation("pcl.ply", 0.5, 5))]
    for name, objs in (("frames.jgz", fas), ("seqs.jgz", sas)):
        with gzip.open(root + "/" + name, "wt", compresslevel=1) as f:
            types.dump_dataclass(objs, f)
    base = {k: v[0] for k, v in SWITCHES}
    pairs = itertools.combinations([(k, v) for k, vs in SWITCHES for v in vs[1:]], 2)
    for n, changed in enumerate(itertools.chain([()], pairs)):
        if n % 4 != case["part"] or len({k for k, _ in changed}) < len(changed):
            continue
        kw = dict(base, **dict(changed))
        if kw["mask_images"] or kw["mask_depths"]:
            if not kw["load_masks"]:
                continue
        b = FrameDataBuilder(dataset_root=root, **kw)
        ds = J(frame_annotations_file=root + "/frames.jgz", sequence_annotations_file=root + "/seqs.jgz", dataset_root=root, remove_empty_masks=False, **kw)
        for k in range(2):
            out = []
            for build in (lambda: b.build(fas[k], sas[0]), lambda: ds[k]):
                torch.manual_seed(2)
                np.random.seed(2)
                try:
                    out.append(build())
                except ValueError as e:
                    out.append(str(type(e)))
            want, got = out
            name = "frame %d of a JSON data set with %s" % (k, dict(changed))
            expect(isinstance(want, str) == isinstance(got, str), "%s: %s" % (name, got))
            if isinstance(want, str):
                continue
            for key in ("image_rgb", "fg_probability", "depth_map", "depth_mask", "mask_crop", "crop_bbox_xywh", "bbox_xywh", "effective_image_size_hw", "image_size_hw"):
                x, y = getattr(got, key), getattr(want, key)
                expect((x is None) == (y is None), "%s: %s is %s" % (name, key, "missing" if x is None else "made up"))
                if y is not None:
                    expect_close("%s: %s" % (name, key), x, y, 1e-6, 1e-6)
            x, y = got.sequence_point_cloud, want.sequence_point_cloud
            expect((x is None) == (y is None), "%s: point cloud is %s" % (name, "missing" if x is None else "made up"))
            if y is not None:
                expect(x.points_packed().shape == y.points_packed().shape, "%s: %d points" % (name, len(x.points_packed())))
            expect_close(name + ": focal length", got.camera.focal_length, want.camera.focal_length, 1e-6, 1e-6)
            expect_close(name + ": principal point", got.camera.principal_point, want.camera.principal_point, 1e-6, 1e-6)
            rec.step()
        rec.state(sorted(kw.items(), key=str))
    rec.trace()


def run_blobs(case, rec, root):
    """every combination of what is on disk and what is asked for: the frame holds exactly the data of its own files"""
    from PIL import Image

    from pytorch3d.implicitron.dataset.frame_data import FrameDataBuilder
    from pytorch3d.implicitron.dataset.utils import load_pointcloud
    from pytorch3d.io import save_ply

    types, J, S = _lib()
    mode, h, w = case["mode"], 4, 6
    g = np.arange(h * w).reshape(h, w).astype(np.uint8)
    rgba = np.stack([g * 10, 255 - g * 3, g * 7, np.where(g % 3 == 1, 255, (g % 3) * 60)], -1).astype(np.uint8)
    src = {"RGB": rgba[..., :3], "RGBA": rgba, "L": rgba[..., 0], "P": g, "LA": rgba[..., [0, 3]]}[mode]
    im = Image.fromarray(src, mode if mode != "P" else None)
    if mode == "P":
        im = Image.fromarray(g).convert("P")
    im.save(root + "/img.png")
    rgb = {"RGB": rgba[..., :3], "RGBA": rgba[..., :3], "L": rgba[..., [0, 0, 0]], "P": g[..., None].repeat(3, -1), "LA": rgba[..., [0, 0, 0]]}[mode]
    rgb = torch.from_numpy(rgb.transpose(2, 0, 1).astype(np.float32) / 255)
    alpha = torch.from_numpy(rgba[..., 3].astype(np.float32) / 255)[None] if mode == "RGBA" else None
    mk = ((g % 4) * 80).astype(np.uint8)
    Image.fromarray(mk).save(root + "/mask.png")
    mask = torch.from_numpy(mk.astype(np.float32) / 255)[None]
    d = (g.astype(np.float16) * 0.5)
    Image.fromarray(d.view(np.uint16)).save(root + "/depth.png")
    depth = torch.from_numpy(d.astype(np.float32) * 3.0)[None]
    dm = (g % 2).astype(np.uint8)
    Image.fromarray(dm * 200).save(root + "/dmask.png")
    dmask = torch.from_numpy(dm.astype(np.float32))[None]
    pts = torch.arange(15.0).view(5, 3)
    save_ply(root + "/pcl.ply", pts)
    load_pointcloud.cache_clear()
    n = 0
    B = (False, True)
    for with_mask, with_depth, with_dmask, with_pcl in itertools.product(B, repeat=4):
        fa = types.FrameAnnotation(
            sequence_name="s", frame_number=3, frame_timestamp=0.5, image=types.ImageAnnotation(path="img.png", size=(h, w)),
            mask=types.MaskAnnotation(path="mask.png", mass=9.0, bounding_box_xywh=(1.0, 1.0, 3.0, 2.0)) if with_mask else None,
            depth=types.DepthAnnotation(path="depth.png", scale_adjustment=3.0, mask_path="dmask.png" if with_dmask else None) if with_depth else None)
        sa = types.SequenceAnnotation(sequence_name="s", category="c", point_cloud=types.PointCloudAnnotation("pcl.ply", 0.5, 5) if with_pcl else None)
        for li, ld, lm, lp, ldm in itertools.product(B, repeat=5):
            for mi, md in itertools.product(B, repeat=2):
                want_fg = mask if with_mask and lm else alpha if li else None
                name = "a %s image, %s, loading %s, masking %s" % (mode, dict(mask=with_mask, depth=with_depth, depth_mask=with_dmask, cloud=with_pcl),
                                                                dict(images=li, depths=ld, masks=lm, clouds=lp, depth_masks=ldm), dict(images=mi, depths=md))
                if want_fg is None and (mi and li or md and ld and with_depth):
                    continue  # nothing to mask with
                b = FrameDataBuilder(dataset_root=root, load_images=li, load_depths=ld, load_masks=lm, load_point_clouds=lp, load_depth_masks=ldm, max_points=0,
                                     mask_images=mi, mask_depths=md, box_crop=False, image_height=None, image_width=None)
                for blobs in B if n % 4 == 0 else (True,):
                    fd = b.build(fa, sa, load_blobs=blobs)
                    fg = want_fg if blobs else None

                    def same(what, got, want):
                        expect((got is None) == (want is None), "%s: %s is %s" % (name, what, "missing" if got is None else "made up"))
                        if want is not None:
                            expect_close("%s: %s" % (name, what), got, want, 1e-6, 1e-6)

                    same("image", fd.image_rgb, None if not (li and blobs) else rgb * fg if mi else rgb)
                    same("mask", fd.fg_probability, fg)
                    want_d = None if not (ld and with_depth and blobs) else depth * fg if md else depth
                    same("depth", fd.depth_map, want_d)
                    same("depth mask", fd.depth_mask, None if want_d is None else dmask if with_dmask and ldm else (want_d > 0).float())
                    expect((fd.sequence_point_cloud is not None) == (lp and with_pcl and blobs), "%s: point cloud" % name)
                    if fd.sequence_point_cloud is not None:
                        expect_close(name + ": points", fd.sequence_point_cloud.points_packed(), pts, 0, 0)
                    if with_mask:
                        expect(fd.bbox_xywh.tolist() == [1, 1, 3, 2], "%s: box %s" % (name, fd.bbox_xywh))
                    expect((fd.mask_path, fd.depth_path, fd.sequence_point_cloud_path) == (root + "/mask.png" if with_mask else None, root + "/depth.png" if with_depth else None,
                                                                                        root + "/pcl.ply" if with_pcl else None), name + ": paths")
                    other = fd.to("cpu") if n % 2 == 0 else fd.cpu()
                    for key in fd:
                        x, y = getattr(fd, key), getattr(other, key)
                        expect(type(x) is type(y) and (not isinstance(x, torch.Tensor) or bool((x == y).all())), "%s: %s after to()" % (name, key))
                    rec.step()
                n += 1
                rec.state([mode, with_mask, with_depth, with_dmask, with_pcl, li, ld, lm, lp, ldm, mi, md])
    rec.trace()


def run_collate(case, rec, root):
    """element i of every field of a collated batch is the field of frame i; a field some frame lacks is None"""
    from pytorch3d.implicitron.dataset.frame_data import FrameData
    from pytorch3d.renderer.cameras import PerspectiveCameras
    from pytorch3d.structures import Pointclouds

    clouds = [Pointclouds([torch.arange(3.0 * n).reshape(n, 3) + 100 * n]) for n in (2, 1, 3)]
    variants = []
    for k in range(3):
        for missing in ("", "depth", "camera", "pcl", "type"):
            variants.append((k, missing))

    def frame(pos, v):
        k, missing = v
        R, T = pose(k)
        return FrameData(
            frame_number=torch.tensor(10 * pos + k), sequence_name="s%d" % k, sequence_category="c%d" % (k % 2),
            frame_timestamp=torch.tensor(0.5 * pos), image_size_hw=torch.tensor([4 + k, 5]),
            image_path="p%d_%d" % (pos, k), image_rgb=torch.full((3, 2, 2), float(pos + 10 * k)),
            depth_map=None if missing == "depth" else torch.full((1, 2, 2), float(k) + pos),
            camera=None if missing == "camera" else PerspectiveCameras(R=torch.tensor(R)[None],
                                                                       T=torch.tensor(T)[None] + pos),
            sequence_point_cloud=None if missing == "pcl" else clouds[k],
            frame_type=None if missing == "type" else "t%d" % k, meta={"k": k, "pos": pos})

    for n in (1, 2, 3):
        for vs in itertools.product(variants, repeat=n):
            fds = [frame(i, v) for i, v in enumerate(vs)]
            name = "collating %s" % (vs,)
            rec.trace()
            rec.state(vs)
            out = FrameData.collate(fds)
            for key in ("frame_number", "frame_timestamp", "image_size_hw", "image_rgb", "depth_map"):
                vals = [getattr(f, key) for f in fds]
                got = getattr(out, key)
                if any(v is None for v in vals):
                    expect(got is None, "%s: %s" % (name, key))
                else:
                    expect_close("%s: %s" % (name, key), got, torch.stack(vals), 0, 0, dtype=True)
            for key in ("sequence_name", "sequence_category", "image_path", "frame_type"):
                vals = [getattr(f, key) for f in fds]
                got = getattr(out, key)
                if any(v is None for v in vals):
                    expect(got is None, "%s: %s" % (name, key))
                else:
                    expect(list(got) == vals, "%s: %s is %s" % (name, key, got))
            expect(out.mask_path is None and out.fg_probability is None, name + ": invented fields")
            expect(out.meta["k"].tolist() == [v[0] for v in vs] and out.meta["pos"].tolist() == list(range(n)),
                   name + ": meta")
            if any(v[1] == "camera" for v in vs):
                expect(out.camera is None, name + ": camera")
            else:
                expect_close(name + ": camera R", out.camera.R, torch.cat([f.camera.R for f in fds]), 0, 0)
                expect_close(name + ": camera T", out.camera.T, torch.cat([f.camera.T for f in fds]), 0, 0)
            if any(v[1] == "pcl" for v in vs):
                expect(out.sequence_point_cloud is None, name + ": point cloud")
            else:
                pts = out.sequence_point_cloud.points_list()
                ids = out.sequence_point_cloud_idx
                expect(len(ids) == n, name + ": point cloud index")
                for i, v in enumerate(vs):
                    expect_close(name + ": cloud of %d" % i, pts[int(ids[i])], clouds[v[0]].points_list()[0], 0, 0)
                expect(len(pts) == len({v[0] for v in vs}), name + ": point clouds repeated")
            back = out.to("cpu")
            expect(list(back.sequence_name) == list(out.sequence_name) and back.meta is out.meta, name + ": to")
            expect_close(name + ": to", back.image_rgb, out.image_rgb, 0, 0)
            rec.step()
