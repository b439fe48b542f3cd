"""C29: every class tree from a small grammar x every override, against a model of the configuration written out."""
import copy
import dataclasses
import enum
import itertools
import sys
import types
import warnings
from typing import Any, Dict, List, Optional, Tuple

import torch
from omegaconf import DictConfig, ListConfig, OmegaConf

from mc.core import Violation, expect

PROPERTY = "C29"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 4
BOUNDS = {
    "quick": "all pairs of 12 member kinds (configurable, optional enabled/disabled, pluggable with each default, optional pluggable, nested) x name "
             "pairs (one a prefix of the other) x 5 class forms (plain, nn.Module, fields or defaults or members overridden in a subclass, hooks); "
             "every single override and every pair of overrides for one-member trees, one override of every part for two-member trees, each built directly, after a YAML "
             "round trip and after removing unused parts; every order of expanding and querying; functions with every subset of 8 parameter kinds; "
             "registry look-ups for all class/name pairs; all registered Implicitron classes",
    "thorough": "as quick with all forms and name pairs and every override of every setting in every tree",
}
ASSUMPTIONS = [
    "settings hold what OmegaConf can express (numbers, strings, booleans, None, enums, tuples/lists/dicts of them); sequences are compared by their elements",
    "implementations are registered before the class that uses them is expanded, as documented",
    "no configurable member is called <pluggable member>_<suffix> (its settings cannot be told from those of an implementation called <suffix>)",
]


class Colour(enum.Enum):
    RED = "red"
    GREEN = "green"


MISSING = object()
# name -> (type, default factory, other value)
KINDS = {
    "n": (int, lambda: 9, 4), "x": (float, lambda: 0.5, -2.0), "s": (str, lambda: "abc", "a: b # c"), "bb": (bool, lambda: True, False),
    "on": (Optional[int], lambda: None, 3), "os": (Optional[str], lambda: "q", None), "t": (Tuple[int, int], lambda: (1, 2), (5, 6)),
    "tv": (Tuple[float, ...], lambda: (0.5,), (1.5, 2.5, 3.5)), "l": (List[int], lambda: [1, 2, 3], []), "d": (Dict[str, int], lambda: {"a": 1}, {"a": 7}),
    "e": (Colour, lambda: Colour.RED, Colour.GREEN), "lt": (Tuple[str, ...], lambda: (), ("u", "v w")),
}
SETS = [["n"], ["s", "t"], ["on", "e", "l", "bb"], ["d", "tv"], ["x", "os", "lt"], []]


def norm(v):
    if isinstance(v, (DictConfig, ListConfig)):
        v = OmegaConf.to_container(v)
    if isinstance(v, (list, tuple)):
        return [norm(i) for i in v]
    if isinstance(v, dict):
        return {k: norm(i) for k, i in v.items()}
    return v


# ------------------------------------------------------------------ specifications
class Spec:
    """A configurable class: what it declares, and the real class made of it."""

    def __init__(self, name, fields, members=(), base=None, module=False, hooks=None, redefine=None, real_base=None):
        from pytorch3d.implicitron.tools.config import Configurable, run_auto_creation

        self.name, self.own, self.members, self.base = name, dict(fields), list(members), base
        self.fields = dict(base.fields) if base else {}
        self.fields.update(fields)
        self.hooks = dict(base.hooks) if base else {}
        self.hooks.update(hooks or {})
        self.redefine = dict(base.redefine) if base else {}
        self.redefine.update(redefine or {})
        self.all_members = (base.all_members if base else []) + self.members
        ns = {"__annotations__": {}, "__module__": __name__}
        an = ns["__annotations__"]
        for k, (ty, df) in fields.items():
            an[k] = ty
            v = df()
            ns[k] = dataclasses.field(default_factory=df) if isinstance(v, (list, dict)) else v
        for m in self.members:
            an[m.name] = m.annotation()
            m.declare(ns, an)
        for k, v in (redefine or {}).items():
            an[k] = Optional[str] if k.endswith("_class_type") else bool
            ns[k] = v
        for k, f in (hooks or {}).items():
            ns[k + "_tweak_args"] = staticmethod(f) if False else classmethod(lambda cls, ty, args, f=f: f(args))
        if self.all_members or module:

            def post(self_):
                run_auto_creation(self_)
            ns["__post_init__"] = post
        bases = (base.cls,) if base else ((real_base or Configurable),)
        if module and not (base and issubclass(base.cls, torch.nn.Module)):
            bases = bases + (torch.nn.Module,)
        self.cls = type(name, bases, ns)


class Member:
    def __init__(self, name, kind, spec=None, impls=None, default=None, base_cls=None):
        self.name, self.kind, self.spec, self.impls, self.default, self.base_cls = name, kind, spec, impls, default, base_cls

    def annotation(self):
        t = self.spec.cls if self.spec else self.base_cls
        return Optional[t] if self.kind[0] == "o" else t

    def declare(self, ns, an):
        if self.kind == "oconf":
            an[self.name + "_enabled"] = bool
            ns[self.name + "_enabled"] = self.default
        if self.kind in ("rep", "orep") and self.default is not MISSING:
            an[self.name + "_class_type"] = Optional[str] if self.kind == "orep" else str
            ns[self.name + "_class_type"] = self.default


def default_config(s):
    out = {k: norm(df()) for k, (ty, df) in s.fields.items()}
    for m in s.all_members:
        hook = s.hooks.get(m.name)

        def sub(x):
            c = default_config(x)
            if hook:
                hook(c)
            return norm(c)
        if m.kind in ("conf", "oconf"):
            if m.kind == "oconf":
                out[m.name + "_enabled"] = s.redefine.get(m.name + "_enabled", m.default)
            out[m.name + "_args"] = sub(m.spec)
        else:
            t = s.redefine.get(m.name + "_class_type", m.default)
            out[m.name + "_class_type"] = "UNDEFAULTED" if t is MISSING else t
            for i in m.impls:
                out["%s_%s_args" % (m.name, i.name)] = sub(i)
    return out


def check_object(tag, s, cfg, obj, loose=False):
    """obj is what the configuration says"""
    expect(type(obj) is s.cls, lambda: "%s: built a %s, want a %s" % (tag, type(obj).__name__, s.name))
    for k in s.fields:
        got, want = norm(getattr(obj, k)), cfg[k]
        if loose and isinstance(want, enum.Enum):
            want = [want, want.name]
            expect(got in want, lambda: "%s: %s.%s is %r, want %r" % (tag, s.name, k, got, want))
            continue
        expect(got == want and type(got) is type(want), lambda: "%s: %s.%s is %r, the configuration says %r" % (tag, s.name, k, got, want))
    for m in s.all_members:
        o = getattr(obj, m.name)
        if m.kind in ("conf", "oconf"):
            if m.kind == "oconf" and not cfg[m.name + "_enabled"]:
                expect(o is None, lambda: "%s: disabled %s.%s was built" % (tag, s.name, m.name))
                continue
            expect(o is not None, lambda: "%s: enabled %s.%s was not built" % (tag, s.name, m.name))
            check_object(tag, m.spec, cfg[m.name + "_args"], o, loose)
        else:
            t = cfg[m.name + "_class_type"]
            if t is None:
                expect(o is None, lambda: "%s: %s.%s was built without a type" % (tag, s.name, m.name))
                continue
            i = [x for x in m.impls if x.name == t][0]
            expect(o is not None, lambda: "%s: %s.%s of type %s was not built" % (tag, s.name, m.name, t))
            check_object(tag, i, cfg["%s_%s_args" % (m.name, t)], o, loose)


def settings(s):
    """[(path, other values)] of the whole tree"""
    out = [((k,), [KIND_OF[k][2]]) for k in s.fields]
    for m in s.all_members:
        if m.kind in ("conf", "oconf"):
            if m.kind == "oconf":
                out.append(((m.name + "_enabled",), [not s.redefine.get(m.name + "_enabled", m.default)]))
            out += [((m.name + "_args",) + p, v) for p, v in settings(m.spec)]
        else:
            d = s.redefine.get(m.name + "_class_type", m.default)
            out.append(((m.name + "_class_type",), [i.name for i in m.impls if i.name != d] + ([None] if m.kind == "orep" and d is not None else [])))
            for i in m.impls:
                out += [(("%s_%s_args" % (m.name, i.name),) + p, v) for p, v in settings(i)]
    return out


KIND_OF = {}
for _k, _v in KINDS.items():
    KIND_OF[_k] = KIND_OF["z_" + _k] = _v


def get(cfg, path):
    for p in path[:-1]:
        cfg = cfg[p]
    return cfg


def used(s, cfg):
    """the configuration without the parts no object is built from"""
    out = {k: cfg[k] for k in s.fields}
    for m in s.all_members:
        if m.kind in ("conf", "oconf"):
            if m.kind == "oconf":
                out[m.name + "_enabled"] = cfg[m.name + "_enabled"]
                if not cfg[m.name + "_enabled"]:
                    continue
            out[m.name + "_args"] = used(m.spec, cfg[m.name + "_args"])
        else:
            t = out[m.name + "_class_type"] = cfg[m.name + "_class_type"]
            if t is not None:
                out["%s_%s_args" % (m.name, t)] = used([i for i in m.impls if i.name == t][0], cfg["%s_%s_args" % (m.name, t)])
    return out


# ------------------------------------------------------------------ the grammar
MEMBERS = ["conf", "oconf1", "oconf0", "rep1", "rep2", "rep3", "orep0", "orep2", "nested_conf", "nested_rep", "module", "deep"]


def fields(i, over=()):
    f = {k: (KINDS[k][0], KINDS[k][1]) for k in SETS[i]}
    for k in over:
        f[k] = (KINDS[k][0], lambda k=k: copy.copy(KINDS[k][2]))
    return f


def leaf(name, i, **kw):
    return Spec(name, fields(i), **kw)


def pluggable(tag, depth=0):
    """a base class with three implementations: plain, nn.Module, inheriting from the first with another default"""
    from pytorch3d.implicitron.tools.config import registry, ReplaceableBase

    b = type("Base" + tag, (ReplaceableBase,), {"__annotations__": {"x": float}, "x": 0.5, "__module__": __name__})
    base = Spec.__new__(Spec)
    base.name, base.fields, base.hooks, base.redefine, base.all_members, base.cls = "Base" + tag, {"x": (float, lambda: 0.5)}, {}, {}, [], b
    mem = [Member("k", "conf", leaf("K" + tag, 1))] if depth else []
    i1 = Spec("One" + tag, fields(0), mem, base=base)
    i2 = Spec("Two" + tag, fields(2), base=base, module=True)
    i3 = Spec("Three" + tag, fields(3, over=("n", "x")), base=i1)
    for i in (i1, i2, i3):
        registry.register(i.cls)
    return b, [i1, i2, i3]


def member(name, kind, tag):
    if kind == "conf":
        return Member(name, "conf", leaf("C" + tag, 2))
    if kind in ("oconf1", "oconf0"):
        return Member(name, "oconf", leaf("O" + tag, 4), default=kind == "oconf1")
    if kind in ("rep1", "rep2", "rep3", "orep0", "orep2", "nested_rep"):
        b, im = pluggable(tag, kind == "nested_rep")
        d = {"rep1": im[0].name, "rep2": im[1].name, "rep3": im[2].name, "orep0": None, "orep2": im[1].name, "nested_rep": im[2].name}[kind]
        return Member(name, "orep" if kind[0] == "o" else "rep", impls=im, default=d, base_cls=b)
    if kind == "module":
        return Member(name, "conf", leaf("M" + tag, 0, module=True))
    if kind == "nested_conf":
        return Member(name, "conf", Spec("N" + tag, fields(5), [member("in_c", "oconf1", tag + "i"), member("in_r", "rep2", tag + "j")]))
    if kind == "deep":
        inner = Spec("D3" + tag, fields(1), [member("z", "orep2", tag + "z")])
        return Member(name, "conf", Spec("D1" + tag, fields(0), [Member("y", "oconf", Spec("D2" + tag, {}, [Member("y", "conf", inner)]), default=True)]))
    raise KeyError(kind)


FORMS = ["plain", "module", "sub_fields", "sub_members", "hooks"]


def tree(kinds, names, form):
    tag = ""
    ms = [member(n, k, "%s%d" % (tag, i)) for i, (n, k) in enumerate(zip(names, kinds))]
    if form == "plain":
        return Spec("Top", fields(1), ms)
    if form == "module":
        return Spec("Top", fields(2), ms, module=True)
    if form == "sub_fields":  # everything in the base class; the subclass changes defaults and adds a setting
        b = Spec("Parent", fields(0), ms)
        red = {}
        for m in ms:
            if m.kind == "oconf":
                red[m.name + "_enabled"] = not m.default
            if m.kind in ("rep", "orep"):
                red[m.name + "_class_type"] = m.impls[0].name
        return Spec("Top", fields(1, over=("n",)), base=b, redefine=red)
    if form == "sub_members":  # members spread over three levels
        a = Spec("Grand", fields(1), ms[:1])
        b = Spec("Parent", fields(0), base=a)
        return Spec("Top", fields(5), ms[1:], base=b, module=True)

    def hook(args):
        for k in ("n", "x"):
            if k in args:
                args[k] = 77 if k == "n" else 7.5
    return Spec("Top", fields(4), ms, hooks={m.name: hook for m in ms})


def cases(tier):
    th = tier == "thorough"
    out = []
    for form in FORMS:
        for k in MEMBERS:
            out.append(["tree", [k], ["a"], form, 2])
        for p in itertools.product(MEMBERS, repeat=2):
            for names in (("a", "b"), ("a", "a_b"), ("a_b", "a")):
                if "a_b" in names:
                    # see ASSUMPTIONS
                    rep, other = p[names.index("a")], p[names.index("a_b")]
                    if "rep" in rep and "rep" not in other:
                        continue
                    if not th and (form != "plain" or "rep" not in rep):
                        continue
                elif not th and (MEMBERS.index(p[0]) > MEMBERS.index(p[1]) or form in ("module", "sub_fields", "hooks")):
                    continue
                out.append(["tree", list(p), list(names), form, 1 if th else 0])
    out += [["order", o] for o in range(6)]
    out += [["function", k] for k in range(8)]
    out += [["registry"], ["errors"], ["custom"], ["isolation"]]
    out += [["real", k] for k in range(8)]
    return out


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case[0]](case, rec)
    rec.trace()
    rec.sample({"case": case})


# ------------------------------------------------------------------ trees
def build(s, cfg):
    return s.cls(**cfg)


def run_tree(case, rec):
    from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args, remove_unused_components

    _, kinds, names, form, depth = case
    s = tree(kinds, names, form)
    want = default_config(s)
    tag = "%s class with members %s" % (form, dict(zip(names, kinds)))
    cfg = get_default_args(s.cls)
    expect(norm(cfg) == want, lambda: "%s: default configuration\n   %s\nwant\n   %s" % (tag, norm(cfg), want))
    expect(norm(get_default_args(s.cls)) == want, tag + ": the default configuration changes when asked for again")
    check_object(tag + ", built from the defaults", s, want, build(s, cfg))
    check_object(tag + ", built without arguments", s, want, s.cls())
    st = settings(s)
    single = [((p, v),) for p, vs in st for v in vs]
    if depth == 0:  # one setting of each part
        seen, few = set(), []
        for o in single:
            if len(o[0][0]) == 1 or o[0][0][:-1] not in seen:
                seen.add(o[0][0][:-1])
                few.append(o)
        single = few
    todo = list(single)
    if depth > 1:
        todo += [(a[0], b[0]) for a, b in itertools.combinations(single, 2) if a[0][0] != b[0][0]]
    yaml0 = OmegaConf.to_yaml(cfg)
    for n, ov in enumerate(todo):
        c = get_default_args(s.cls) if n % 3 == 0 else copy.deepcopy(cfg)
        w = copy.deepcopy(want)
        for p, v in ov:
            get(c, p)[p[-1]] = copy.copy(v)
            get(w, p)[p[-1]] = norm(v)
        t = "%s with %s" % (tag, {".".join(p): v for p, v in ov})
        expect(norm(c) == w, lambda: "%s: configuration\n   %s\nwant\n   %s" % (t, norm(c), w))
        check_object(t, s, w, build(s, c))
        expect(norm(c) == w, t + ": building changes the configuration")
        rec.step()
        rec.state([norm(c)["a_args"] if "a_args" in c else 0, str(w)])
        if n < len(single):
            # written to YAML and read back
            y = OmegaConf.to_yaml(c)
            back = OmegaConf.merge(get_default_args(s.cls), OmegaConf.create(y))
            expect(norm(back) == w, lambda: "%s: after a YAML round trip\n   %s\nwant\n   %s" % (t, norm(back), w))
            check_object(t + ", after a YAML round trip", s, w, build(s, back))
            check_object(t + ", straight from YAML", s, w, build(s, OmegaConf.create(y)), loose=True)
            # without what is not used
            r = copy.deepcopy(c)
            remove_unused_components(r)
            u = used(s, w)
            expect(norm(r) == u, lambda: "%s: without unused parts\n   %s\nwant\n   %s" % (t, norm(r), u))
            check_object(t + ", without unused parts", s, w, build(s, OmegaConf.merge(get_default_args(s.cls), r)))
            check_object(t + ", from the used parts alone", s, w, build(s, r))
            # only the changed settings given
            kw = {}
            for p, v in ov:
                if len(p) == 1:
                    kw[p[0]] = copy.copy(v)
            if kw:
                check_object(t + ", given alone", s, w, s.cls(**kw))
            rec.step(5)
    expect(OmegaConf.to_yaml(get_default_args(s.cls)) == yaml0, tag + ": the default configuration changed")
    # an unknown type, an unknown setting
    for m in s.all_members:
        if m.kind in ("rep", "orep"):
            c = get_default_args(s.cls)
            c[m.name + "_class_type"] = "NoSuchClass"
            try:
                build(s, c)
            except ValueError:
                pass
            else:
                raise Violation("%s: type NoSuchClass of %s is accepted" % (tag, m.name))
    try:
        s.cls(**dict(want, no_such_setting=1))
    except TypeError:
        pass
    else:
        raise Violation(tag + ": an unknown setting is accepted")


def run_order(case, rec):
    """the classes of a tree may be expanded, queried and built in any order"""
    from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args

    for kinds, form in (("nested_rep", "sub_members"), ("nested_conf", "plain"), ("deep", "sub_fields"), ("rep3", "hooks"), ("orep2", "module")):
        for perm in list(itertools.permutations(range(4)))[case[1] * 4:case[1] * 4 + 4]:
            s = tree([kinds, "oconf1"], ["a", "b"], form)
            m = s.all_members[0]
            inner = m.impls[2] if m.impls else m.spec
            want, wi = default_config(s), default_config(inner)
            acts = [lambda: expand_args_fields(s.cls), lambda: check_object("inner", inner, wi, inner.cls()),
                    lambda: expect(norm(get_default_args(inner.cls)) == wi, "default configuration of an inner class"), lambda: get_default_args(s.cls)]
            for i in perm:
                acts[i]()
            tag = "%s class with %s, operations in order %s" % (form, kinds, perm)
            expect(norm(get_default_args(s.cls)) == want, lambda: "%s: default configuration\n   %s\nwant\n   %s" % (tag, norm(get_default_args(s.cls)), want))
            check_object(tag, s, want, s.cls())
            check_object(tag, inner, wi, inner.cls())
            expect(expand_args_fields(s.cls) is s.cls, "expanding again")
            rec.step()
    rec.state(case)


def run_isolation(case, rec):
    """configurations and objects do not share settings"""
    from pytorch3d.implicitron.tools.config import get_default_args

    for k in MEMBERS:
        s = tree([k], ["a"], "module")
        want = default_config(s)
        for path, vs in settings(s):
            for v in vs:
                a, b = get_default_args(s.cls), get_default_args(s.cls)
                o1 = s.cls()
                get(a, path)[path[-1]] = copy.copy(v)
                expect(norm(b) == want, lambda: "%s: changing %s in one configuration changes another" % (k, path))
                expect(norm(get_default_args(s.cls)) == want, lambda: "%s: changing %s in a configuration changes the defaults" % (k, path))
                c = getattr(o1, path[0])
                if len(path) == 2 and isinstance(c, DictConfig):
                    c[path[1]] = copy.copy(v)
                elif len(path) == 1 and isinstance(c, list):
                    c.append(5)
                elif len(path) == 1 and isinstance(c, dict):
                    c["zz"] = 5
                check_object(k + ": built after another object's settings changed", s, want, s.cls())
                rec.step()
    rec.state(case)


FPARAMS = [("n", int, 3), ("x", float, 0.5), ("s", str, "u"), ("b", bool, False), ("o", Optional[int], None), ("t", Tuple[int, ...], (1, 2)), ("l", List[int], [4, 5]),
           ("d", Dict[str, int], {"k": 1}), ("e", Colour, Colour.GREEN), ("oc", Optional[Colour], None)]


def run_function(case, rec):
    from pytorch3d.implicitron.tools.config import Configurable, enable_get_default_args, get_default_args, get_default_args_field

    me = sys.modules[__name__]
    for bits in range(case[1], 1 << len(FPARAMS), 8):
        ps = [p for i, p in enumerate(FPARAMS) if bits >> i & 1]
        for required in (0, 1):
            for as_class in (False, True):
                env = {p[0] + "_ty": p[1] for p in ps}
                env.update({p[0] + "_df": p[2] for p in ps})
                args = ", ".join((["req"] if required else []) + ["%s: %s_ty = %s_df" % (p[0], p[0], p[0]) for p in ps])
                body = "return (%s,)" % ", ".join(p[0] for p in ps) if ps else "return ()"
                if as_class:
                    src = "class F%d:\n  def __init__(self%s):\n    self.v = (lambda: %s)()\n" % (bits, ", " + args if args else "", body[7:])
                else:
                    src = "def F%d(%s):\n  %s\n" % (bits, args, body)
                exec(src, env)
                f = env["F%d" % bits]
                f.__module__ = __name__
                enable_get_default_args(f)
                got = get_default_args(f)
                want = {p[0]: norm(p[2]) for p in ps}
                tag = "function with parameters %s" % [p[0] for p in ps]
                expect(norm(got) == want, lambda: "%s: defaults %s, want %s" % (tag, norm(got), want))
                r = f(*([1] if required else []), **got)
                r = r.v if as_class else r
                expect(norm(list(r)) == [norm(p[2]) for p in ps], lambda: "%s: called with its defaults: %s" % (tag, r))
                if bits % 16 == case[1]:
                    ns = {"__annotations__": {"f_args": dict}, "f_args": get_default_args_field(f), "__module__": __name__}
                    H = type("H", (Configurable,), ns)
                    c = get_default_args(H)
                    expect(norm(c) == {"f_args": want}, tag + ": as a default of a member")
                    expect(norm(H(**c).f_args) == want and norm(H().f_args) == want, tag + ": built as a default of a member")
                delattr(me, "_F%d_default_args_" % bits)
                rec.step()
    rec.state(case)


def run_registry(case, rec):
    from pytorch3d.implicitron.tools.config import registry, ReplaceableBase

    def mk(name, *bases):
        return type(name, bases, {"__module__": __name__, "__annotations__": {}})
    A, B = mk("A", ReplaceableBase), mk("B", ReplaceableBase)
    A1, A2 = mk("A1", A), mk("A2", A)
    A12, A22 = mk("A12", A1), mk("A22", A2, torch.nn.Module)
    B1, BA = mk("B1", B), mk("A1", B)  # the same name under another base class
    allc = [A1, A2, A12, A22, B1, BA]
    for order in itertools.permutations(range(6)):
        registry._mapping.pop(A, None)
        registry._mapping.pop(B, None)
        have = []
        for i in order:
            have.append(allc[i])
            expect(registry.register(allc[i]) is allc[i], "register returns the class")
        for want in (A, B, A1, A2):
            names = sorted({c.__name__ for c in allc} | {"zzz"})
            for n in names:
                res = [c for c in allc if c.__name__ == n and issubclass(c, want)]
                try:
                    got = registry.get(want, n)
                except ValueError:
                    got = None
                expect(got is (res[0] if res else None), lambda: "registry.get(%s, %s) gives %s, want %s" % (want.__name__, n, got, res))
            got = registry.get_all(want)
            exp = sorted([c for c in allc if issubclass(c, want) and c is not want], key=lambda c: c.__name__)
            expect(got == exp, lambda: "registry.get_all(%s) gives %s, want %s" % (want.__name__, got, exp))
        rec.step()
    registry._mapping.pop(A, None)
    registry._mapping.pop(B, None)
    for bad in (3, None, A1):
        try:
            registry.get(A, bad)
        except ValueError:
            continue
        raise Violation("registry.get(A, %r) does not raise" % (bad,))
    rec.state(case)


def run_errors(case, rec):
    from pytorch3d.implicitron.tools.config import Configurable, get_default_args

    def leafc():
        return type("L", (Configurable,), {"__module__": __name__, "__annotations__": {"n": int}, "n": 1})
    # an optional member without its switch
    bad = [{"a": Optional[leafc()]}, {"a": leafc(), "a_args": dict}]
    for an in bad:
        ns = {"__module__": __name__, "__annotations__": dict(an)}
        if "a_args" in an:
            ns["a_args"] = dataclasses.field(default_factory=dict)
        try:
            get_default_args(type("T", (Configurable,), ns))
        except ValueError:
            rec.step()
            continue
        raise Violation("class with members %s is accepted" % list(an))
    # a pluggable member without a default type has to be given one
    b, im = pluggable("E")
    s = Spec("Top", fields(0), [Member("a", "rep", impls=im, default=MISSING, base_cls=b)])
    want = default_config(s)
    c = get_default_args(s.cls)
    expect(norm(c) == want, lambda: "member without a default type: %s, want %s" % (norm(c), want))
    try:
        s.cls(**c)
    except ValueError:
        pass
    else:
        raise Violation("a member without a type is built")
    for i in im:
        c = get_default_args(s.cls)
        c["a_class_type"] = i.name
        check_object("type given", s, dict(want, a_class_type=i.name), s.cls(**c))
    rec.state(case)


def run_custom(case, rec):
    """replaced creation functions are used, with the right settings"""
    from pytorch3d.implicitron.tools.config import get_default_args, run_auto_creation

    for kind in MEMBERS:
        for inherit in (False, True):
            for which in ("create_a", "create_a_impl"):
                m = member("a", kind, "q")
                s = Spec("Top", fields(0), [m])
                log = []
                if which == "create_a":
                    def f(self):
                        log.append("called")
                        self.a = "mine"
                else:
                    def f(self, ty, args):
                        log.append((ty, None if args is None else norm(args)))
                        self.a = "mine"
                if inherit:
                    C = type("Sub", (s.cls,), {"__module__": __name__, "__annotations__": {}, which: f})
                else:
                    setattr(s.cls, which, f)
                    C = s.cls
                o = C()
                want = default_config(s)
                if which == "create_a":
                    exp = ["called"]
                elif m.kind in ("conf", "oconf"):
                    exp = [(m.default if m.kind == "oconf" else True, want["a_args"])]
                else:
                    t = m.default
                    exp = [(t, None if t is None else want["a_%s_args" % t])]
                expect(o.a == "mine" and log == exp, lambda: "%s with its own %s (inherited=%s): calls %s, want %s" % (kind, which, inherit, log, exp))
                rec.step()
    rec.state(case)


# ------------------------------------------------------------------ the classes of the library
def all_classes():
    import importlib
    import pkgutil

    import pytorch3d.implicitron as imp
    from pytorch3d.implicitron.tools.config import Configurable, ReplaceableBase

    for m in pkgutil.walk_packages(imp.__path__, imp.__name__ + "."):
        if "visdom" in m.name or "eval_demo" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            continue
    out, todo = [], [Configurable, ReplaceableBase]
    while todo:
        c = todo.pop()
        for d in c.__subclasses__():
            if d not in out and d.__module__.startswith("pytorch3d."):
                out.append(d)
                todo.append(d)
    from pytorch3d.implicitron.tools.config import registry

    reg = {c for d in registry._mapping.values() for c in d.values()}
    return sorted([c for c in out if c in reg], key=lambda c: (c.__module__, c.__name__))


def run_real(case, rec):
    from pytorch3d.implicitron.tools.config import get_default_args, registry, remove_unused_components

    cl = all_classes()
    expect(len(cl) > 20, "few classes: %d" % len(cl))
    for c in cl[case[1]::8]:
        tag = c.__name__
        try:
            cfg = get_default_args(c)
        except Exception as e:
            raise Violation("%s: no default configuration: %s" % (tag, e))
        processed = set(getattr(c, "_processed_members", {}))
        want = {f.name: f for f in dataclasses.fields(c) if f.init and f.name not in processed}
        expect(set(cfg.keys()) == set(want), lambda: "%s: settings %s, want %s" % (tag, sorted(cfg.keys()), sorted(want)))
        for k, f in want.items():
            if OmegaConf.is_missing(cfg, k):
                continue
            d = f.default_factory() if f.default_factory is not dataclasses.MISSING else f.default
            expect(norm(cfg[k]) == norm(d), lambda: "%s.%s: %s in the configuration, %s in the class" % (tag, k, norm(cfg[k]), norm(d)))
        # every implementation that can be chosen has its settings
        for k in want:
            if k.endswith("_class_type"):
                n = k[:-len("_class_type")]
                v = None if OmegaConf.is_missing(cfg, k) else cfg[k]
                if v is not None and v != "UNDEFAULTED" and n in processed:
                    expect("%s_%s_args" % (n, v) in cfg, lambda: "%s: no settings for the default type %s of %s" % (tag, v, n))
        try:
            y = OmegaConf.to_yaml(cfg)
        except Exception as e:
            raise Violation("%s: cannot be written: %s" % (tag, e))
        back = OmegaConf.merge(get_default_args(c), OmegaConf.create(y))
        expect(norm2(back) == norm2(cfg), lambda: "%s: changed by a YAML round trip" % tag)
        r = copy.deepcopy(cfg)
        if any(OmegaConf.is_missing(cfg, k) for k in want):
            continue
        remove_unused_components(r)
        expect(norm2(OmegaConf.merge(get_default_args(c), r)) == norm2(cfg), lambda: "%s: changed by removing and restoring unused parts" % tag)
        rec.step()
        rec.state(y)


def norm2(c):
    return OmegaConf.to_container(c)
