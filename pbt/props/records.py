"""P03 subsetting, P16 PDG lookup, P17 PDG masks and names, P18 status
ranges, P19 import, P37 tables."""
from __future__ import annotations

import html as htmllib
import json
import pickle
import re
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st
from mcpid.lookup import PdgRecords

import graphicle as gcl

from ..core import RULES, Violation, require, sub
from ..gen import seeds
from .arrays import KINDS, rows_of, same_rows, unstruct, values
from .masks import mask_trees, to_group

TABLE = PdgRecords().table
CODES = [int(c) for c in TABLE.index]
ATTRS = ("pdg", "pmu", "color", "helicity", "status", "final")
KIND_OF = {"final": "mask"}


def content(attr, num, seed, style="any"):
    return values(KIND_OF.get(attr, attr), num, seed + ATTRS.index(attr), style)


@st.composite
def record_cases(draw, low=0, high=40):
    attrs = draw(st.one_of(
        st.just(list(ATTRS)), st.just(list(ATTRS)),
        st.lists(st.sampled_from(ATTRS), unique=True, max_size=6)))
    return {
        "num": draw(st.one_of(st.integers(low, min(high, 6)),
                              st.integers(low, high))),
        "attrs": attrs,
        "edges": draw(st.sampled_from(["none", "edges", "weights"])),
        "style": draw(st.sampled_from(["any", "small"])),
        "zero": draw(st.one_of(
            st.just([]), st.just([]),
            st.lists(st.sampled_from(ATTRS[1:] + type(ATTRS)(["edges"])),
                     unique=True, max_size=3))),
        "seed": draw(seeds),
    }


def record_parts(case):
    num = case["num"]
    parts = {a: content(a, num, case["seed"], case["style"])
             for a in case["attrs"]}
    if case["edges"] != "none":
        parts["edges"] = values("edges", num, case["seed"] + 11, "any")
        if case["edges"] == "weights":
            rng = np.random.default_rng(case["seed"] + 12)
            weights = rng.normal(size=num)
            if case["seed"] % 4 < 2:  # some, or all of them, zero
                weights *= rng.random(num) < 0.7 * (case["seed"] % 2)
            parts["weights"] = weights
    for attr in case.get("zero", ()):
        if attr in parts:
            parts[attr] = np.zeros_like(parts[attr])
    return parts


def event_of(parts):
    return gcl.Graphicle.from_numpy(**{k: v.copy() for k, v in parts.items()})


def check_record(record, parts, *where):
    for attr in ATTRS:
        obj = getattr(record, attr)
        want = parts.get(attr)
        if want is None:
            require(len(obj) == 0, *where, attr, "should be unset", obj)
        else:
            require(isinstance(obj, type(getattr(gcl.ParticleSet(), attr))),
                    *where, attr, "is a", type(obj))
            if len(want) == 0:
                require(len(obj) == 0, *where, attr, "should be empty", obj)
            else:
                same_rows(obj, want, *where, attr)
    sizes = {len(v) for k, v in parts.items() if k in ATTRS}
    if isinstance(record, gcl.ParticleSet):
        require(len(record) == max(sizes, default=0), "length", len(record))
        require(bool(record) == (max(sizes, default=0) > 0), "truth")


def check_event(graph, parts, *where):
    require(isinstance(graph, gcl.Graphicle), *where, "is a", type(graph))
    check_record(graph.particles, parts, *where)
    check_record(graph, parts, *where)
    edges = parts.get("edges")
    if edges is None or len(edges) == 0:
        require(len(graph.adj) == 0, *where, "edges should be unset")
    else:
        same_rows(graph.adj, edges, *where, "edges")
        require(np.array_equal(graph.edges["src"], edges[:, 0]), "src")
    weights = parts.get("weights", np.zeros(0))
    require(np.array_equal(graph.adj.weights, weights), *where, "weights",
            graph.adj.weights, "not", weights)
    for attr in ATTRS:
        one, two = getattr(graph, attr).data, getattr(graph.particles, attr).data
        require(len(one) == 0 or np.shares_memory(one, two),
                *where, attr, "of the event is not that of its particles")
    size = max([len(v) for v in parts.values()], default=0)
    require(len(graph) == size, *where, "length", len(graph), "not", size)
    require(bool(graph) == (size > 0), *where, "truth")


# ------------------------------------------------------------------- P03
RULES["P03"] = "Records with some attributes set, and a chain of selections."

SELECT = ("mask", "bools", "group", "and_group", "slice", "step", "list",
          "array", "none", "all", "reverse", "boolist", "backward", "open")


@st.composite
def chains(draw):
    return {
        "record": draw(record_cases()),
        "chain": draw(st.lists(
            st.tuples(st.sampled_from(SELECT), seeds).map(list),
            min_size=1, max_size=4)),
    }


def selection(kind, num, rng):
    """The key for graphicle, and the same for numpy."""
    keep = rng.random(num) < rng.choice([0.3, 0.6, 0.9])
    if kind == "mask":
        return gcl.MaskArray(keep.copy()), keep
    if kind == "bools":
        return keep.copy(), keep
    if kind == "boolist":
        return keep.tolist(), keep
    if kind == "group":
        half = rng.random(num) < 0.5
        return gcl.MaskGroup({"a": keep & half, "b": keep & ~half},
                             agg_op="or"), keep
    if kind == "and_group":
        half = rng.random(num) < 0.5
        return gcl.MaskGroup({"a": keep | half, "b": keep | ~half},
                             agg_op="and"), keep
    if kind == "none":
        return gcl.MaskArray(np.zeros(num, bool)), np.zeros(num, bool)
    if kind == "all":
        return gcl.MaskArray(np.ones(num, bool)), np.ones(num, bool)
    if kind == "reverse":
        key = slice(None, None, -1)
        return key, key
    if kind in ("backward", "open"):
        ends = [
            None if rng.random() < 0.5 else int(rng.integers(-num - 1, num + 2))
            for _ in "ab"]
        step = int(rng.integers(1, 4))
        key = slice(*ends, -step if kind == "backward" else step)
        return key, key
    if kind in ("slice", "step"):
        low, high = np.sort(rng.integers(-num - 1, num + 2, size=2)).tolist()
        key = slice(low, high, int(rng.integers(2, 4)) if kind == "step"
                    else None)
        return key, key
    idx = rng.integers(-num, num, size=int(rng.integers(1, num + 3)))
    return (idx.tolist() if kind == "list" else idx), idx


@sub("P03", chains(), quick=700,
     nontrivial=lambda c: c["record"]["num"] > 1
     and (len(c["record"]["attrs"]) + (c["record"]["edges"] != "none")) > 1,
     rule="more than one particle, and more than one attribute")
def subsetting(case):
    parts = record_parts(case["record"])
    graph = event_of(parts)
    check_event(graph, parts, "event")
    cur, particles = graph, graph.particles
    ref = parts
    for step, (kind, seed) in enumerate(case["chain"]):
        num = max([len(v) for v in ref.values()], default=0)
        if num == 0:
            break
        key, npkey = selection(kind, num, np.random.default_rng(seed))
        only = {k: v for k, v in ref.items() if k in ATTRS}
        cur, particles = cur[key], particles[key] if only else particles
        ref = {k: v[npkey] for k, v in ref.items()}
        if not len(next(iter(ref.values()))):
            ref = {k: v for k, v in ref.items() if k != "weights"}
        check_event(cur, ref, "after", kind, step)
        check_record(particles, {k: v for k, v in ref.items() if k in ATTRS},
                     "particles after", kind, step)
    check_event(graph, parts, "original after selections")


@sub("P03", record_cases(), quick=200, rule="every case")
def accessors(case):
    """Assigning through the particles shows in the event."""
    parts = record_parts(case)
    graph = event_of(parts)
    if "pdg" in parts:
        graph.particles.pdg = gcl.PdgArray(parts["pdg"][::-1].copy())
        parts["pdg"] = parts["pdg"][::-1]
    if "final" in parts:
        graph.particles.final.data[...] = ~parts["final"]
        parts["final"] = ~parts["final"]
    check_event(graph, parts, "after assignment")
    if "status" in parts:
        hard = graph.hard_mask
        require(hard.equal_to(graph.status.hard_mask), "hard masks")


# ------------------------------------------------------------------- P02
@sub("P02", record_cases(0, 60), quick=300,
     rule="some particles, some attributes",
     nontrivial=lambda c: c["num"] > 0 and (c["attrs"] or c["edges"] != "none"))
def record_round_trip(case):
    parts = record_parts(case)
    graph = event_of(parts)
    # no weights in the serialized form
    bare = {k: v for k, v in parts.items() if k != "weights"}
    for record in (graph, graph.particles):
        ser = record.serialize()
        names = set(ATTRS) | ({"adj"} if record is graph else set())
        require(type(ser) is dict and set(ser) == names, "keys", list(ser))
        for name, got in ser.items():
            want = bare.get("edges" if name == "adj" else name)
            size = 0 if want is None else len(want)
            require(isinstance(got, tuple) and len(got) == size, name, "is",
                    got)
            if not size:
                continue
            plain = {"f": float, "i": int, "b": bool}[want.dtype.kind]
            for item, row in zip(got, want.tolist()):
                flat = tuple(item) if want.ndim == 2 else (item,)
                require(all(type(v) is plain for v in flat), name, "has", item)
                require(flat == tuple(np.atleast_1d(row).tolist()), name,
                        "has", item, "not", row)
        for source in (ser, json.loads(json.dumps(ser))):
            again = gcl.ParticleSet.from_numpy(**{
                k: v for k, v in source.items() if k != "adj"})
            check_record(again, {k: v for k, v in bare.items()
                                 if k != "edges"}, "rebuilt")
            if record is graph:
                both = gcl.Graphicle.from_numpy(
                    **{"edges" if k == "adj" else k: v
                       for k, v in source.items()})
                check_event(both, bare, "rebuilt event")
                both = gcl.Graphicle(again, gcl.AdjacencyList(source["adj"]))
                check_event(both, bare, "assembled event")
                require(both.serialize() == ser, "serialized again")
    for record in (graph, graph.particles):  # through processes and files
        if record is graph:
            check_event(pickle.loads(pickle.dumps(graph)), parts, "pickled")
            check_event(deepcopy(graph), parts, "deep copy")
        else:
            only = {k: v for k, v in parts.items() if k in ATTRS}
            check_record(pickle.loads(pickle.dumps(record)), only, "pickled")
    check_event(graph, parts, "afterwards")


# ------------------------------------------------------------------- P16
RULES["P16"] = "Arrays of codes of the particle table, and reads in order."

PROPS = {
    "name": ("name", str), "latex": ("latex", str), "quarks": ("quarks", str),
    "charge": ("charge", 1.0), "mass": ("mass", 1e-3),
    "width": ("width", 1e-3), "isospin": ("i", 1.0), "g_parity": ("g", 1.0),
    "space_parity": ("p", 1.0), "charge_parity": ("c", 1.0),
    "mass_bounds": ("mass", None), "width_bounds": ("width", None),
}
_COLS = {col: TABLE[col].to_dict() for col in TABLE.columns}

_code = st.one_of(
    st.sampled_from(CODES),
    st.sampled_from([1, -1, 2, 5, -6, 11, -13, 21, 22, 24, -24, 25, 111, 211,
                     -211, 2212, 2112]),
)


@st.composite
def lookups(draw):
    return {
        "codes": draw(st.lists(_code, max_size=12)),
        "reads": draw(st.lists(st.sampled_from(sorted(PROPS)), min_size=1,
                               max_size=5)),
        "repeat": draw(st.integers(0, 3)),
        "seed": draw(seeds),
    }


def check_property(pdg, codes, prop):
    col, scale = PROPS[prop]
    got = getattr(pdg, prop)
    require(len(got) == len(codes), prop, "has", len(got), "entries for",
            len(codes))
    if scale is str:
        want = [str(_COLS[col][c]) for c in codes]
        require([str(g) for g in got] == want, prop, list(got), "not", want)
        require(np.asarray(got).dtype.kind == "U", prop, "is not of strings")
    elif scale is None:
        for bound in ("lower", "upper"):
            want = np.array([_COLS[col + bound][c] * 1e-3 for c in codes])
            require(np.allclose(got[col + bound], want, rtol=1e-12,
                                atol=0, equal_nan=True), prop, bound,
                    got[col + bound], "not", want)
    else:
        want = np.array([_COLS[col][c] * scale for c in codes], float)
        require(np.allclose(np.asarray(got, float), want, rtol=1e-12, atol=0,
                            equal_nan=True), prop, got, "not", want)


@sub("P16", lookups(), quick=120, thorough=4000,
     rule="several distinct codes", nontrivial=lambda c: len(set(c["codes"])) > 1)
def lookup(case):
    rng = np.random.default_rng(case["seed"])
    codes = list(case["codes"])
    if codes and case["repeat"]:
        codes += rng.choice(codes, size=5 * case["repeat"]).tolist()
        codes = [codes[i] for i in rng.permutation(len(codes))]
    pdg = gcl.PdgArray(codes)
    for prop in case["reads"] + case["reads"][:1]:
        check_property(pdg, codes, prop)
    same_rows(pdg, np.array(codes, "<i4").reshape(-1), "codes after reading")
    if codes:
        perm = rng.permutation(len(codes))
        prop = case["reads"][0]
        check_property(pdg[perm], [codes[i] for i in perm], prop)
        check_property(gcl.PdgArray(codes[:1]), codes[:1], prop)


def all_codes(tier, seed):
    for start in range(0, len(CODES), 90):
        for prop in sorted(PROPS):
            yield {"start": start, "prop": prop}


@sub("P16", enum=all_codes, rule="every code of the table, every property")
def whole_table(case):
    codes = CODES[case["start"]: case["start"] + 90]
    check_property(gcl.PdgArray(codes), codes, case["prop"])


@sub("P16", enum=lambda tier, seed: ({"start": s} for s in
                                     range(0, len(CODES), 60)),
     rule="every measured particle of the table and its antiparticle")
def antiparticles(case):
    known = set(CODES)
    codes = [c for c in CODES[case["start"]: case["start"] + 60]
             if c > 0 and -c in known
             # hypothetical particles have unsigned charges in the table
             and not TABLE["pythia"][c]]
    if not codes:
        return False
    one, two = gcl.PdgArray(codes), gcl.PdgArray([-c for c in codes])
    require(np.array_equal(one.charge, -two.charge), "charges",
            np.array(codes)[one.charge != -two.charge])
    require(np.array_equal(one.mass, two.mass), "masses",
            np.array(codes)[one.mass != two.mass])
    return True


# ------------------------------------------------------------------- P17
RULES["P17"] = "Codes, targets, and the flags; names of particles."


@st.composite
def pdg_masks(draw):
    pool = st.sampled_from([1, -1, 2, -2, 5, -5, 11, -11, 21, 22, 24, -24, 211,
                            -211, 9, 0])
    few = draw(st.booleans())
    if not few:  # long lists of codes from all over the table
        pool = st.one_of(pool, st.sampled_from(CODES),
                         st.sampled_from([3122, -3122, 1000021, 2000011]))
    return {
        "codes": draw(st.lists(pool, max_size=20 if few else 40)),
        "target": draw(st.lists(pool, max_size=4 if few else 40)),
        "blacklist": draw(st.sampled_from([None, True, False])),
        "sign": draw(st.sampled_from([None, True, False])),
        "form": draw(st.sampled_from(["list", "tuple", "array", "pdg",
                                      "scalar", "i8"])),
    }


@sub("P17", pdg_masks(), quick=1200, rule="some codes are among the targets",
     nontrivial=lambda c: bool({abs(i) for i in c["codes"]}
                               & {abs(i) for i in c["target"]}))
def code_masks(case):
    codes, target = case["codes"], list(case["target"])
    form = case["form"]
    if form == "scalar" and len(target) != 1:
        form = "list"
    given = {
        "list": lambda: list(target), "tuple": lambda: tuple(target),
        "array": lambda: np.array(target, "<i4"),
        "pdg": lambda: gcl.PdgArray(target),
        "scalar": lambda: target[0],
        "i8": lambda: np.array(target, "<i8"),
    }[form]()
    kwargs = {}
    if case["blacklist"] is not None:
        kwargs["blacklist"] = case["blacklist"]
    if case["sign"] is not None:
        kwargs["sign_sensitive"] = case["sign"]
    pdg = gcl.PdgArray(codes)
    got = pdg.mask(given, **kwargs)
    norm = (lambda c: c) if case["sign"] else abs
    hits = {norm(t) for t in target}
    drop = case["blacklist"] is not False
    want = [(norm(c) in hits) != drop for c in codes]
    require(isinstance(got, gcl.MaskArray), "not a mask", type(got))
    require(np.array_equal(got.data, np.array(want, bool)), "mask", got.data,
            "not", want, "for", codes, target, kwargs)
    same_rows(pdg, np.array(codes, "<i4").reshape(-1), "codes")
    other = pdg.mask(given, blacklist=not drop,
                     sign_sensitive=bool(case["sign"]))
    require(np.array_equal(other.data, ~np.array(want, bool)),
            "black- and whitelist are not complements")
    if form in ("array", "i8"):
        require(given.tolist() == target, "targets were changed")


_counts = TABLE["name"].value_counts()
UNIQUE = [str(n) for n in TABLE["name"] if _counts[n] == 1]
_BY_NAME = {str(n): int(c) for c, n in TABLE["name"].items()}


@sub("P17",
     st.fixed_dictionaries({
         "names": st.lists(st.sampled_from(UNIQUE), min_size=1, max_size=8),
         "form": st.sampled_from(["list", "tuple", "one", "iter", "array"]),
         "bad": st.integers(0, 5)}),
     quick=150, thorough=3000, rule="names which are in the table",
     nontrivial=lambda c: c["bad"] > 0)
def names(case):
    given = list(case["names"])
    if case["bad"] == 0:
        given.insert(len(given) // 2, "not a particle")
        for names in (given, "not a particle"):
            try:
                gcl.PdgArray.from_name(names)
            except ValueError:
                continue
            raise Violation("an unknown name was accepted")
        return
    if case["form"] == "one":
        given = given[:1]
        pdg = gcl.PdgArray.from_name(given[0])
    else:
        form = {"list": list, "tuple": tuple, "iter": iter,
                "array": np.array}[case["form"]]
        pdg = gcl.PdgArray.from_name(form(given))
    want = [_BY_NAME[n] for n in given]
    require(isinstance(pdg, gcl.PdgArray) and list(pdg) == want, "codes",
            list(pdg), "not", want)
    require([str(n) for n in pdg.name] == given, "names", pdg.name)


@sub("P17", enum=lambda tier, seed: ({"start": s} for s in
                                     range(0, len(UNIQUE), 100)),
     rule="every unambiguous name of the table")
def all_names(case):
    given = UNIQUE[case["start"]: case["start"] + 100]
    pdg = gcl.PdgArray.from_name(given)
    require(list(pdg) == [_BY_NAME[n] for n in given], "codes", list(pdg))


@sub("P17", st.sampled_from([3, ["d", 2], [1], 2.5, ["d", None]]), quick=4,
     rule="every case")
def not_names(case):
    try:
        gcl.PdgArray.from_name(case)
    except ValueError:
        return
    raise Violation("accepted as names", str(case))


# ------------------------------------------------------------------- P18
RULES["P18"] = "Status codes and bounds."

_status = st.one_of(
    st.integers(-95, 95), st.integers(-25, 25),
    st.sampled_from([0, 1, 21, -21, 22, -22, 23, -23, 24, -24, 20, 25, -32767,
                     32767]))


@sub("P18",
     st.fixed_dictionaries({
         "codes": st.lists(_status, max_size=15),
         "low": st.one_of(st.none(), _status),
         "high": st.one_of(st.none(), _status),
         "near": st.integers(0, 3), "sign": st.sampled_from([None, True, False]),
         "wide": st.sampled_from([None] * 6 + [
             32768, -32769, 40000, 65536 + 22, 99999, -99999, 2**31, -2**31])}),
     quick=1500, rule="some codes",
     nontrivial=lambda c: len(c["codes"]) > 0)
def ranges(case):
    codes, low, high = case["codes"], case["low"], case["high"]
    if codes and case["near"] & 1:  # bounds are inclusive
        low = abs(codes[0]) if not case["sign"] else codes[0]
    if codes and case["near"] & 2:
        high = abs(codes[-1]) if not case["sign"] else codes[-1]
    status = gcl.StatusArray(codes)
    kwargs = {}
    if low is not None:
        kwargs["min_status"] = low
    if high is not None:
        kwargs["max_status"] = high
    if case["sign"] is not None:
        kwargs["sign_sensitive"] = case["sign"]
    if case.get("wide") is not None:  # beyond what a status can be
        kwargs["max_status" if case["wide"] > 0 else "min_status"] = case[
            "wide"]
        low, high = kwargs.get("min_status"), kwargs.get("max_status")
    got = status.in_range(**kwargs)
    norm = (lambda c: c) if case["sign"] else abs
    want = [(0 if low is None else low) <= norm(c)
            and (high is None or norm(c) <= high) for c in codes]
    require(isinstance(got, gcl.MaskArray)
            and np.array_equal(got.data, np.array(want, bool)), "mask",
            got.data, "not", want, kwargs)
    same_rows(status, np.array(codes, "<i2").reshape(-1), "codes")


HARD = {"incoming": 21, "intermediate": 22, "outgoing": 23,
        "outgoing_nonperturbative_diffraction": 24}


@sub("P18", st.lists(_status, max_size=15), quick=600, rule="some hard parton",
     nontrivial=lambda c: any(21 <= abs(i) <= 24 for i in c),
     examples=[list(range(-30, 31))])
def hard_masks(case):
    status = gcl.StatusArray(case)
    for group in (status.hard_mask,
                  gcl.Graphicle.from_numpy(status=case).hard_mask):
        require(list(group.keys()) == list(HARD), "stages",
                list(group.keys()))
        for name, code in HARD.items():
            want = [abs(c) == code for c in case]
            require(np.array_equal(group[name].data, np.array(want, bool)),
                    name, group[name].data, "not", want)
        want = [21 <= abs(c) <= 24 for c in case]
        require(np.array_equal(group.data, np.array(want, bool)),
                "hard process", group.data, "not", want)
        del group["incoming"]
        want = [22 <= abs(c) <= 24 for c in case]
        require(np.array_equal(group.data, np.array(want, bool)),
                "without incoming", group.data, "not", want)
    require(list(status.hard_mask.keys()) == list(HARD), "after deletion")


# ------------------------------------------------------------------- P19
RULES["P19"] = "Record contents, attributes given, layout, and provider."


@st.composite
def imports(draw):
    return {
        "record": draw(record_cases()),
        "via": draw(st.sampled_from(["particles", "event", "provider",
                                     "masks", "own_masks", "slots"])),
        "layout": draw(st.sampled_from(["plain", "struct", "record", "wide",
                                        "lists", "fortran", "strided",
                                        "various"])),
        "seed": draw(seeds),
    }


FIELDS = {"pmu": "xyze", "color": ("color", "anticolor"),
          "edges": ("src", "dst")}


def laid(attr, arr, layout):
    if layout == "lists":
        return arr.tolist()
    if layout == "struct" and attr in FIELDS:
        dtype = [(n, arr.dtype) for n in FIELDS[attr]]
        return np.array([tuple(r) for r in arr.tolist()], dtype=dtype)
    if layout == "record" and attr in FIELDS:  # fields the other way around
        order = list(range(arr.shape[1]))[::-1]
        return np.rec.fromarrays(
            [arr[:, i] for i in order],
            names=[FIELDS[attr][i] for i in order])
    if layout == "wide" and arr.dtype.kind == "i":
        return arr.astype("<i8")
    if layout == "fortran" and arr.ndim == 2:
        return np.asfortranarray(arr)
    if layout == "strided":
        return np.repeat(arr, 2, axis=0)[::2]
    return arr.copy()


class Provider:
    """Looks up only what it was given, like an event of another package."""

    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


@sub("P19", imports(), quick=500, rule="some particles, some attributes",
     nontrivial=lambda c: c["record"]["num"] > 0 and c["record"]["attrs"])
def importing(case):
    parts = record_parts(case["record"])
    via = case["via"]
    if via == "particles":
        parts = {k: v for k, v in parts.items() if k in ATTRS}
    if via not in ("particles", "event"):
        parts.pop("weights", None)
    styles = ["plain", "struct", "record", "wide", "lists", "fortran"]
    rng = np.random.default_rng(case["seed"])
    given = {}
    for key, val in parts.items():
        layout = case["layout"]
        if layout == "various":
            layout = str(rng.choice(styles))
        given[key] = laid(key, val, layout)
    keep = {k: np.array(v, copy=True) for k, v in given.items()}
    if via == "particles":
        record = gcl.ParticleSet.from_numpy(**given)
        check_record(record, parts, via)
    else:
        if via == "event":
            graph = gcl.Graphicle.from_numpy(**given)
        elif via == "masks" and "final" in given:
            rest = {k: v for k, v in given.items() if k != "final"}
            event = Provider(masks={"final": given["final"]}, extra=3, **rest)
            graph = gcl.Graphicle.from_event(event)
        elif via == "own_masks":  # other selections, one of the same name
            num = case["record"]["num"]
            other = {k: rng.random(num) < 0.5 for k in ("signal", "final")}
            if "final" not in given:
                del other["final"]
            graph = gcl.Graphicle.from_event(Provider(masks=other, **given))
        elif via == "slots":
            cls = type("Slots", (), {k: property(lambda self, v=v: v)
                                     for k, v in given.items()})
            graph = gcl.Graphicle.from_event(cls())
        else:
            graph = gcl.Graphicle.from_event(Provider(**given))
        check_event(graph, parts, via)
    for key, val in given.items():
        require(np.array_equal(np.array(val), keep[key]), key,
                "of the provider was changed")


LHE_STATUS = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}


@sub("P19",
     st.fixed_dictionaries({
         "status": st.lists(st.sampled_from([-1, 1, 2, -2, 3, -9, 1, 7]),
                            min_size=1, max_size=12),
         "layout": st.sampled_from(["plain", "struct", "record", "wide",
                                     "strided"]),
         "seed": seeds}),
     quick=300, rule="every case")
def les_houches(case):
    num = len(case["status"])
    parts = {a: content(a, num, case["seed"]) for a in ATTRS if a != "final"}
    parts["status"] = np.array(case["status"], "<i2")
    given = {k: laid(k, v, case["layout"]) for k, v in parts.items()}
    keep = {k: v.copy() for k, v in given.items()}
    event = Provider(**given)
    for _ in range(2):  # the second time gives the same
        record = gcl.ParticleSet.from_lhe_event(event)
        want = dict(parts)
        want["status"] = np.array(
            [LHE_STATUS.get(s, s) for s in case["status"]])
        want["final"] = np.zeros(num, bool)
        check_record(record, want, "les houches")
    for key, val in given.items():
        require(np.array_equal(val, keep[key]) and val.dtype == keep[key].dtype,
                key, "of the provider was changed")


# ------------------------------------------------------------------- P37
RULES["P37"] = "Records of up to 200 particles, some attributes unset."


@st.composite
def shown(draw):
    case = draw(record_cases(0, 130))
    case["num"] = draw(st.one_of(
        st.integers(0, 8), st.integers(0, 130),
        st.sampled_from([1, 59, 60, 61, 62, 70])))
    case["names"] = draw(st.booleans())
    return case


def expect_rows(parts, num):
    heads, cols = [], []
    for attr in ATTRS:
        if attr not in parts:
            continue
        arr = parts[attr]
        if attr == "pdg":
            heads.append("name")
            cols.append([str(_COLS["name"][int(c)]) for c in arr])
        elif attr == "pmu":
            heads += ["px", "py", "pz", "energy"]
            cols += [[format(float(v), ".2E") for v in c] for c in arr.T]
        elif attr == "color":
            heads += ["color", "anticolor"]
            cols += [[str(int(v)) for v in c] for c in arr.T]
        elif attr == "final":
            heads.append(attr)
            cols.append([str(bool(v)) for v in arr])
        else:
            heads.append(attr)
            cols.append([str(int(v)) for v in arr])
    return heads, cols


def from_html(text):
    heads = [htmllib.unescape(re.sub("<.*?>", "", h)).strip()
             for h in re.findall("<th[ >].*?</th>", text, re.S)]
    rows = []
    for row in re.findall(r"<tr>(.*?)</tr>", text, re.S):
        cells = re.findall(r"<td.*?>(.*?)</td>", row, re.S)
        if cells:
            rows.append([htmllib.unescape(c).strip() for c in cells])
    return heads, rows


def same_cell(got, want):
    if got == want:
        return True
    try:  # the same number in other words
        return abs(float(got) - float(want)) <= 1e-12 * abs(float(want))
    except ValueError:
        return False


@sub("P37", shown(), quick=250, rule="some particles, some attributes",
     nontrivial=lambda c: c["num"] > 0 and (c["attrs"] or c["edges"] != "none"))
def tables(case):
    parts = record_parts(case)
    num = case["num"]
    if case["names"] and "pdg" in parts:
        rng = np.random.default_rng(case["seed"] + 5)
        parts["pdg"] = rng.choice(CODES, size=num).astype("<i4")
    graph = event_of(parts)
    for record, own in (
        (graph, parts),
        (graph.particles, {k: v for k, v in parts.items() if k in ATTRS}),
    ):
        repr(record)
        own = {k: v for k, v in own.items() if len(v)}
        heads, cols = expect_rows(own, num)
        if "edges" in own:
            heads = heads + ["src", "dst"]
            cols = cols + [[str(int(v)) for v in c] for c in own["edges"].T]
        size = num if own else 0
        rows = [list(r) for r in zip(*cols)]
        if size > 60:
            rows = rows[:5] + [["..."] * len(heads)] + rows[-5:]
        stat = f"{size} particles \u00d7 {len(heads)} attributes"
        text = str(record)
        lines = text.rstrip("\n").split("\n")
        require(lines[-1].strip() == f"[{stat}]", "size line", lines[-1],
                "not", stat)
        body = [l for l in lines[:-1] if l.strip()]
        if heads:
            require(body[0].split() == heads, "headers", body[0], "not",
                    heads)
        else:
            require(not body, "body of an empty table", body)
        body = body[1:]
        require(len(body) == len(rows), "rows", len(body), "not", len(rows))
        for line, row in zip(body, rows):
            cells = line.split()
            flat = " ".join(row).split()
            require(len(cells) == len(flat)
                    and all(map(same_cell, cells, flat)), "row", line, "not",
                    row)
        page = record._repr_html_()
        require(stat in page, "size of the page")
        got_heads, got_rows = from_html(page)
        require(got_heads == heads, "headers of the page", got_heads, "not",
                heads)
        require(len(got_rows) == len(rows), "rows of the page", len(got_rows))
        for got, want in zip(got_rows, rows):
            require(len(got) == len(want)
                    and all(map(same_cell, got, want)), "row of the page",
                    got, "not", want)
    check_event(graph, parts, "after display")


NUMBER = re.compile(
    r"[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|True|False|\.\.\.")


def same_number(token, want):
    if isinstance(want, bool):
        return token == str(want)
    if isinstance(want, int):
        return token == str(want)
    if token in ("True", "False", "..."):
        return False
    got = float(token)
    return abs(got - want) <= 1e-7 * (1.0 + abs(want)) or got == want


@sub("P37",
     st.tuples(st.sampled_from(sorted(KINDS)),
               st.one_of(st.integers(0, 6), st.integers(0, 230),
                         st.sampled_from([999, 1000, 1001, 1500])),
               seeds, st.sampled_from(["any", "small", "wild"])).map(list),
     quick=250, rule="the array is not empty", nontrivial=lambda c: c[1] > 0)
def array_display(case):
    kind, num, seed, style = case
    want = values(kind, num, seed, style)
    obj = KINDS[kind][0](want.copy())
    flat = want.ravel().tolist()
    for text in (repr(obj), str(obj)):
        name = KINDS[kind][0].__name__
        require(text.startswith(name + "(") and text.endswith(")"), "shown as",
                text[:80])
        head, gap, tail = text[len(name) + 1:-1].rpartition("dtype=")
        if num and KINDS[kind][1] > 1:
            # field types, which have brackets of their own
            head, gap, tail = text[len(name) + 1:-1].partition("dtype=")
        require(gap, "type is shown", text[-80:])
        tokens = NUMBER.findall(head)
        if "..." in tokens:
            require(len(flat) > 1000, "abridged", text[:80])
            cut = tokens.index("...")
            front, back = tokens[:cut], tokens[cut + 1:]
            back = [t for t in back if t != "..."]
            require(front and back, "abridged to nothing", text)
        else:
            front, back = tokens, []
            require(len(tokens) == len(flat), "numbers shown", len(tokens),
                    "not", len(flat))
        for token, val in zip(front, flat):
            require(same_number(token, val), "shown", token, "for", val)
        for token, val in zip(reversed(back), reversed(flat)):
            require(same_number(token, val), "shown", token, "for", val)
    same_rows(obj, want, "after display")


def tree_rows(items, depth=1):
    for name, val in items:
        yield depth, name
        if isinstance(val, dict):
            yield from tree_rows(val["items"], depth + 1)


SPECIAL = ["J/psi[3S1(8)]", "a[/b]", "[red]", "W+", "c:x:", "pi0 ", "t~",
           "", "B*_c+"]


@st.composite
def shown_trees(draw):
    case = draw(mask_trees())

    def rename(tree):
        for num, item in enumerate(tree["items"]):
            if draw(st.integers(0, 3)) == 0:
                item[0] = draw(st.sampled_from(SPECIAL)) + str(num)
            if isinstance(item[1], dict):
                rename(item[1])

    rename(case["tree"])
    return case


@sub("P37", shown_trees(), quick=150, rule="the tree is nested",
     nontrivial=lambda c: any(isinstance(v, dict)
                              for _, v in c["tree"]["items"]))
def tree_display(case):
    tree = case["tree"]
    group = to_group(tree)
    lines = str(group).rstrip("\n").split("\n")
    require("MaskGroup" in lines[0] and tree["agg"].upper() in lines[0],
            "first line", lines[0])
    got = []
    for line in lines[1:]:
        found = re.match("((?:[\u2502 ]   )*)(?:\u251c|\u2514)\u2500\u2500 (.*)$",
                         line)
        require(found, "line", line)
        got.append((len(found[1]) // 4 + 1, found[2].rstrip()))
    want = [(d, n.rstrip()) for d, n in tree_rows(tree["items"])]
    require(got == want, "tree", got, "not", want)
    text = repr(group)
    require(text.startswith("MaskGroup(") and tree["agg"].upper() in text,
            "repr", text)
    spot = 0
    for name, _ in tree["items"]:
        spot = text.find('"' + name + '"', spot)
        require(spot >= 0, "name", name, "in", text)
        spot += 1
