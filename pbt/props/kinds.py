"""P43: what an argument means depends on its value, not on its kind."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate, matrix, select, transform

from ..core import RULES, require, sub
from ..events import events
from ..gen import seeds
from .defaults import _EVENT, world
from .purity import alike, freeze

RULES["P43"] = (
    "A call on an event or particle set, one argument of which is given as"
    " numbers or collections of several kinds."
)


# ------------------------------------------------- equal values of all kinds
def real(val):
    out = {"float": float(val), "float64": np.float64(val)}
    if float(val).is_integer():
        out["int"] = int(val)
    return out


def wide_real(val):
    out = dict(real(val), array=np.array(float(val)))
    if float(val).is_integer():
        out.update(int64=np.int64(val), int32=np.int32(val))
    return out


def integer(val):
    out = {"int": int(val), "int64": np.int64(val), "int32": np.int32(val)}
    if abs(val) < 2**15:
        out["int16"] = np.int16(val)
    return out


def each_real(val):
    """One for each particle."""
    return {"contiguous": np.array(val), "strided": np.repeat(val, 2)[::2],
            "reversed": np.array(val[::-1])[::-1]}


def iterable(val):
    val = [int(v) for v in val]
    return {"list": val, "tuple": tuple(val), "set": set(val),
            "frozenset": frozenset(val), "iterator": iter(val),
            "generator": (v for v in val), "array": np.array(val, "<i8"),
            "keys": dict.fromkeys(val), "PdgArray": gcl.PdgArray(val),
            "repeated": val + val[:1], "reversed": val[::-1]}


def code_list(val):
    val = [int(v) for v in val]
    return {"list": val, "tuple": tuple(val), "array": np.array(val, "<i8"),
            "short": np.array(val, "<i4"), "PdgArray": gcl.PdgArray(val),
            "repeated": val + val[:1], "reversed": val[::-1]}


def sequence(val):
    return {"list": list(val), "tuple": tuple(val)}


def reals(val):
    return {"list": list(val), "tuple": tuple(val), "array": np.array(val),
            "numpy": tuple(map(np.float64, val)),
            "ints": tuple(int(v) if float(v).is_integer() else v
                          for v in val)}


def angles(val):
    out = reals(val)
    out["named"] = transform.SphericalAngle(*val)
    return out


def code_set(val):
    return {"set": set(val), "frozenset": frozenset(val),
            "numpy": set(np.array(sorted(val), "<i8"))}


def mask(val):
    val = np.array(val)
    return {"array": val, "MaskArray": gcl.MaskArray(val),
            "strided": np.repeat(val, 2)[::2],
            "or": gcl.MaskGroup({"a": val, "b": np.zeros_like(val)}, "or"),
            "and": gcl.MaskGroup({"a": val, "b": np.ones_like(val)}, "and")}


def one_mask(val):
    return {"MaskArray": gcl.MaskArray(np.array(val)),
            "strided": gcl.MaskArray(np.repeat(val, 2)[::2]),
            "array": np.array(val)}


def mask_list(val):
    rows = [np.array(m.data) for m in val]
    return {"list": list(val), "tuple": tuple(val)}, rows


def mask_seq(val):
    return mask_list(val)[0]


def mask_iter(val):
    out, rows = mask_list(val)
    group = gcl.MaskGroup({str(i): m for i, m in enumerate(rows)}, "or")
    out.update(iterator=iter(val), arrays=rows, rows=np.array(rows),
               group=group.values(), generator=(m for m in val))
    return out


def names(val):
    return {"list": list(val), "tuple": tuple(val), "iterator": iter(val),
            "generator": (v for v in val), "keys": dict.fromkeys(val),
            "array": np.array(val), "numpy": list(map(np.str_, val)),
            "objects": np.array(val, object), "special": list(map(Word, val))}


class Word(str):
    """A string of a kind of its own."""


def word(val):
    return {"str": str(val), "numpy": np.str_(val), "special": Word(val)}


def words(val):
    return {"list": list(val), "numpy": list(map(np.str_, val)),
            "special": list(map(Word, val))}


def edge_kinds(val):
    return {"pair": gcl.VertexPair(*val), "tuple": tuple(val),
            "numpy": tuple(map(np.int32, val)), "list": list(val)}


def pick(*options):
    return lambda w, num: options[num % len(options)]


def _ruled(w, rule):
    group = gcl.MaskGroup(dict(w["flat"].items()), rule)
    return group, np.asarray(group), group.agg_op.name


def _set_rule(w, rule):
    group = w["group"].copy()
    group.agg_op = rule
    return group, np.asarray(group), group.agg_op.name


def _replaced(w, key):
    group = w["group"].copy()
    group[key] = w["bools"][3]
    return group, group[str(key)], np.asarray(group)


def _deleted(w, key):
    group = w["group"].copy()
    del group[key]
    return group, list(map(str, group))


def _vertex(w, num):
    edges = w["graph"].edges
    return int(edges["dst" if num % 2 else "src"][num // 2 % len(edges)])


def _edge(w, num):
    edge = w["graph"].edges[num % len(w["graph"])]
    return int(edge["src"]), int(edge["dst"])


def _hard_codes(w, num):
    graph = w["graph"]
    codes = sorted(set(map(int, graph.pdg[graph.hard_mask].data)))
    return [codes[num % len(codes)], codes[num // 7 % len(codes)]]


def _shifts(w, num):
    return np.random.default_rng(num).normal(size=len(w["heavy"]))


# name: the call, the values, and their kinds
CALLS = {
    "centroid_prune radius": (
        lambda w, x: select.centroid_prune(w["pmu"], x), pick(1.0, 0.5, 2.0),
        wide_real),
    "centroid_prune centre": (
        lambda w, x: select.centroid_prune(w["pmu"], 1.0, centre=x),
        pick((0.5, -0.25), (1.0, 2.0), (0.0, 3.0)), reals),
    "centroid_prune mask": (
        lambda w, x: select.centroid_prune(w["pmu"], 1.5, x),
        lambda w, num: w["masks"][num % 4].data, one_mask),
    "cluster_coeff radius": (
        lambda w, x: calculate.cluster_coeff_distbn(w["heavy"], x),
        pick(1.0, 1.5, 2.0), wide_real),
    "cluster_coeff threads": (
        lambda w, x: calculate.cluster_coeff_distbn(w["heavy"], 1.5, True, x),
        pick(1, 2, 3), integer),
    "delta_R threads": (
        lambda w, x: w["mini"].delta_R(w["cand"], True, x), pick(1, 2, 3),
        integer),
    "arg_closest threads": (
        lambda w, x: select.arg_closest(w["mini"], w["cand"], x),
        pick(1, 2, 3), integer),
    "thrust seed": (
        lambda w, x: calculate.thrust(w["pmu"], rng_seed=x), pick(0, 1, 77),
        integer),
    "spherocity seed": (
        lambda w, x: calculate.spherocity(w["pmu"], rng_seed=x),
        pick(0, 1, 77), integer),
    "sampling size": (
        lambda w, x: gcl.MomentumArray.from_spherical_uniform(
            x, 10.0, 0.5, w["seed"]), pick(4, 0, 11), integer),
    "sampling energy": (
        lambda w, x: gcl.MomentumArray.from_spherical_uniform(
            5, x, 0.5, w["seed"]), pick(10.0, 0.5, 1.0), wide_real),
    "sampling massless": (
        lambda w, x: gcl.MomentumArray.from_spherical_uniform(
            5, 10.0, x, w["seed"]), pick(0.0, 1.0, 0.5), wide_real),
    "sampling seed": (
        lambda w, x: gcl.MomentumArray.from_spherical_uniform(
            5, 10.0, 0.5, x), pick(0, 1, 77), integer),
    "shift_rapidity": (
        lambda w, x: w["heavy"].shift_rapidity(x), pick(2.0, -0.25, 0.0, -1.0),
        wide_real),
    "shift_phi": (
        lambda w, x: w["heavy"].shift_phi(x), pick(2.0, -0.25, 0.0, -7.0),
        wide_real),
    "shift_eta": (
        lambda w, x: w["heavy"].shift_eta(x), pick(1.0, -0.25, 0.0, -2.0),
        wide_real),
    "shift_eta corrections": (
        lambda w, x: w["heavy"].shift_eta(0.5, False, x), pick(10, 0, 1),
        integer),
    "shift_eta tolerance": (
        lambda w, x: w["heavy"].shift_eta(0.5, False, 10, x),
        pick(0.5, 1.0, 1e-9), wide_real),
    "shift_rapidity each": (
        lambda w, x: w["heavy"].shift_rapidity(x), _shifts, each_real),
    "shift_phi each": (
        lambda w, x: w["heavy"].shift_phi(x), _shifts, each_real),
    "combined_mass weights": (
        lambda w, x: calculate.combined_mass(w["heavy"], x[:, None]), _shifts,
        each_real),
    "jaccard weights": (
        lambda w, x: calculate.jaccard_distance(
            gcl.MaskArray(w["bools"][0][:6]), w["bools"][1][:6], x),
        lambda w, num: np.abs(_shifts(w, num)), each_real),
    "jaccard mask": (
        lambda w, x: calculate.jaccard_distance(x, w["bools"][3]),
        lambda w, num: w["bools"][num % 3], mask),
    "jaccard other": (
        lambda w, x: calculate.jaccard_distance(w["bools"][3], x),
        lambda w, num: w["bools"][num % 3], mask),
    "aggregate masks": (
        lambda w, x: calculate.aggregate_momenta(w["pmu"], x),
        lambda w, num: w["masks"][: 1 + num % 4], mask_iter),
    "select": (
        lambda w, x: w["graph"][x], lambda w, num: w["bools"][num % 4], mask),
    "mask and": (
        lambda w, x: gcl.MaskArray(w["bools"][3]) & x,
        lambda w, num: w["bools"][num % 3], mask),
    "mask or": (
        lambda w, x: gcl.MaskArray(w["bools"][3]) | x,
        lambda w, num: w["bools"][num % 3], mask),
    "mask equal": (
        lambda w, x: gcl.MaskArray(w["bools"][3]) == x,
        lambda w, num: w["bools"][num % 3], mask),
    "group and": (
        lambda w, x: w["group"] & x, lambda w, num: w["bools"][num % 4],
        mask),
    "pdg mask": (
        lambda w, x: w["graph"].pdg.mask(x, False), _hard_codes, code_list),
    "pdg mask one": (
        lambda w, x: w["graph"].pdg.mask(x), pick(5, 21, -11), integer),
    "in_range lower": (
        lambda w, x: w["wide"].in_range(x), pick(0, 5, 23), integer),
    "in_range upper": (
        lambda w, x: w["wide"].in_range(-5, x, True), pick(0, 5, 23), integer),
    "cut": (
        lambda w, x: matrix.cut_adj(w["matrix"], x), pick(1.0, 0.5, 0.0),
        wide_real),
    "knn": (
        lambda w, x: matrix.knn_adj(w["matrix"], x), pick(1, 2, 3), integer),
    "complete": (
        lambda w, x: matrix.fc_adj(x), pick(0, 1, 4), integer),
    "exponent": (
        lambda w, x: matrix.parton_hadron_distance(w["mini"], w["pmu"], x),
        pick(-1.0, 0.0, 2.0, 0.5), wide_real),
    "partition exponent": (
        lambda w, x: select.partition_descendants(w["graph"], w["hier"], x),
        pick(-1.0, 0.0, 1.0, 0.5), wide_real),
    "jet radius": (
        lambda w, x: select.fastjet_clusters(w["pmu"], x, -1),
        pick(1.0, 0.5, 2.0), real),
    "jet power": (
        lambda w, x: select.fastjet_clusters(w["pmu"], 0.6, x),
        pick(-1.0, 0.0, 1.0, 2.0, -2.0, 0.5), wide_real),
    "jet pt cut": (
        lambda w, x: select.fastjet_clusters(w["pmu"], 0.5, -1, x),
        pick(2.0, 0.0, 10.0, 0.5), wide_real),
    "jet eta cut": (
        lambda w, x: select.fastjet_clusters(w["pmu"], 0.5, -1, eta_cut=x),
        pick(2.0, 1.0, 0.5), wide_real),
    "vertex in": (
        lambda w, x: select.find_vertex(w["graph"], x), _hard_codes,
        code_set),
    "vertex out": (
        lambda w, x: select.find_vertex(w["graph"], pdgs_out=x), _hard_codes,
        code_set),
    "vertex descendants": (
        lambda w, x: select.vertex_descendants(w["graph"].adj, x), _vertex,
        integer),
    "edge descendants": (
        lambda w, x: select.edge_descendants(w["graph"].adj, x), _edge,
        edge_kinds),
    "targets": (
        lambda w, x: select.hard_descendants(w["graph"], x, strict=False),
        _hard_codes, iterable),
    "signed targets": (
        lambda w, x: select.hard_descendants(w["graph"], x, True, False),
        _hard_codes, iterable),
    "clusters radius": (
        lambda w, x: select.clusters(w["graph"], x), pick(1.0, 0.5, 2.0),
        wide_real),
    "tag clusters": (
        lambda w, x: select.monte_carlo_tag(w["graph"].particles, x),
        lambda w, num: w["jets"], mask_seq),
    "tag without": (
        lambda w, x: select.monte_carlo_tag(
            w["graph"].particles, w["jets"], blacklist=x), _hard_codes,
        sequence),
    "tag only": (
        lambda w, x: select.monte_carlo_tag(
            w["graph"].particles, w["jets"], whitelist=x), _hard_codes,
        sequence),
    "split fraction": (
        lambda w, x: transform.split_momentum(w["single"], x, 0.5, (0.5, 1.0)),
        pick(0.5, 1.0, 0.25, 0.0), wide_real),
    "split angle": (
        lambda w, x: transform.split_momentum(w["single"], 0.3, x, (0.5, 1.0)),
        pick(1.0, 0.5, -3.0), wide_real),
    "split axis": (
        lambda w, x: transform.split_momentum(w["single"], 0.3, 1.0, x),
        pick((0.5, 1.0), (1.0, 2.0), (0.0, 0.5), (2.0, -1.0)), angles),
    "split hardest fraction": (
        lambda w, x: transform.split_hardest(w["pmu"], x, 0.5),
        pick(0.5, 0.25), wide_real),
    "split hardest angle": (
        lambda w, x: transform.split_hardest(w["pmu"], 0.3, x),
        pick(1.0, 0.5, -3.0), wide_real),
    "split hardest axis": (
        lambda w, x: transform.split_hardest(w["pmu"], 0.3, 1.0, x),
        pick((0.5, 1.0), (1.0, 2.0), (0.0, 0.5), (2.0, -1.0)), angles),
    "rotation angle": (
        lambda w, x: transform.rotation_matrix(
            x, transform.SphericalAngle(0.5, 1.0)), pick(1.0, 0.5, -3.0),
        wide_real),
    "rotation axis": (
        lambda w, x: transform.rotation_matrix(
            1.0, transform.SphericalAngle(*x)),
        pick((0.5, 1.0), (1.0, 2.0), (0.0, 0.5), (2.0, -1.0)), angles),
    "names": (
        lambda w, x: gcl.PdgArray.from_name(x),
        pick(["b", "b~"], ["W+", "u", "gamma"], ["t"]), names),
    "name": (
        lambda w, x: gcl.PdgArray.from_name(x), pick("b", "W+", "u~"), word),
    "cut_adj mode": (
        lambda w, x: matrix.cut_adj(w["matrix"], 0.8, x), pick("min", "max"),
        word),
    "group rule": (
        lambda w, x: _ruled(w, x), pick("or", "and"), word),
    "new rule": (
        lambda w, x: _set_rule(w, x), pick("or", "and"), word),
    "flatten how": (
        lambda w, x: w["group"].flatten(x), pick("rise", "agg", "leaves"),
        word),
    "drop key": (
        lambda w, x: w["group"].recursive_drop(x), pick("a", "latent", "in"),
        word),
    "key": (lambda w, x: w["group"][x], pick("b", "in"), word),
    "has key": (lambda w, x: x in w["group"], pick("b", "none"), word),
    "keys": (lambda w, x: w["group"][x],
             pick(["b", "a"], ["in"], ["in", "b"]), words),
    "set key": (lambda w, x: _replaced(w, x), pick("b", "in", "fresh"), word),
    "delete key": (lambda w, x: _deleted(w, x), pick("b", "in", "a"), word),
}


def answer(name, w, given):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return ("gave", freeze(CALLS[name][0](w, given), True))
        except (ValueError, IndexError) as err:
            return ("refused", type(err).__name__)


@st.composite
def kind_cases(draw):
    return {"event": draw(events()), "seed": draw(seeds),
            "call": draw(st.sampled_from(sorted(CALLS))),
            "value": draw(st.integers(0, 50)),
            "order": draw(st.integers(0, 20))}


def run_kinds(case):
    name = case["call"]
    _, value, kinds = CALLS[name]
    w = world(case)
    given = kinds(value(w, case["value"]))
    order = list(given)
    turn = case["order"] % len(order)
    first, want = None, None
    for kind in order[turn:] + order[:turn]:
        got = answer(name, w, given[kind])
        if want is None:
            first, want = kind, got
            continue
        require(alike(got, want), name, "given as", kind, "answers", got,
                "but given as", first, want)
    return want[0] == "gave"


@sub("P43", kind_cases(), quick=250, thorough=20000,
     rule="the call gave an answer")
def some_kinds(case):
    return run_kinds(case)


def each_call(tier, seed):
    for num in range(1 if tier == "quick" else 30):
        for name in sorted(CALLS):
            for val in range(6):
                yield {"event": dict(_EVENT, seed=seed * 100 + num),
                       "seed": 1000 * seed + num, "call": name,
                       "value": val, "order": val + seed}


@sub("P43", enum=each_call, rule="the call gave an answer")
def each_kind(case):
    return run_kinds(case)
