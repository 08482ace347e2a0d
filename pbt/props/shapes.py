"""P47: answers have the documented kind, and one entry per thing asked about."""
from __future__ import annotations

import numbers
import warnings

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate, matrix, select, transform

from ..core import RULES, require, sub
from ..events import events, build
from ..gen import seeds
from .purity import alike, freeze
from .records import UNIQUE

RULES["P47"] = (
    "A call on an event, or on a set of any number of its particles, none"
    " and one included, and the kind, length, shape and numeric type of the"
    " answer."
)


# ------------------------------------------------------------------- kinds
def a_number(out, about):
    require(isinstance(out, numbers.Real) or (
        isinstance(out, np.ndarray) and out.shape == ()
        and out.dtype.kind == "f"), about, "is no number but", out)
    require(not isinstance(out, (bool, np.bool_)), about, "is a truth value")


def a_truth(out, about):
    require(isinstance(out, (bool, np.bool_)), about, "is no truth value but",
            out)


def an_array(dtype, *shape):
    """A numpy array of a kind (``f``), or of exactly one type (``<f8``)."""

    def judge(out, about):
        require(type(out) is np.ndarray, about, "is no numpy array but",
                type(out))
        require(out.shape == shape, about, "has the shape", out.shape,
                "but should have", shape)
        if len(dtype) == 1:
            require(out.dtype.kind == dtype, about, "has the type", out.dtype)
        else:
            require(out.dtype == np.dtype(dtype), about, "has the type",
                    out.dtype, "but should have", dtype)

    return judge


def a_mask(num):
    def judge(out, about):
        require(isinstance(out, gcl.MaskArray), about, "is no mask but",
                type(out))
        require(len(out) == num, about, "has the length", len(out), "not", num)
        an_array("b", num)(out.data, f"data of {about}")
        an_array("b", num)(np.asarray(out), f"array of {about}")

    return judge


def a_group(num, rule=None, flat=False):
    def judge(out, about):
        require(isinstance(out, gcl.MaskGroup), about, "is no group but",
                type(out))
        if rule is not None:
            require(out.agg_op == rule or out.agg_op.value == rule
                    or out.agg_op.name == rule.upper(), about,
                    "has the rule", out.agg_op, "but should have", rule)
        for key, val in out.items():
            require(isinstance(key, str), about, "has the key", key)
            if isinstance(val, gcl.MaskGroup) and not flat:
                a_group(num)(val, f"{key} of {about}")
            else:
                a_mask(num)(val, f"{key} of {about}")
        if len(out):
            an_array("b", num)(out.data, f"data of {about}")

    return judge


def instance(cls, num):
    def judge(out, about):
        require(type(out) is cls, about, "is no", cls.__name__, "but",
                type(out))
        require(len(out) == num, about, "has the length", len(out), "not", num)
        if cls is gcl.AdjacencyList:
            require(out.edges.shape == (num,), about, "edges", out.edges.shape)
        elif hasattr(out, "data"):
            require(out.data.shape == (num,), about, "data", out.data.shape)

    return judge


def a_record(cls, num):
    def judge(out, about):
        require(type(out) is cls, about, "is no", cls.__name__, "but",
                type(out))
        for name, kind in RECORD.items():
            instance(kind, num)(getattr(out, name), f"{name} of {about}")
        require(len(out) == num, about, "has the length", len(out), "not", num)
        if cls is gcl.Graphicle:
            instance(gcl.AdjacencyList, num)(out.adj, f"edges of {about}")
            a_record(gcl.ParticleSet, num)(out.particles, f"set of {about}")

    return judge


RECORD = {"pdg": gcl.PdgArray, "pmu": gcl.MomentumArray,
          "color": gcl.ColorArray, "helicity": gcl.HelicityArray,
          "status": gcl.StatusArray, "final": gcl.MaskArray}


def a_tuple(*parts):
    def judge(out, about):
        require(isinstance(out, tuple) and len(out) == len(parts), about,
                "is no tuple of", len(parts), "but", out)
        for num, (part, item) in enumerate(zip(parts, out)):
            part(item, f"item {num} of {about}")

    return judge


def many(container, part, num=None):
    """``num`` things of one kind, in a list or a tuple."""

    def judge(out, about):
        require(type(out) is container, about, "is no", container.__name__,
                "but", type(out))
        if num is not None:
            require(len(out) == num, about, "has", len(out), "items, not", num)
        for idx, item in enumerate(out):
            part(item, f"item {idx} of {about}")

    return judge


def an_index(out, about):
    require(isinstance(out, numbers.Integral)
            and not isinstance(out, (bool, np.bool_)), about,
            "is no integer but", out)


def a_text(out, about):
    require(isinstance(out, str) and len(out) > 0, about, "is no text but",
            out)


def texts(num):
    def judge(out, about):
        require(type(out) is np.ndarray and out.shape == (num,), about, "is",
                out)
        require(all(isinstance(item, str) for item in out), about,
                "holds other than text", out)

    return judge


def sparse(num):
    def judge(out, about):
        require(hasattr(out, "toarray") and hasattr(out, "row"), about,
                "is no sparse COO array but", type(out))
        require(out.shape == (num, num), about, "has the shape", out.shape)

    return judge


def named(*shape):
    """Array with named columns."""

    def judge(out, about):
        require(type(out) is np.ndarray and out.dtype.names, about, "has no"
                " columns:", out)
        require(out.shape == shape, about, "has the shape", out.shape)

    return judge


# ------------------------------------------------------------------- calls
def _vec(attr, dtype="<f8"):
    return (lambda w: getattr(w["pmu"], attr),
            lambda w: an_array(dtype, w["num"]))


def _pdg(attr, dtype="<f8"):
    return (lambda w: getattr(w["set"].pdg, attr),
            lambda w: an_array(dtype, w["num"]))


def clear_names(w):
    """Names of the particles, but for those which several species share."""
    names = w["set"].pdg.name
    return names[np.isin(names, UNIQUE)]


# asked of any number of particles
OF_SETS = {
    **{f"pmu.{a}": _vec(a) for a in (
        "x", "y", "z", "energy", "pt", "eta", "rapidity", "phi", "theta",
        "mass", "mass_t")},
    **{f"pdg.{a}": _pdg(a) for a in (
        "charge", "mass", "width", "isospin", "g_parity", "space_parity",
        "charge_parity")},
    **{f"pdg.{a}": (lambda w, a=a: getattr(w["set"].pdg, a),
                    lambda w: texts(w["num"]))
       for a in ("name", "latex", "quarks")},
    **{f"pdg.{a}": (lambda w, a=a: getattr(w["set"].pdg, a),
                    lambda w: named(w["num"]))
       for a in ("mass_bounds", "width_bounds")},
    "color.color": (lambda w: w["set"].color.color,
                    lambda w: an_array("i", w["num"])),
    "color.anticolor": (lambda w: w["set"].color.anticolor,
                        lambda w: an_array("i", w["num"])),
    "status.hard_mask": (lambda w: w["set"].status.hard_mask,
                         lambda w: a_group(w["num"], flat=True)),
    "status.in_range": (lambda w: w["set"].status.in_range(20, 30),
                        lambda w: a_mask(w["num"])),
    "status.in_range_none": (lambda w: w["set"].status.in_range(),
                             lambda w: a_mask(w["num"])),
    "pdg.mask": (lambda w: w["set"].pdg.mask([21, 5]),
                 lambda w: a_mask(w["num"])),
    "pdg.mask_signed": (
        lambda w: w["set"].pdg.mask([-5], blacklist=False,
                                    sign_sensitive=True),
        lambda w: a_mask(w["num"])),
    "pdg.==": (lambda w: w["set"].pdg == 21, lambda w: a_mask(w["num"])),
    "pdg.!=": (lambda w: w["set"].pdg != w["set"].pdg,
               lambda w: a_mask(w["num"])),
    "status.==": (lambda w: w["set"].status == w["set"].status,
                  lambda w: a_mask(w["num"])),
    "helicity.!=": (lambda w: w["set"].helicity != 9,
                    lambda w: a_mask(w["num"])),
    "pmu.==": (lambda w: w["pmu"] == w["pmu"], lambda w: a_mask(w["num"])),
    "color.==": (lambda w: w["set"].color == w["set"].color,
                 lambda w: a_mask(w["num"])),
    "adj.==": (lambda w: w["part"].adj == w["part"].adj,
               lambda w: a_mask(w["num"])),
    "adj.!=": (lambda w: w["part"].adj != (0, 1),
               lambda w: a_mask(w["num"])),
    "final.&": (lambda w: w["set"].final & w["some"],
                lambda w: a_mask(w["num"])),
    "final.|": (lambda w: w["set"].final | w["some"].data,
                lambda w: a_mask(w["num"])),
    "final.~": (lambda w: ~w["set"].final, lambda w: a_mask(w["num"])),
    "final.==": (lambda w: w["set"].final == w["some"],
                 lambda w: a_mask(w["num"])),
    "group.&": (lambda w: w["group"] & w["some"], lambda w: a_mask(w["num"])),
    "group.|": (lambda w: w["group"] | w["group"],
                lambda w: a_mask(w["num"])),
    "group.~": (lambda w: ~w["group"], lambda w: a_mask(w["num"])),
    "group.!=": (lambda w: w["group"] != w["some"],
                 lambda w: a_mask(w["num"])),
    "group.or": (lambda w: w["group"].bitwise_or(),
                 lambda w: a_mask(w["num"])),
    "group.and": (lambda w: w["group"].bitwise_and(),
                  lambda w: a_mask(w["num"])),
    "group.copy": (lambda w: w["group"].copy(),
                   lambda w: a_group(w["num"], "or")),
    "group.drop": (lambda w: w["group"].recursive_drop("b"),
                   lambda w: a_group(w["num"], "or")),
    "group.select": (lambda w: w["group"][["in", "a"]],
                     lambda w: a_group(w["num"], "or")),
    **{f"group.flatten_{how}": (
        lambda w, how=how: w["group"].flatten(how),
        lambda w: a_group(w["num"], "or", flat=True))
        for how in ("rise", "agg", "leaves")},
    "group.equal_to": (lambda w: w["group"].equal_to(w["group"]),
                       lambda w: a_truth),
    "group.truth": (lambda w: bool(w["group"]), lambda w: a_truth),
    "delta_R": (lambda w: w["pmu"].delta_R(w["other"]),
                lambda w: an_array("<f8", w["num"], len(w["other"]))),
    "delta_R_self": (lambda w: w["pmu"].delta_R(w["pmu"], False),
                     lambda w: an_array("<f8", w["num"], w["num"])),
    "delta_R_from": (lambda w: w["other"].delta_R(w["pmu"]),
                     lambda w: an_array("<f8", len(w["other"]), w["num"])),
    "shift_phi": (lambda w: w["pmu"].shift_phi(0.7),
                  lambda w: instance(gcl.MomentumArray, w["num"])),
    "shift_rapidity": (lambda w: w["massive"].shift_rapidity(0.7),
                       lambda w: instance(gcl.MomentumArray, w["num"])),
    "shift_eta": (lambda w: w["massive"].shift_eta(0.7),
                  lambda w: instance(gcl.MomentumArray, w["num"])),
    "sum": (lambda w: np.sum(w["pmu"], axis=0),
            lambda w: instance(gcl.MomentumArray, 1)),
    "add": (lambda w: w["pmu"] + w["pmu"],
            lambda w: instance(gcl.MomentumArray, w["num"])),
    "scale": (lambda w: 2 * w["pmu"],
              lambda w: instance(gcl.MomentumArray, w["num"])),
    "combined_mass": (lambda w: calculate.combined_mass(w["pmu"]),
                      lambda w: a_number),
    "combined_mass_weighted": (
        lambda w: calculate.combined_mass(w["pmu"], w["weights"][:, None]),
        lambda w: a_number),
    "weighted_centroid": (lambda w: calculate.weighted_centroid(w["pmu"]),
                          lambda w: a_tuple(a_number, a_number)),
    "resultant_coords": (lambda w: calculate.resultant_coords(w["pmu"]),
                         lambda w: a_tuple(a_number, a_number)),
    "cluster_coeff": (
        lambda w: calculate.cluster_coeff_distbn(w["pmu"], 1.0),
        lambda w: an_array("<f4", w["num"])),
    "aggregate": (
        lambda w: calculate.aggregate_momenta(w["pmu"], [w["some"]] * 3),
        lambda w: instance(gcl.MomentumArray, 3)),
    "aggregate_one": (
        lambda w: calculate.aggregate_momenta(w["pmu"], [w["some"]]),
        lambda w: instance(gcl.MomentumArray, 1)),
    "aggregate_none": (
        lambda w: calculate.aggregate_momenta(w["pmu"], []),
        lambda w: instance(gcl.MomentumArray, 0)),
    "aggregate_group": (
        lambda w: calculate.aggregate_momenta(w["pmu"], w["group"].values()),
        lambda w: instance(gcl.MomentumArray, 3)),
    "thrust": (lambda w: calculate.thrust(w["pmu"], rng_seed=3),
               lambda w: a_number),
    "thrust_axis": (lambda w: calculate.thrust(w["pmu"], True, 3),
                    lambda w: a_tuple(a_number, an_array("<f8", 3))),
    "spherocity": (lambda w: calculate.spherocity(w["pmu"], rng_seed=3),
                   lambda w: a_number),
    "spherocity_axis": (lambda w: calculate.spherocity(w["pmu"], True, 3),
                        lambda w: a_tuple(a_number, an_array("<f8", 3))),
    "c_parameter": (lambda w: calculate.c_parameter(w["pmu"]),
                    lambda w: a_number),
    "jaccard": (
        lambda w: calculate.jaccard_distance(w["some"], w["set"].final),
        lambda w: a_number),
    "jaccard_weighted": (
        lambda w: calculate.jaccard_distance(
            w["some"].data, w["group"], w["weights"]), lambda w: a_number),
    "delta_R_aff": (lambda w: matrix.delta_R_aff(w["pmu"]),
                    lambda w: an_array("<f8", w["num"], w["num"])),
    "parton_hadron": (
        lambda w: matrix.parton_hadron_distance(w["other"], w["pmu"]),
        lambda w: an_array("<f8", len(w["other"]), w["num"])),
    "parton_hadron_from": (
        lambda w: matrix.parton_hadron_distance(w["pmu"], w["other"]),
        lambda w: an_array("<f8", w["num"], len(w["other"]))),
    **{f"cut_adj_{mode}{loop:d}{weighted:d}": (
        lambda w, a=(mode, loop, weighted): matrix.cut_adj(
            w["matrix"], 0.8, *a),
        lambda w, k=weighted: an_array("f" if k else "b", w["num"], w["num"]))
        for mode in ("max", "min") for loop in (False, True)
        for weighted in (False, True)},
    **{f"knn_adj_{loop:d}{weighted:d}{row:d}{dtype}": (
        lambda w, a=(loop, weighted, row, dtype): matrix.knn_adj(
            w["matrix"], min(1, w["num"] - 1), *a),
        lambda w, k=weighted, d=dtype: an_array(
            (d or "f") if k else "b", w["num"], w["num"]))
        for loop in (False, True) for weighted in (False, True)
        for row in (False, True) for dtype in (None, "<f4")},
    "fc_adj": (lambda w: matrix.fc_adj(w["num"]),
               lambda w: an_array("b", w["num"], w["num"])),
    **{f"fc_adj{dtype}": (
        lambda w, d=dtype: matrix.fc_adj(w["num"], dtype=d),
        lambda w, d=dtype: an_array(d, w["num"], w["num"]))
        for dtype in ("<f4", "<i8")},
    "centroid_prune": (lambda w: select.centroid_prune(w["pmu"], 1.0),
                       lambda w: a_mask(w["num"])),
    "centroid_prune_mask": (
        lambda w: select.centroid_prune(w["pmu"], 1.0, w["some"]),
        lambda w: a_mask(w["num"])),
    "centroid_prune_at": (
        lambda w: select.centroid_prune(w["pmu"], 1.0, w["some"], (0.1, 0.2)),
        lambda w: a_mask(w["num"])),
    "fastjet": (lambda w: select.fastjet_clusters(w["pmu"], 0.6, -1),
                lambda w: many(list, a_mask(w["num"]))),
    "fastjet_top": (
        lambda w: select.fastjet_clusters(w["pmu"], 0.1, 0, top_k=2),
        lambda w: many(list, a_mask(w["num"]))),
    "fastjet_cut": (
        lambda w: select.fastjet_clusters(w["pmu"], 0.6, 1, 0.5, 3.0),
        lambda w: many(list, a_mask(w["num"]))),
    "any_overlap": (lambda w: select.any_overlap(w["group"]),
                    lambda w: a_truth),
    "arg_closest": (lambda w: select.arg_closest(w["pmu"], w["both"]),
                    lambda w: many(list, an_index, w["num"])),
    "split_hardest": (
        lambda w: transform.split_hardest(w["massive"], 0.3, 0.5, (0.4, 1.1)),
        lambda w: instance(gcl.MomentumArray, w["num"] + 1)),
    "uniform": (
        lambda w: gcl.MomentumArray.from_spherical_uniform(
            w["num"], 10.0, 0.3, seed=1),
        lambda w: instance(gcl.MomentumArray, w["num"])),
    "from_name": (lambda w: gcl.PdgArray.from_name(clear_names(w)),
                  lambda w: instance(gcl.PdgArray, len(clear_names(w)))),
    "part": (lambda w: w["part"],
             lambda w: a_record(gcl.Graphicle, w["num"])),
    "set": (lambda w: w["set"],
            lambda w: a_record(gcl.ParticleSet, w["num"])),
    "part_copy": (lambda w: w["part"].copy(),
                  lambda w: a_record(gcl.Graphicle, w["num"])),
    "set_copy": (lambda w: w["set"].copy(),
                 lambda w: a_record(gcl.ParticleSet, w["num"])),
    "part_half": (lambda w: w["part"][w["some"]],
                  lambda w: a_record(gcl.Graphicle, w["some"].data.sum())),
    "set_half": (lambda w: w["set"][w["some"].data],
                 lambda w: a_record(gcl.ParticleSet, w["some"].data.sum())),
    "part_group": (
        lambda w: w["part"][w["group"]],
        lambda w: a_record(gcl.Graphicle, w["group"].data.sum())),
    "part_slice": (
        lambda w: w["part"][1:],
        lambda w: a_record(gcl.Graphicle, max(w["num"] - 1, 0))),
    "set_slice": (
        lambda w: w["set"][:1],
        lambda w: a_record(gcl.ParticleSet, min(w["num"], 1))),
    "adj.edges": (lambda w: w["part"].adj.edges, lambda w: named(w["num"])),
    "part.edges": (lambda w: w["part"].edges, lambda w: named(w["num"])),
    "str": (lambda w: str(w["part"]), lambda w: a_text),
    "repr": (lambda w: repr(w["pmu"]), lambda w: a_text),
    **{f"{a}.serialize": (lambda w, a=a: getattr(w["set"], a).serialize(),
                          lambda w: many(tuple, lambda out, about: None,
                                         w["num"])) for a in RECORD},
    **{f"{a}.copy": (lambda w, a=a: getattr(w["set"], a).copy(),
                     lambda w, a=a: instance(RECORD[a], w["num"]))
       for a in RECORD},
    **{f"{a}.half": (lambda w, a=a: getattr(w["set"], a)[w["some"]],
                     lambda w, a=a: instance(RECORD[a],
                                             w["some"].data.sum()))
       for a in RECORD},
    **{f"{a}.list": (lambda w, a=a: list(getattr(w["set"], a)),
                     lambda w: many(list, lambda out, about: None, w["num"]))
       for a in RECORD},
    **{f"{a}.truth": (lambda w, a=a: bool(getattr(w["set"], a)[:1]),
                      lambda w: a_truth) for a in RECORD},
}
# of none or one there may be nothing to say
MAY_REFUSE = {
    "thrust": 1, "thrust_axis": 1, "spherocity": 1, "spherocity_axis": 1,
    "c_parameter": 1, "split_hardest": 1, "weighted_centroid": 1,
}
# there may be no partons to tag
NOBODY = ("tag", "tag_no_pmu")
# asked of whole events
OF_EVENTS = {
    "hard_descendants": (
        lambda w: select.hard_descendants(w["graph"]),
        lambda w: a_group(w["all"], "or", flat=True)),
    "hard_descendants_of": (
        lambda w: select.hard_descendants(w["graph"], w["target"]),
        lambda w: a_group(w["all"], "or", flat=True)),
    "hierarchy": (lambda w: select.hierarchy(w["graph"]),
                  lambda w: a_group(w["all"], "or")),
    "partition": (
        lambda w: select.partition_descendants(
            w["graph"], select.hierarchy(w["graph"])),
        lambda w: a_group(w["all"], "or")),
    "leaf_masks": (
        lambda w: select.leaf_masks(select.hierarchy(w["graph"])),
        lambda w: a_group(w["all"], "or", flat=True)),
    "vertex_descendants": (
        lambda w: select.vertex_descendants(
            w["graph"].adj, int(w["graph"].edges["dst"][w["pick"]])),
        lambda w: a_mask(w["all"])),
    "vertex_unknown": (
        lambda w: select.vertex_descendants(w["graph"].adj, 10**6),
        lambda w: a_mask(w["all"])),
    "edge_descendants": (
        lambda w: select.edge_descendants(
            w["graph"].adj, gcl.VertexPair(
                *map(int, w["graph"].edges[w["pick"]]))),
        lambda w: a_mask(w["all"])),
    "hadron_vertices": (
        lambda w: select.hadron_vertices(w["graph"].adj, w["graph"].status),
        lambda w: many(tuple, an_index)),
    "hadron_vertices_none": (
        lambda w: select.hadron_vertices(
            w["graph"].adj, gcl.StatusArray(np.ones(w["all"], "<i2"))),
        lambda w: many(tuple, an_index, 0)),
    "find_vertex": (
        lambda w: select.find_vertex(
            w["graph"], None, {int(w["graph"].pdg.data[w["pick"]])}),
        lambda w: vertices()),
    "find_vertex_none": (
        lambda w: select.find_vertex(w["graph"], {99}, None),
        lambda w: vertices(0)),
    "color_singlets": (lambda w: _singlets(w, False),
                       lambda w: many(list, many(tuple, a_text))),
    "color_singlets_invert": (lambda w: _singlets(w, True),
                              lambda w: many(list, many(tuple, a_text))),
    "clusters": (
        lambda w: select.clusters(w["graph"], 0.8),
        lambda w: a_group(w["finals"], "or", flat=True)),
    "tag": (
        lambda w: select.monte_carlo_tag(
            w["graph"].particles, w["jets"], w["final_pmu"]),
        lambda w: a_group(w["finals"], "or", flat=True)),
    "tag_no_pmu": (
        lambda w: select.monte_carlo_tag(w["graph"].particles, w["jets"]),
        lambda w: a_group(w["finals"], "or", flat=True)),
    "adj.nodes": (
        lambda w: w["graph"].adj.nodes,
        lambda w: an_array("i", len(w["names"]))),
    "adj.roots": (lambda w: w["graph"].adj.roots,
                  lambda w: a_mask(w["all"])),
    "adj.leaves": (lambda w: w["graph"].adj.leaves,
                   lambda w: a_mask(w["all"])),
    "adj.matrix": (
        lambda w: w["graph"].adj.matrix,
        lambda w: an_array("f" if len(w["graph"].adj.weights) else "i",
                           len(w["names"]), len(w["names"]))),
    "part.matrix": (lambda w: w["plain"].matrix,
                    lambda w: an_array("i", *[len(w["plain"].nodes)] * 2)),
    "weighted.matrix": (
        lambda w: w["weighted"].matrix,
        lambda w: an_array("<f8", *[len(w["names"])] * 2)),
    "weighted.weights": (lambda w: w["weighted"].weights,
                         lambda w: an_array("<f8", w["all"])),
    "weighted.half": (lambda w: w["weighted"][w["mask"]].weights,
                      lambda w: an_array("<f8", w["mask"].sum())),
    "weighted.sparse": (
        lambda w: w["weighted"].to_sparse(w["weighted"].weights),
        lambda w: sparse(len(w["names"]))),
    "from_matrix": (
        lambda w: gcl.AdjacencyList.from_matrix(
            w["plain"].matrix, weighted=True),
        lambda w: instance(gcl.AdjacencyList,
                           np.count_nonzero(w["plain"].matrix))),
    "adj.to_sparse": (
        lambda w: w["graph"].adj.to_sparse(),
        lambda w: sparse(len(w["names"]))),
    "adj.weights": (lambda w: w["graph"].adj.weights,
                    lambda w: an_array(
                        "<f8", len(w["graph"].adj.weights))),
    "graph.final": (lambda w: w["graph"].final, lambda w: a_mask(w["all"])),
    "graph.nodes": (lambda w: w["graph"].nodes,
                    lambda w: an_array("i", len(w["names"]))),
    "graph.hard_mask": (lambda w: w["graph"].hard_mask,
                        lambda w: a_group(w["all"], flat=True)),
}


def vertices(num=None):
    def judge(out, about):
        size = len(out) if num is None else num
        an_array("i", size)(out, about)

    return judge


def _singlets(w, invert):
    leaves = select.leaf_masks(select.hierarchy(w["graph"]))
    leaves = gcl.MaskGroup(
        {k: v for k, v in leaves.items() if k != "latent"}, agg_op="or")
    return select.color_singlets(leaves, w["graph"].status, w["graph"].color,
                                 invert)


def world_of(case):
    event = build(case["event"])
    graph = event.graph()
    rng = np.random.default_rng(case["seed"])
    total = len(event)
    num = total if case["num"] is None else min(case["num"], total)
    pick = np.sort(rng.permutation(total)[:num])
    mini = event.pmu[event.hard >= 0]
    inner = np.hypot(event.pmu[:, 0], event.pmu[:, 1]) > 0.0  # no beams
    if case["num"] is None:
        num, pick = inner.sum(), np.flatnonzero(inner)
    elif num:
        pick = np.sort(rng.permutation(np.flatnonzero(inner))[:num])
        num = len(pick)
    mask = np.zeros(total, bool)
    mask[pick] = True
    part = graph[mask]
    pmu = gcl.MomentumArray(event.pmu[pick])
    heavier = event.pmu[pick].copy()
    heavier[:, 3] += 1.0
    flags = rng.random((4, num)) < 0.5
    final = event.final
    dist = rng.random((num, num))
    return {
        "graph": graph, "all": total, "part": part, "set": part.particles,
        "num": num, "pmu": pmu, "massive": gcl.MomentumArray(heavier),
        "other": gcl.MomentumArray(mini),
        "both": gcl.MomentumArray(
            np.concatenate([event.pmu[pick], mini]).reshape(-1, 4)),
        "some": gcl.MaskArray(flags[0]),
        "group": gcl.MaskGroup(
            {"a": flags[1], "b": flags[2],
             "in": gcl.MaskGroup({"c": flags[3], "d": flags[0]},
                                 agg_op="and")}, agg_op="or"),
        "weights": rng.random(num) + 0.1, "matrix": dist + dist.T,
        "pick": int(rng.integers(total)), "finals": int(final.sum()),
        "final_pmu": gcl.MomentumArray(event.pmu[final]),
        "jets": [gcl.MaskArray(row) for row in np.eye(final.sum()) > 0],
        "target": [int(event.pdg[event.hard >= 0][0])],
        "mask": rng.random(total) < 0.5,
        "plain": gcl.AdjacencyList(np.array(graph.adj.edges.tolist())),
        "weighted": gcl.AdjacencyList(
            np.array(graph.adj.edges.tolist()), rng.random(total)),
        "names": np.unique(np.array(graph.adj.edges.tolist())),
    }


@st.composite
def shape_cases(draw):
    return {"event": draw(events()), "seed": draw(seeds),
            "num": draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5, None])),
            "event_calls": draw(st.lists(
                st.sampled_from(sorted(OF_EVENTS)), max_size=4)),
            "calls": draw(st.lists(
                st.sampled_from(sorted(OF_SETS)), min_size=3, max_size=30))}


def anew(out):
    """An object newly made with the values of an answer."""
    if isinstance(out, gcl.MaskGroup):
        return gcl.MaskGroup({k: anew(v) for k, v in out.items()},
                             agg_op=out.agg_op.value)
    if isinstance(out, gcl.AdjacencyList):
        return gcl.AdjacencyList(np.array(out.edges), np.array(out.weights))
    if isinstance(out, gcl.ParticleSet):
        return gcl.ParticleSet(**{k: anew(getattr(out, k)) for k in RECORD})
    if isinstance(out, gcl.Graphicle):
        return gcl.Graphicle(anew(out.particles), anew(out.adj))
    return type(out)(np.array(out.data))


def uses(out, w, twin):
    """What may be asked with an answer."""
    if isinstance(out, (gcl.MaskArray, gcl.MaskGroup)):
        if isinstance(out, gcl.MaskGroup) and not len(out):
            return []
        num = len(out.data)
        rest = gcl.MaskArray(np.arange(num) % 3 == 0)
        made = [out, ~out, out & rest, out | rest, out == rest, rest & out,
                np.asarray(out), calculate.jaccard_distance(out, rest),
                gcl.MaskGroup({"a": out, "b": rest}, agg_op="or").data]
        for obj in (w["set"], w["part"], w["pmu"], w["graph"],
                    w["final_pmu"], w["graph"].adj):
            if len(obj) == num:
                made.append(obj[out])
        if num == len(w["pmu"]) and isinstance(out, gcl.MaskArray):
            made += [calculate.aggregate_momenta(w["pmu"], [out, rest]),
                     select.centroid_prune(w["pmu"], 1.0, out, (0.1, 0.2))]
        return made
    if isinstance(out, gcl.MomentumArray) and len(out):
        return [out, out.delta_R(w["other"]), w["other"].delta_R(out),
                np.sum(out, axis=0), out + twin, twin - out,
                out == twin, calculate.combined_mass(out),
                matrix.delta_R_aff(out), out.shift_phi(0.5)]
    return [out]


def serves(out, w, about):
    """An answer may be used as an object newly made with its values."""
    if not hasattr(out, "copy") or not type(out).__module__.startswith(
        "graphicle"
    ):
        if isinstance(out, list):
            for num, item in enumerate(out):
                serves(item, w, f"item {num} of {about}")
        return
    if isinstance(out, gcl.AdjacencyList) and not len(out):
        return
    twin = anew(out)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, want = (freeze(uses(obj, w, twin), True) for obj in (out, twin))
    require(alike(got, want), about, "gives", got, "where a new one gives",
            want)


def judge_calls(case):
    w = world_of(case)
    done = 0
    with np.errstate(all="ignore"):
        for table, names in ((OF_SETS, case["calls"]),
                             (OF_EVENTS, case["event_calls"])):
            for name in names:
                ask, kind = table[name]
                about = f"{name}, of {w['num']} of {w['all']} particles,"
                try:
                    out = ask(w)
                except (ValueError, ZeroDivisionError):
                    if name in NOBODY:
                        continue
                    if table is OF_SETS and w["num"] <= MAY_REFUSE.get(name, -1):
                        continue
                    raise
                except IndexError:
                    if name in NOBODY:
                        continue
                    raise
                kind(w)(out, about)
                serves(out, w, about)
                done += 1
    return done > 0


@sub("P47", shape_cases(), quick=100, thorough=15000,
     rule="something was answered")
def shapes(case):
    return judge_calls(case)


_EVENT = {
    "hard": [[6, [[5, []], [24, [[2, []], [-1, []]]]]], [21, []]],
    "copies": 1, "splits": 3, "ue": 2, "mix": 0.5, "hadrons": 4,
    "decays": 0.4, "lines": "parent", "shuffle": True, "seed": 11,
}


def each_call(tier, seed):
    for num in range(1 if tier == "quick" else 60):
        base = {"event": dict(_EVENT, seed=seed * 100 + num),
                "seed": seed * 1000 + num}
        for name in sorted(OF_SETS):
            for size in (0, 1, 2, 3, None):
                yield dict(base, num=size, calls=[name], event_calls=[])
        for name in sorted(OF_EVENTS):
            yield dict(base, num=1, calls=[], event_calls=[name])


@sub("P47", enum=each_call, rule="something was answered")
def each_shape(case):
    return judge_calls(case)
