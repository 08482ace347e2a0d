"""P42: optional arguments have their documented defaults, however given."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate, matrix, select, transform

from ..core import RULES, require, sub
from ..events import events
from ..gen import seeds
from .purity import alike, freeze, some_of, world_of

RULES["P42"] = (
    "A call with some of the optional arguments left out, or given in their"
    " places instead of by name, on an event or particle set of which the"
    " answer depends on them."
)


def _leaves(w):
    leaves = select.leaf_masks(w["hier"])
    return gcl.MaskGroup(
        {k: v for k, v in leaves.items() if k != "latent"}, agg_op="or")


def _some_jets(w):
    return select.fastjet_clusters(w["pmu"], 0.7, -1)


def _axis(w):
    return transform.soft_hard_axis(w["pmu"])


def _sub_event(w):
    return w["graph"][w["bools"][0]]


# name: function, values of the required arguments by name, and for the
# optional ones the documented default, and others to give in its place
CALLS = {
    "weighted_centroid": (
        lambda w: calculate.weighted_centroid, {"pmu": lambda w: w["pmu"]},
        {"pseudo": (True, False)}),
    "resultant_coords": (
        lambda w: calculate.resultant_coords, {"pmu": lambda w: w["pmu"]},
        {"pseudo": (True, False)}),
    "combined_mass": (
        lambda w: calculate.combined_mass, {"pmu": lambda w: w["pmu"]},
        {"weight": (None, 0.5, 1.0)}),
    "cluster_coeff": (
        lambda w: calculate.cluster_coeff_distbn,
        {"pmu": lambda w: w["heavy"], "radius": lambda w: 1.5},
        {"pseudo": (True, False), "threads": (1, 2)}),
    "thrust": (
        lambda w: calculate.thrust, {"pmu": lambda w: w["pmu"]},
        {"return_axis": (False, True), "rng_seed": None}),
    "spherocity": (
        lambda w: calculate.spherocity, {"pmu": lambda w: w["pmu"]},
        {"return_axis": (False, True), "rng_seed": None}),
    "jaccard": (
        lambda w: calculate.jaccard_distance,
        {"mask_1": lambda w: w["bools"][0],
         "mask_2": lambda w: w["bools"][1]},
        {"weights": (None, lambda w: w["weights"])}),
    "delta_R": (
        lambda w: w["mini"].delta_R, {"other": lambda w: w["cand"]},
        {"pseudo": (True, False), "threads": (1, 2)}),
    "shift_eta": (
        lambda w: w["heavy"].shift_eta, {"shift": lambda w: 0.3},
        {"experimental": (False,), "max_corrections": (10, 0, 30),
         "abs_tol": (1e-10, 0.5)}),
    "from_spherical_uniform": (
        lambda w: gcl.MomentumArray.from_spherical_uniform,
        {"size": lambda w: 4, "max_energy": lambda w: 10.0 * w["rotate"]},
        {"massless": (0.0, 1.0, 0.5), "seed": None}),
    "pdg_mask": (
        lambda w: w["graph"].pdg.mask, {"target": lambda w: w["flipped"]},
        {"blacklist": (True, False), "sign_sensitive": (False, True)}),
    "in_range": (
        lambda w: w["wide"].in_range, {},
        {"min_status": (0, 1, -30), "max_status": (None, 23),
         "sign_sensitive": (False, True)}),
    "recursive_drop": (
        lambda w: w["group"].recursive_drop, {},
        {"key": ("latent", "a", "c"), "inplace": (False,)}),
    "flatten": (
        lambda w: w["group"].flatten, {}, {"how": ("rise", "agg", "leaves")}),
    "equal_to": (
        lambda w: w["flat"].equal_to,
        {"other": lambda w: gcl.MaskGroup(
            dict(reversed(list(w["flat"].items()))))},
        {"check_order": (False, True)}),
    "new_group": (
        lambda w: gcl.MaskGroup,
        {"mask_arrays": lambda w: dict(w["flat"].items())},
        {"agg_op": ("and", "or")}),
    "from_matrix": (
        lambda w: gcl.AdjacencyList.from_matrix,
        {"adj_matrix": lambda w: w["sparse"]},
        {"weighted": (False, True), "self_loop": (False, True)}),
    "to_sparse": (
        lambda w: w["links"].to_sparse, {},
        {"data": (None, lambda w: w["weights"])}),
    "new_edges": (
        lambda w: gcl.AdjacencyList,
        {"data": lambda w: np.array(w["links"].edges.tolist())},
        {"weights": None}),
    "cut_adj": (
        lambda w: matrix.cut_adj,
        {"matrix": lambda w: w["matrix"], "cut": lambda w: w["rotate"]},
        {"mode": ("max", "min"), "self_loop": (False, True),
         "weighted": (False, True)}),
    "knn_adj": (
        lambda w: matrix.knn_adj,
        {"matrix": lambda w: w["lopsided"], "k": lambda w: 2},
        {"self_loop": (False, True), "weighted": (False, True),
         "row": (True, False), "dtype": (None, "<f8")}),
    "fc_adj": (
        lambda w: matrix.fc_adj, {"num_nodes": lambda w: len(w["mini"])},
        {"self_loop": (False, True), "dtype": (np.bool_, "<f8", "<i4")}),
    "parton_hadron": (
        lambda w: matrix.parton_hadron_distance,
        {"parton_pmu": lambda w: w["mini"], "hadron_pmu": lambda w: w["pmu"]},
        {"pt_exp": (-0.1, -0.5, 0.2)}),
    "fastjet": (
        lambda w: select.fastjet_clusters,
        {"pmu": lambda w: w["pmu"], "radius": lambda w: 0.5,
         "p_val": lambda w: -1},
        {"pt_cut": (None, 0.0, 2.0), "eta_cut": (None, 1.5),
         "top_k": (None, 2)}),
    "find_vertex": (
        lambda w: select.find_vertex, {"graph": lambda w: w["graph"]},
        {"pdgs_in": (None, {21}, {5}), "pdgs_out": (None, {21}, {22})}),
    "partition": (
        lambda w: select.partition_descendants,
        {"graph": lambda w: w["graph"], "hier": lambda w: w["hier"]},
        {"pt_exp": (-0.1, -1.0, 0.8)}),
    "hard_descendants": (
        lambda w: select.hard_descendants, {"graph": lambda w: w["graph"]},
        {"target": (None, {5, 24}, {-5, 21}, {21, 37}),
         "sign_sensitive": (False, True), "strict": (True, False)}),
    "hierarchy": (
        lambda w: select.hierarchy, {"graph": lambda w: w["graph"]},
        {"desc": (None, lambda w: w["desc_part"])}),
    "centroid_prune": (
        lambda w: select.centroid_prune,
        {"pmu": lambda w: w["pmu"], "radius": lambda w: w["rotate"]},
        {"mask": (None, lambda w: w["masks"][0]),
         "centre": (None, (0.3, -0.4))}),
    "color_singlets": (
        lambda w: select.color_singlets,
        {"leaves": _leaves, "status": lambda w: w["graph"].status,
         "color": lambda w: w["graph"].color},
        {"invert": (False, True)}),
    "arg_closest": (
        lambda w: select.arg_closest,
        {"focus": lambda w: w["mini"], "candidate": lambda w: w["cand"]},
        {"num_threads": (1, 2)}),
    "monte_carlo_tag": (
        lambda w: select.monte_carlo_tag,
        {"particles": lambda w: w["graph"].particles,
         "cluster_masks": lambda w: w["jets"]},
        {"clustered_pmu": (None, lambda w: w["pmu"]),
         "intermediate": (False, True), "outgoing": (True,),
         "sign_sensitive": (False, True),
         "blacklist": (None, lambda w: w["flipped"].tolist(), [21]), "whitelist": (None,)}),
    "split_hardest": (
        lambda w: transform.split_hardest,
        {"momenta": lambda w: w["pmu"], "z": lambda w: 0.3,
         "angle": lambda w: w["rotate"]},
        {"axis": (None, (0.4, 1.1))}),
    "set_from_numpy": (
        lambda w: gcl.ParticleSet.from_numpy, {},
        {"pdg": None, "pmu": None, "color": None, "helicity": None,
         "status": None, "final": None}),
    "graph_from_numpy": (
        lambda w: gcl.Graphicle.from_numpy, {},
        {"pdg": None, "pmu": None, "color": None, "helicity": None,
         "status": None, "final": None, "edges": None, "weights": None}),
}
# values to give where leaving out is not the same as any one value
GIVEN = {
    ("thrust", "rng_seed"): lambda w: w["seed"],
    ("spherocity", "rng_seed"): lambda w: w["seed"],
    ("from_spherical_uniform", "seed"): lambda w: w["seed"],
    ("new_edges", "weights"): lambda w: w["weights"],
}
for _name in ("set_from_numpy", "graph_from_numpy"):
    for _attr in ("pdg", "pmu", "color", "helicity", "status", "final"):
        GIVEN[_name, _attr] = (
            lambda w, a=_attr: np.array(getattr(w["graph"], a).data))
GIVEN["graph_from_numpy", "edges"] = (
    lambda w: np.array(w["links"].edges.tolist()))
GIVEN["graph_from_numpy", "weights"] = lambda w: w["weights"]
RANDOM = ("thrust", "spherocity", "from_spherical_uniform")


def world(case):
    """The objects of the query checks, and some on which defaults matter."""
    out = world_of(case)
    rng = np.random.default_rng([case["seed"], 42])
    out["wide"] = gcl.StatusArray(rng.integers(-40, 41, 12))
    out["wide"].data[rng.integers(12)] = 0
    out["sparse"] = rng.normal(size=(5, 5)) * (rng.random((5, 5)) < 0.5)
    np.fill_diagonal(out["sparse"], rng.random(5) * (rng.random(5) < 0.5))
    flip = np.unique(np.array(out["graph"].pdg.data))
    out["flipped"] = np.concatenate([-flip[flip > 0][:3], flip[flip < 0][:1]])
    vec = rng.normal(size=(6, 3)) * rng.uniform(0.1, 5.0, (6, 1))
    mass = rng.uniform(0.0, 20.0, 6)
    out["heavy"] = gcl.MomentumArray(np.column_stack(
        [vec, np.sqrt((vec**2).sum(axis=1) + mass**2)]))
    out["lopsided"] = rng.permutation(25).reshape(5, 5).astype("<f4")
    return out


def plain(name, func, *args, **kwargs):
    """The answer of a call, its warnings, or how it refuses."""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            out = func(*args, **kwargs)
        except (ValueError, IndexError, KeyError) as err:
            return ("refused", type(err).__name__)
    said = sorted({w.category.__name__ for w in seen
                   if issubclass(w.category, UserWarning)})
    if name == "new_group":  # the rule decides what it stands for
        out = (out, np.asarray(out))
    return ("gave", freeze(out, True), said)


@st.composite
def default_cases(draw):
    name = draw(st.sampled_from(sorted(CALLS)))
    return {
        "event": draw(events()), "seed": draw(seeds), "call": name,
        "left_out": draw(st.lists(st.booleans(), min_size=8, max_size=8)),
        "other": draw(st.lists(st.integers(0, 3), min_size=8, max_size=8)),
        "by_place": draw(st.integers(0, 11)),
        "backwards": draw(st.booleans()),
    }


def value(item, w):
    return item(w) if callable(item) and not isinstance(item, type) else item


def run_default(case):
    name = case["call"]
    getter, needed, optional = CALLS[name]

    w = world(case)

    def ask(options, places=0):
        if name == "recursive_drop":  # may change what it is asked of
            w["group"] = world(case)["group"]
        args = {k: value(v, w) for k, v in needed.items()}
        args.update((k, value(v, w)) for k, v in options.items())
        keys = list(args)[:places]
        placed = [args.pop(k) for k in keys]
        if case["backwards"]:
            args = dict(reversed(list(args.items())))
        out = plain(name, getter(w), *placed, **args)
        if name == "recursive_drop":
            out += (freeze(w["group"], True),)
        return out

    # every option has a value: the default, or another one
    first, chosen = {}, {}
    for num, (key, known) in enumerate(optional.items()):
        if known is None:
            first[key] = chosen[key] = GIVEN[name, key]
            continue
        first[key] = known[0]
        chosen[key] = known[case["other"][num] % len(known)]
    seeded = ("rng_seed", "seed")
    for given in (first, chosen):
        whole = ask(given)
        short, changed = dict(given), False
        for num, (key, known) in enumerate(optional.items()):
            if known is None:
                continue
            if given[key] is known[0] and (
                given is first or case["left_out"][num]
            ):
                del short[key]
                changed = True
        if changed:
            got = ask(short)
            require(alike(got, whole), name, "with only", sorted(short),
                    "gives", got, "but with the defaults given", whole)
    if name in RANDOM:  # no seed: some answer of the same kind
        some = {k: v for k, v in chosen.items() if k not in seeded}
        one = ask(some)
        require(one[0] == ask(chosen)[0], name, "without a seed", one)
    places = case["by_place"] % (len(needed) + len(optional) + 1)
    whole = ask(chosen)
    got = ask(chosen, places)
    require(alike(got, whole), name, "with", places, "arguments in place",
            "gives", got, "but by name", whole)
    got = ask(chosen, len(needed) + len(optional))
    require(alike(got, whole), name, "with all arguments in place", "gives",
            got, "but by name", whole)
    return whole[0] == "gave"


@sub("P42", default_cases(), quick=150, thorough=20000,
     rule="the call gave an answer")
def some_defaults(case):
    return run_default(case)


_EVENT = {
    "hard": [[6, [[5, []], [24, [[2, []], [-1, []]]]]], [21, []]],
    "copies": 1, "splits": 3, "ue": 2, "mix": 0.5, "hadrons": 4,
    "decays": 0.4, "lines": "parent", "shuffle": True, "seed": 11,
}


def each_call(tier, seed):
    """Every combination of the values, with all defaults left out."""
    for num in range(1 if tier == "quick" else 40):
        for name in sorted(CALLS):
            sizes = [len(known or "1") for known in CALLS[name][2].values()]
            for place, other in enumerate(np.ndindex(*sizes)):
                yield {"event": dict(_EVENT, seed=seed * 100 + num),
                       "seed": 1000 * seed + num, "call": name,
                       "left_out": [True] * 8,
                       "other": list(other) + [0] * (8 - len(other)),
                       "by_place": place, "backwards": bool(place % 2)}


@sub("P42", enum=each_call, rule="the call gave an answer")
def each_default(case):
    return run_default(case)
