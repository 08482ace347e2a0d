"""Large inputs for the same checks.

The other sub-checks draw many small cases.  Counters which are too narrow,
work done in blocks, recursion and labels with gaps only go wrong when there
are many particles, masks or vertices, or when the labels are large.  Here,
the same oracles judge a few large cases for each property.
"""
from __future__ import annotations

import signal

import numpy as np

import graphicle as gcl
from graphicle import calculate, select

from ..core import Skip, require, sub
from ..gen import make_momenta
from . import (arrays, graphs, hard, jets, kinematics, masks, plane, records)
from .arrays import KINDS

EVENT = {"copies": 2, "radiation": 0.5, "splits": 3, "ue": 3, "mix": 1.0,
         "hadrons": 3, "decays": 0.4, "lines": "decay", "shuffle": True}
NESTED = [[6, [[24, [[25, [[23, [[24, [[5, []], [1, []]]], [2, []]]],
                            [21, []]]], [-1, []]]], [5, []]]],
          [23, [[3, []], [-3, []]]]]
MANY = [[[21, 1, -1, 5][i % 4], []] for i in range(24)]
TWINS = [[24, [[2, []], [-1, []]]] for _ in range(12)]


def big_event(seed, **kwargs):
    from ..events import TTBAR

    return {"hard": TTBAR, **EVENT, "seed": seed, **kwargs}


def big(pid, func, maker, quick=1, thorough=12):
    """Registers ``func`` with the cases of ``maker(rng, seed)``."""

    def enum(tier, seed):
        for idx in range(quick if tier == "quick" else thorough):
            num = seed * 1009 + idx
            yield from maker(np.random.default_rng(num), num)

    def judged(case):
        return func(case)

    judged.__name__ = "large_" + func.__name__
    judged.__doc__ = func.__doc__
    sub(pid, enum=enum, rule="every case (large input)")(judged)


def layouts(rng, seed):
    for kind in sorted(KINDS):
        num = int(rng.integers(30_000, 70_000))
        for layout in ("c", "strided", "reversed"):
            yield {"kind": kind, "layout": layout, "num": num, "style": "any",
                   "seed": seed, "assign": bool(seed % 2)}
            num //= 4


big("P01", arrays.layout_independence, layouts)
big("P02", arrays.array_round_trip, lambda rng, seed: (
    [kind, 35_000, seed, "any"] for kind in sorted(KINDS)))
big("P02", records.record_round_trip, lambda rng, seed: [
    {"num": 3000, "attrs": list(records.ATTRS), "edges": "weights",
     "style": "any", "seed": seed}])
big("P03", records.subsetting, lambda rng, seed: (
    {"record": {"num": int(rng.integers(2000, 5000)), "style": "any",
                "attrs": list(records.ATTRS), "edges": edges, "seed": seed},
     "chain": [[kind, seed + i] for i, kind in enumerate(chain)]}
    for edges, chain in (("weights", ["mask", "slice", "group"]),
                         ("edges", ["array", "step", "and_group"]),
                         ("none", ["reverse", "bools", "list"]))))


def wide_bits(rng, seed):
    num = int(rng.integers(3000, 9000))
    yield {"left": (rng.random(num) < 0.5).tolist(),
           "right": (rng.random(num) < 0.01).tolist(),
           "kinds": [["mask", "and", "or"][seed % 3],
                     ["nested", "numpy"][seed % 2]]}


big("P05", masks.operators, wide_bits, 2)


@sub("P06", enum=lambda tier, seed: (
    [agg, width, deep, seed + i]
    for i in range(1 if tier == "quick" else 10)
    for agg in ("and", "or", "none")
    for width, deep in ((256, 0), (257, 1), (300, 2), (512, 0))),
    rule="every case (large input)")
def large_group(case):
    """Hundreds of masks, which all agree on some particles."""
    agg, width, deep, seed = case
    rng = np.random.default_rng(seed)
    num = 40
    rows = [rng.random(num) < 0.5 for _ in range(width)]
    for row in rows:
        row[:4] = [True, False, True, False]
    rows[int(rng.integers(width))][2] = False
    rows[int(rng.integers(width))][3] = True
    group = gcl.MaskGroup(agg_op=agg)
    for i, row in enumerate(rows):
        item = gcl.MaskArray(row)
        for level in range(deep):
            item = gcl.MaskGroup({f"{level}-{i}": item},
                                 agg_op="or" if agg == "none" else agg)
        group[f"m{i}"] = item
    require(list(group) == [f"m{i}" for i in range(width)], "names")
    stack = np.array(rows)
    if agg == "none":
        try:
            group.data
        except ValueError:
            pass
        else:
            require(False, "a group without rule gave a bitmask")
        group.agg_op = "or"
    want = stack.all(axis=0) if agg == "and" else stack.any(axis=0)
    require(np.array_equal(np.asarray(group.data), want), "aggregate")
    require(np.array_equal(np.asarray(group.bitwise_and().data),
                           stack.all(axis=0)), "bitwise and")
    require(np.array_equal(np.asarray(group.bitwise_or().data),
                           stack.any(axis=0)), "bitwise or")
    require(len(group) == width, "length")


def deep_tree(depth, width, seed):
    """Nested groups, one inside the other, with masks at every level."""
    rng = np.random.default_rng(seed)
    tree, model = gcl.MaskGroup(agg_op="or"), None
    cur, leaves = tree, {}
    for level in range(depth):
        for i in range(width):
            bits = rng.random(30) < 0.02
            cur[f"m{level}-{i}"] = gcl.MaskArray(bits)
            leaves[f"m{level}-{i}"] = bits
        if level + 1 < depth:
            nxt = gcl.MaskGroup(agg_op="or")
            cur[f"g{level}"] = nxt
            cur = nxt
    return tree, leaves


@sub("P07", enum=lambda tier, seed: (
    [depth, width, seed + i]
    for i in range(1 if tier == "quick" else 10)
    for depth, width in ((40, 2), (2, 300), (12, 40))),
    rule="every case (large input)")
def large_tree(case):
    """Long chains and wide groups: leaves, flattening, copies, equality."""
    tree, leaves = deep_tree(*case)
    union = np.any(list(leaves.values()), axis=0)
    require(np.array_equal(np.asarray(tree.data), union), "aggregate")
    flat = tree.flatten("leaves")
    require(set(flat) == set(leaves) and len(flat) == len(leaves), "leaves")
    for name, want in leaves.items():
        require(np.array_equal(np.asarray(flat[name].data), want), name)
    rise = tree.flatten("rise")
    groups = case[0] - 1
    require(len(rise) == len(leaves) + groups, "rise", len(rise))
    for name, want in leaves.items():
        require(np.array_equal(np.asarray(rise[name].data), want), name)
    below = union
    for level in range(groups):
        gone = [f"m{level}-{i}" for i in range(case[1])]
        for name in gone:
            leaves.pop(name)
        below = np.any(list(leaves.values()), axis=0)
        require(np.array_equal(np.asarray(rise[f"g{level}"].data), below),
                "group", level)
    other = tree.copy()
    require(tree.equal_to(other, check_order=True), "copy is not equal")
    inner = other
    for level in range(groups):
        inner = inner[f"g{level}"]
    inner[f"m{groups}-0"].data[3] ^= True
    require(not tree.equal_to(other), "deepest difference was not seen")
    require(not other.equal_to(tree), "deepest difference was not seen")
    back = gcl.MaskGroup(tree.serialize(), agg_op="or")
    require(tree.equal_to(back, check_order=True), "serialized")


big("P08", kinematics.definitions, lambda rng, seed: (
    {"gen": [style, int(rng.integers(3000, 7000)), seed],
     "off_shell": ["no", "yes"][seed % 2], "scale": 1.0, "perm": seed,
     "spread": [0, 3][seed // 2 % 2]} for style in ("phys", "forward")))
big("P09", kinematics.shifts, lambda rng, seed: [
    {"gen": ["phys", 4000, seed],
     "steps": [[["rapidity", "eta"][seed % 2], 0.7, "array", seed],
               ["phi", 2.5, "scalar", seed], ["rapidity", -1.1, "scalar",
                                              seed]]}])
big("P10", arrays.arithmetic, lambda rng, seed: (
    {"kind": kind, "num": num, "seed": seed, "ufunc": ufunc, "other": other,
     "side": "left", "how": how, "style": "any"}
    for kind, num, ufunc, other, how in (
        ("pmu", 20_000, "multiply", "array", "operator"),
        ("pdg", 40_000, "add", "own", "out"),
        ("color", 9000, "subtract", "own", "inplace"))))
big("P10", arrays.reductions, lambda rng, seed: (
    [kind, 40_000, seed, "any"] for kind in ("pmu", "color", "status", "pdg")))
big("P11", kinematics.distances, lambda rng, seed: (
    {"one": {"gen": [style, 420, seed]}, "two": {"gen": ["phys", 330, seed]},
     "pseudo": bool(seed % 2), "threads": threads, "other": other,
     "set_threads": 0}
    for style, threads, other in (("phys", 1, "same"), ("massless", 3, "two"),
                                  ("back", 4, "two"), ("phys", 2, "same"))))
big("P12", kinematics.clustering, lambda rng, seed: (
    {"mom": {"gen": [style, num, seed]}, "radius": radius, "pseudo": True,
     "threads": 1 + seed % 4, "set_threads": 0}
    for style, num, radius in (
        ("phys", 300, 1.0), ("phys", 290, 50.0), ("collimated", 280, 0.4),
        ("phys", 400, 4.0), ("phys", 200, 2.5), ("massless", 520, 50.0))))


@sub("P12", enum=lambda tier, seed: (
    [] if tier == "quick" else [[4130, seed]]),
    rule="every case (thorough tier only, takes minutes)")
def large_neighbourhood(case):
    """More links than can be counted in single precision."""
    num, seed = case
    signal.alarm(700)
    pmu = kinematics.mom(make_momenta("collimated", num, seed))
    got = calculate.cluster_coeff_distbn(pmu, 50.0, threads=4)
    require(got.shape == (num,) and np.all(np.abs(got - 1.0) < 1e-5),
            "coefficients of a complete graph", got)


big("P13", kinematics.aggregates, lambda rng, seed: (
    {"mom": {"gen": ["phys", 4000, seed]}, "seed": seed, "masks": num,
     "how": how, "weight": weight, "flip": False}
    for num, how, weight in ((300, "list", "column"), (70, "values", "full"),
                             (300, "generator", "structured"))))
big("P14", kinematics.c_parameter, lambda rng, seed: (
    {"kind": kind, "n": num, "seed": seed, "start": seed, "rest": 1}
    for kind, num in (("gauss", 3000), ("jets", 700))))
big("P14", kinematics.axis_shapes, lambda rng, seed: (
    {"kind": kind, "n": num, "seed": seed, "start": seed, "rest": 1}
    for kind, num in (("gauss", 150), ("jets", 250), ("phys", 120),
                      ("gauss", 700))))


def many_sets(rng, seed):
    num = int(rng.integers(2000, 5000))
    for weights in ("none", "random"):
        yield {"sets": [(rng.random(num) < p).tolist()
                        for p in (0.6, 0.5, 0.7)],
               "weights": None if weights == "none" else rng.random(
                   num).tolist(),
               "kinds": ["mask", ["nested", "or"][seed % 2]], "strided": True}


big("P15", masks.jaccard, many_sets)
big("P16", records.lookup, lambda rng, seed: [
    {"codes": [int(c) for c in rng.choice(records.CODES, num)],
     "reads": [["charge", "mass", "name", "width"][seed % 4], "quarks"],
     "repeat": repeat, "seed": seed} for num, repeat in ((400, 3), (5000, 0))])
big("P17", records.code_masks, lambda rng, seed: (
    {"codes": [int(c) for c in rng.choice(records.CODES, 4000)],
     "target": [int(c) for c in rng.choice(records.CODES, num)],
     "blacklist": black, "sign": sign, "form": form}
    for num, black, sign, form in ((3, None, None, "list"),
                                   (500, False, True, "array"),
                                   (700, True, False, "pdg"))))
big("P18", records.hard_masks, lambda rng, seed: [
    rng.integers(-40, 40, size=5000).tolist()])
big("P18", records.ranges, lambda rng, seed: (
    {"codes": rng.integers(low, high, size=5000).tolist(), "low": 20,
     "high": high // 2, "near": 0, "sign": sign}
    for low, high, sign in ((-95, 95, None), (-32767, 32768, True))))
big("P19", records.importing, lambda rng, seed: (
    {"record": {"num": 3000, "attrs": list(records.ATTRS), "edges": "weights",
                "style": "any", "seed": seed},
     "via": via, "layout": layout, "seed": seed}
    for via, layout in (("event", "struct"), ("provider", "strided"),
                        ("masks", "wide"))))
big("P20", graphs.topology, lambda rng, seed: (
    {"gen": [num, span, seed], "signs": signs, **extra}
    for num, span, signs, extra in (
        (5000, 200_000, "any", {}), (4000, 3000, "leaf", {}),
        (4000, 60_000, "neg", {"dag": "chain"} if seed % 2 else {}),
        (4000, 3000, "leaf", {"dag": "tree"}),
        (1, 140_000, "leaf", {"dag": "chain"}),
        (1, 140_000, "any", {"dag": "tree"}))))
big("P20", graphs.topology_of_selection, lambda rng, seed: (
    [{"gen": [4000, span, seed], "signs": "leaf"}, seed]
    for span in (3000, 100_000)))
big("P21", graphs.edges_to_matrix, lambda rng, seed: (
    {"graph": {"gen": [num, span, seed], "signs": "any"}, "weights": weights}
    for num, span, weights in (
        (300, 1_000_000, None), (300, 60_000, seed), (3000, 8, None),
        (3000, 3, seed), (700, 200, None), (200_000, 1, None))))
big("P21", graphs.matrix_to_edges, lambda rng, seed: (
    {"num": 150, "density": density, "dtype": dtype, "diag": "some",
     "weighted": weighted, "self_loop": loop, "layout": "c", "seed": seed}
    for density, dtype, weighted, loop in (
        (0.2, "<f8", True, False), (1.0, "?", False, True),
        (0.5, "<i4", True, True))))
big("P22", graphs.descendants, lambda rng, seed: (
    {"gen": [num, span, seed], "dag": dag, "signs": "leaf", "zero": False}
    for num, span, dag in ((1, 3000, "chain"), (3000, 2500, "any"),
                           (1, 3000, "tree"))))


@sub("P22", enum=lambda tier, seed: (
    [style, seed + i] for i in range(1 if tier == "quick" else 8)
    for style in ("tree", "comb", "layers")),
    rule="every case (large input)")
def vast_descendants(case):
    """More vertices than fit in sixteen bits."""
    style, seed = case
    rng = np.random.default_rng(seed)
    num = int(rng.integers(66_000, 140_000))
    child = np.arange(1, num)
    if style == "tree":
        parent = rng.integers(0, child)
    elif style == "comb":  # long chains with a leaf at each vertex
        parent = np.where(child % 2 == 1, child - 1, np.maximum(child - 2, 0))
        parent[child % 4000 == 0] = 0
    else:
        parent = np.maximum(child - rng.integers(1, 300, size=num - 1), 0)
    names = np.arange(1, num + 1) * rng.choice([-1, 1], size=num)
    names = names[rng.permutation(num)]
    order = rng.permutation(num - 1)
    adj = gcl.AdjacencyList(
        np.stack([names[parent], names[child]], axis=1)[order].astype("<i4"))
    for start in [0, 1, 2, num - 1] + rng.integers(num, size=3).tolist():
        below = np.zeros(num, bool)
        below[start] = True
        for node, above in enumerate(parent.tolist(), 1):
            if below[above]:
                below[node] = True
        want = below[parent][order]
        if not want.any():  # no children: what arrives at the vertex
            want = (child == start)[order]
        got = np.asarray(select.vertex_descendants(adj, int(names[start])))
        require(np.array_equal(got, want), "descendants of vertex", start,
                "of", num, got.sum(), "not", want.sum())


big("P22", graphs.descendants_in_events, lambda rng, seed: [
    big_event(seed, splits=15, ue=40, hadrons=25)])
big("P23", graphs.judge_search, lambda rng, seed: (
    {"graph": {"gen": [num, span, seed], "dag": dag, "signs": "any",
               "zero": False},
     "codes": codes, "ins": "vertex", "outs": outs, "seed": seed}
    for num, span, dag, codes, outs in (
        (800, 500, "any", 7, "none"), (1, 800, "tree", 4, "vertex"),
        (400, 3, False, 7, "vertex"))))


def big_events(rng, seed):
    yield big_event(seed, splits=14, ue=40, hadrons=25)
    yield big_event(seed, hard=NESTED, splits=5, ue=4)
    yield big_event(seed, hard=MANY, splits=3)
    yield big_event(seed, hard=TWINS, copies=9, splits=2)


big("P24", hard.all_hard_descendants, big_events, 4)
big("P25", hard.hierarchy, big_events, 4)
big("P26", hard.hadronisation_vertices, big_events)
big("P26", hard.partition, lambda rng, seed: (
    {"event": event, "power": -0.1} for event in big_events(rng, seed)), 4)
big("P27", hard.singlets, lambda rng, seed: [
    {"kinds": "qag0" * 4, "seed": seed, "join": 0.7, "extra": 20,
     "invert": False}], 20)
big("P27", hard.singlets_in_events, lambda rng, seed: [
    big_event(seed, hard=TWINS)], 4)
big("P28", hard.clusters, lambda rng, seed: (
    {"event": event, "radius": radius}
    for event, radius in zip(big_events(rng, seed), (1.0, 0.5, 2.0, 0.8))), 4)
big("P29", jets.large_matching, lambda rng, seed: (
    {"num": num, "cand": cand, "seed": seed, "threads": threads}
    for num, cand, threads in (
        (8, 60, 1), (20, 21, 2), (25, 25, 1), (40, 90, 4), (110, 110, 3))))
big("P30", jets.against_fastjet, lambda rng, seed: (
    {"num": num, "style": style, "radius": radius, "p": p, "seed": seed}
    for num, style, radius, p in (
        (600, "phys", 0.4, -1), (1500, "massless", 1.0, 0),
        (900, "phys", 0.7, 1), (2500, "collimated", 0.2, -1),
        (700, "phys", 0.6, -0.5),
        *((400, "phys", float(rng.uniform(0.2, 1.5)),
           float(rng.uniform(-1.5, 1.5))) for _ in range(6)))))
big("P30", jets.jet_clusters, lambda rng, seed: (
    {"pmu": {"gen": [style, num, seed]}, "radius": radius, "p": p,
     "pt_cut": None, "eta_cut": None, "top_k": None, "seed": seed}
    for style, num, radius, p in (("phys", 280, 0.4, -1),
                                  ("massless", 260, 1.0, 0),
                                  ("phys", 150, 0.1, 1))))
big("P31", jets.pruning, lambda rng, seed: (
    {"pmu": {"gen": ["phys", num, seed]}, "radius": radius, "centre": centre,
     "turns": 0, "mask": mask, "kind": "mask", "seed": seed}
    for num, radius, centre, mask in (
        (12_000, 1.0, "particle", "some"), (9_000, 1.7, "none", "none"))))


@sub("P32", enum=lambda tier, seed: (
    [width, times, seed + i]
    for i in range(2 if tier == "quick" else 20)
    for width in (255, 256, 257, 300, 520)
    for times in (0, 1, 2, 256)),
    rule="every case (large input)")
def large_overlap(case):
    """Many masks, and a particle which is in ``times`` of them."""
    width, times, seed = case
    if times > width:
        raise Skip("fewer masks")
    rng = np.random.default_rng(seed)
    num = width + 20
    rows = np.zeros((width, num), bool)
    rows[np.arange(width), rng.permutation(num)[:width]] = True
    spot = int(rng.integers(num))
    rows[:, spot] = False
    rows[rng.permutation(width)[:times], spot] = True
    group = gcl.MaskGroup({f"m{i}": gcl.MaskArray(r)
                           for i, r in enumerate(rows)}, agg_op="or")
    got = select.any_overlap(group)
    require(bool(got) == (times > 1), "any_overlap gave", got, "for a "
            "particle in", times, "of", width, "masks")


big("P33", plane.cut, lambda rng, seed: (
    {"matrix": {"num": 300, "style": style, "dtype": "<f8", "layout": "c",
                "diag": "zero", "seed": seed},
     "cut": "element", "mode": mode, "self_loop": False, "weighted": weighted}
    for style, mode, weighted in (("dist", "max", False),
                                  ("asym", "min", True))))
big("P33", plane.nearest, lambda rng, seed: (
    {"matrix": {"num": num, "style": style, "dtype": "<f8", "layout": "c",
                "diag": "zero", "seed": seed},
     "k": k, "self_loop": loop, "weighted": weighted, "row": row,
     "dtype": None}
    for num, style, k, loop, weighted, row in (
        (300, "dist", 4, False, False, True),
        (300, "dist", 260, True, False, False),
        (300, "asym", 140, False, True, True),
        (1500, "points", 600, False, False, True))))
big("P33", plane.complete, lambda rng, seed: (
    {"num": 300, "self_loop": loop, "dtype": None} for loop in (True, False)))
big("P34", plane.parton_hadron, lambda rng, seed: (
    {"one": {"gen": ["phys", one, seed]}, "two": {"gen": ["back", two, seed]},
     "power": power}
    for one, two, power in ((200, 300, None), (3, 5000, -0.1),
                            (400, 4, 1.0))))
big("P34", plane.affinity, lambda rng, seed: [{"gen": ["phys", 450, seed]}])
big("P36", plane.split_the_hardest, lambda rng, seed: (
    {"pmu": {"gen": ["phys", 4000, seed]}, "z": 0.3, "angle": 0.7,
     "axis": axis, "times": 20} for axis in (None, [0.4, 1.0])))
big("P37", records.tables, lambda rng, seed: [
    {"num": 3000, "attrs": list(records.ATTRS), "edges": "edges",
     "style": "any", "seed": seed, "names": True}])
