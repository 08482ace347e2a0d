"""P24-P28: the hard process, its descendants, partition and clusters."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st
from mcpid.lookup import PdgRecords

import graphicle as gcl
from graphicle import select

from ..core import RULES, Skip, Violation, require, sub
from ..events import Event, build, events, hard_names, out_edges, reach
from ..gen import seeds
from .graphs import bits

_NAMES = PdgRecords().table["name"].to_dict()
name_of = _NAMES.__getitem__


# ---------------------------------------------------------------- reference
class Truth:
    """What must be known about the hard process of an event."""

    def __init__(self, event: Event):
        self.event = event
        self.rows = np.flatnonzero(event.hard >= 0)  # in record order
        self.names = hard_names(event.pdg[self.rows].tolist(), name_of)
        table = out_edges(event.src)
        self.desc = {}
        self.row = dict(zip(self.names, self.rows.tolist()))
        for name, row in self.row.items():
            mask = reach(event.src, event.dst, int(event.dst[row]), table)
            mask[row] = True
            self.desc[name] = mask
        by_hard = {int(event.hard[r]): n for n, r in self.row.items()}
        self.children = {name: [] for name in self.names}
        self.tops = []
        for name in self.names:
            parent = event.parent[int(event.hard[self.row[name]])]
            if parent < 0:
                self.tops.append(name)
            else:
                self.children[by_hard[parent]].append(name)

    @property
    def leaves(self):
        return [n for n in self.names if not self.children[n]]

    def below(self, name):
        """Leaves under a parton."""
        if not self.children[name]:
            return [name]
        return [x for c in self.children[name] for x in self.below(c)]


def check_hierarchy(group, truth, names, masks, latent=None, path=()):
    """Nested structure, leaf masks, and, optionally, latent masks."""
    keys = [k for k in group.keys() if k != "latent"]
    require(sorted(keys) == sorted(names), "under", path, "found", keys,
            "not", names)
    for name in names:
        item = group[name]
        kids = truth.children[name]
        if not kids:
            require(isinstance(item, gcl.MaskArray), name, "is not a mask")
            require(np.array_equal(bits(item), masks[name]), "mask of", name,
                    np.flatnonzero(item.data), "not",
                    np.flatnonzero(masks[name]))
            continue
        require(isinstance(item, gcl.MaskGroup), name, "is not a group")
        check_hierarchy(item, truth, kids, masks, latent, path + (name,))
        if latent is not None:
            require("latent" in item, "no latent mask in", name)
            require(np.array_equal(bits(item["latent"]), latent[name]),
                    "latent mask of", name, np.flatnonzero(item["latent"]),
                    "not", np.flatnonzero(latent[name]))


def latents(truth):
    out = {}
    for name, kids in truth.children.items():
        mask = truth.desc[name].copy()
        for kid in kids:
            mask &= ~truth.desc[kid]
        out[name] = mask
    return out


# ------------------------------------------------------------------- P24
RULES["P24"] = "Synthetic events with a hard process, and target codes."


@sub("P24", events(), quick=260, rule="at least two hard partons",
     nontrivial=lambda c: count(c["hard"]) > 1)
def all_hard_descendants(case):
    event = build(case)
    truth = Truth(event)
    graph = event.graph()
    masks = select.hard_descendants(graph)
    require(list(masks.keys()) == truth.names, "names", list(masks.keys()),
            "not", truth.names)
    for name, want in truth.desc.items():
        require(np.array_equal(bits(masks[name]), want), "descendants of",
                name, np.flatnonzero(masks[name].data), "not",
                np.flatnonzero(want))
    union = np.any(list(truth.desc.values()), axis=0)
    require(np.array_equal(np.asarray(masks.data), union), "aggregate")
    require(np.array_equal(graph.status.data, event.status), "status changed")


def count(trees):
    return sum(1 + count(kids) for _, kids in trees)


@st.composite
def targeted(draw):
    return {
        "event": draw(events()),
        "pick": draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)),
        "other": draw(st.sampled_from([[], [], [15], [-36, 16]])),
        # codes of the targets: as they are, antiparticles, or both of them
        "flip": draw(st.sampled_from([False, True, "some", "both"])),
        # not given: charge signs do not matter, and all must be there
        "sign": draw(st.sampled_from([True, False, None])),
        "strict": draw(st.sampled_from([True, False, None])),
    }


@sub("P24", targeted(), quick=260, rule="some hard parton is a target")
def targets(case):
    event = build(case["event"])
    truth = Truth(event)
    pdgs = event.pdg[truth.rows].tolist()
    target = [pdgs[i % len(pdgs)] for i in case["pick"]] + case["other"]
    turned = [-t if abs(t) not in (21, 22, 23, 25) else t for t in target]
    if case["flip"] == "both":
        target = target + turned
    elif case["flip"] == "some":
        target = turned[:1] + target[1:]
    elif case["flip"]:
        target = turned
    norm = (lambda p: p) if case["sign"] else abs
    wanted = {norm(t) for t in target}
    hits = [i for i, p in enumerate(pdgs) if norm(p) in wanted]
    graph = event.graph()
    missing = wanted - {norm(p) for p in pdgs}
    strict = case["strict"] is not False
    kwargs = {"sign_sensitive": case["sign"], "strict": case["strict"]}
    kwargs = {k: v for k, v in kwargs.items() if v is not None}
    try:
        masks = select.hard_descendants(graph, tuple(target), **kwargs)
    except ValueError:
        require(not hits or (strict and missing), "refused", target,
                "for", pdgs)
        return False
    require(hits and not (strict and missing), "accepted", target,
            "for", pdgs)
    names = hard_names([pdgs[i] for i in hits], name_of)
    require(list(masks.keys()) == names, "names", list(masks.keys()), "not",
            names)
    for name, hit in zip(names, hits):
        want = truth.desc[truth.names[hit]]
        require(np.array_equal(bits(masks[name]), want), "descendants of",
                name, np.flatnonzero(masks[name].data), "not",
                np.flatnonzero(want))
    return True


# ------------------------------------------------------------------- P25
RULES["P25"] = "Synthetic events; non-trivial with a resonance in the chain."


@sub("P25", events(), quick=300, rule="the hard process has a resonance",
     nontrivial=lambda c: any(kids for _, kids in c["hard"]))
def hierarchy(case):
    event = build(case)
    truth = Truth(event)
    graph = event.graph()
    before = {k: v.copy() for k, v in truth.desc.items()}
    hier = select.hierarchy(graph)
    check_tree(hier, truth)
    # the same, if descendants are at hand, which are not altered
    desc = select.hard_descendants(graph)
    check_tree(select.hierarchy(graph, desc), truth)
    names = list(desc)
    order = np.random.default_rng(len(truth.desc)).permutation(len(names))
    mixed = desc[[names[idx] for idx in order]]
    check_tree(select.hierarchy(graph, mixed), truth)
    for name, want in before.items():
        require(np.array_equal(bits(desc[name]), want), "descendants changed",
                name)


def check_tree(hier, truth):
    check_hierarchy(hier, truth, truth.tops, truth.desc, latents(truth))
    for name, item in walk(hier):
        if name == "latent":
            continue
        require(np.array_equal(np.asarray(item.data), truth.desc[name]),
                "aggregate of", name)
    leaves = select.leaf_masks(hier)
    require(sorted(leaves.keys()) == sorted(truth.leaves), "leaves",
            list(leaves.keys()), "not", truth.leaves)
    for name in truth.leaves:
        require(np.array_equal(bits(leaves[name]), truth.desc[name]),
                "leaf mask of", name)
    require(np.array_equal(
        np.asarray(leaves.data),
        np.any([truth.desc[n] for n in truth.leaves], axis=0)),
        "aggregate of the leaves")


def walk(group):
    for name, item in group.items():
        yield name, item
        if isinstance(item, gcl.MaskGroup):
            yield from walk(item)


# ------------------------------------------------------------------- P26
RULES["P26"] = "Synthetic events with hadronisation, and the power of pT."


def plane(pmu):
    x, y, z, _ = pmu.T
    return np.arcsinh(z / np.hypot(x, y)), np.arctan2(y, x)


def plane_dist(one, two):
    (eta_1, phi_1), (eta_2, phi_2) = plane(one), plane(two)
    dphi = np.angle(np.exp(1j * (phi_1[:, None] - phi_2[None, :])))
    return np.hypot(eta_1[:, None] - eta_2[None, :], dphi)


def hadron_vtxs(event):
    stat = np.abs(event.status.astype(int))
    return sorted(set(event.src[(stat >= 80) & (stat <= 90)].tolist()))


def expect_partition(event, truth, power):
    """Leaf masks after the partition, and how many hadrons were contested."""
    masks = {n: truth.desc[n].copy() for n in truth.leaves}
    everything = np.any(list(truth.desc.values()), axis=0)
    contested = 0
    table = out_edges(event.src)
    for vtx in hadron_vtxs(event):
        arrive = np.flatnonzero(event.dst == vtx)
        if not np.any(everything[arrive]):
            continue
        hadrons = np.flatnonzero(
            reach(event.src, event.dst, vtx, table) & event.final
        )
        owners = {
            n: truth.desc[n][arrive]
            for n in truth.leaves
            if np.any(truth.desc[n][arrive])
        }
        if len(owners) > 1 or not np.all(np.any(list(owners.values()), axis=0)
                                         if owners else False):
            contested += len(hadrons)
        weight = np.hypot(*event.pmu[arrive, :2].T) ** power
        cost = weight[:, None] * plane_dist(event.pmu[arrive],
                                            event.pmu[hadrons])
        if len(arrive) > 1:
            low = np.sort(cost, axis=0)
            if np.any(low[1] - low[0] < 1e-7 * low[1]):
                raise Skip("equally near")
        nearest = np.argmin(cost, axis=0)
        for name, own in owners.items():
            masks[name][hadrons] = own[nearest]
    return masks, contested


@sub("P26", events(), quick=200, rule="every event")
def hadronisation_vertices(case):
    event = build(case)
    graph = event.graph()
    got = select.hadron_vertices(graph.adj, graph.status)
    require(isinstance(got, tuple) and all(type(v) is int for v in got),
            "not integers", got)
    require(sorted(got) == hadron_vtxs(event), "vertices", sorted(got), "not",
            hadron_vtxs(event))


@sub("P26",
     st.fixed_dictionaries({
         "edges": st.lists(
             st.tuples(st.integers(-5, 5), st.integers(-95, 95)),
             min_size=1, max_size=8).map(lambda v: [list(i) for i in v])}),
     quick=500, rule="every case",
     examples=[{"edges": [[1, s]]} for s in
               (79, 80, 81, 89, 90, 91, -79, -80, -90, -91, 0)])
def hadronisation_status(case):
    """Any status codes: 80 to 90, of either sign."""
    src, status = np.array(case["edges"]).T
    adj = gcl.AdjacencyList(np.stack([src, src + 20], axis=1))
    got = select.hadron_vertices(adj, gcl.StatusArray(status))
    want = {int(s) for s, c in zip(src, status) if 80 <= abs(c) <= 90}
    require(len(got) == len(set(got)) and set(got) == want, "vertices", got,
            "not", want)


@sub("P26",
     st.fixed_dictionaries({
         "event": events(),
         "power": st.one_of(
             st.sampled_from([-0.1, -0.1, 0.0, -1.0, 0.7, -3.0]),
             st.floats(-3.0, 3.0))}),
     quick=300, rule="hadrons with several possible ancestors")
def partition(case):
    event = build(case["event"])
    truth = Truth(event)
    graph = event.graph()
    hier = select.hierarchy(graph)
    default = case["power"] == -0.1 and case["event"]["seed"] % 2 == 0
    masks, contested = expect_partition(event, truth, case["power"])
    if default:
        parts = select.partition_descendants(graph, hier)
    else:
        parts = select.partition_descendants(graph, hier, case["power"])
    check_hierarchy(parts, truth, truth.tops, masks, latents(truth))
    final = [masks[n] & event.final for n in truth.leaves]
    for one, two in itertools.combinations(final, 2):
        if np.any(one & two):
            raise Violation("reference is wrong: leaves overlap")
    check_tree(hier, truth)  # the argument is not altered
    return contested > 0


# ------------------------------------------------------------------- P27
RULES["P27"] = "Colour lines between leaf partons; events with decays."


@st.composite
def color_cases(draw):
    """Colour lines, each with one colour and one anticolour end."""
    kinds = draw(st.lists(st.sampled_from("qqaagg0-"), min_size=1, max_size=8))
    return {
        "kinds": "".join(kinds),
        "seed": draw(seeds),
        "join": draw(st.sampled_from([0.0, 0.6, 1.0])),
        "extra": draw(st.integers(0, 3)),
        "invert": draw(st.booleans()),
        "first": draw(st.sampled_from([101, 501, 1, 1000, 10**6, 2**31 - 99])),
    }


def color_lines(case):
    """(color, anticolor) of each leaf: at most one partner per end.

    Leaves of kind "-" have no outgoing parton: they have not decayed.
    """
    rng = np.random.default_rng(case["seed"])
    kinds = case["kinds"]
    cols = [i for i, k in enumerate(kinds) if k in "qg"]
    antis = [i for i, k in enumerate(kinds) if k in "ag"]
    out = [[0, 0] for _ in kinds]
    tag = itertools.count(case.get("first", 101))
    rng.shuffle(cols)
    for i in cols:
        out[i][0] = line = next(tag)
        open_ = [j for j in antis if j != i and out[j][1] == 0]
        if open_ and rng.random() < case["join"]:
            out[open_[int(rng.integers(len(open_)))]][1] = line
    for j in antis:
        if out[j][1] == 0:
            out[j][1] = next(tag)
    return [tuple(c) for c in out]


def expect_singlets(names, colors):
    """Closed sets of two or three coloured partons, by following lines."""
    colored = {n: c for n, c in zip(names, colors) if c != (0, 0)}
    groups = set()
    for size in (2, 3):
        for combo in itertools.combinations(colored.items(), size):
            starts = sorted(c[0] for _, c in combo if c[0])
            ends = sorted(c[1] for _, c in combo if c[1])
            if starts == ends:
                groups.add(frozenset(n for n, _ in combo))
    free = set(colored) - set(itertools.chain.from_iterable(groups))
    return groups, free


def check_singlets(leaves, status, color, names, colors, invert):
    groups, free = expect_singlets(names, colors)
    got = select.color_singlets(leaves, status, color)
    require(all(isinstance(g, tuple) for g in got), "not tuples", got)
    require(len(got) == len(groups) and {frozenset(g) for g in got} == groups
            and all(len(g) == len(set(g)) for g in got), "groups", got,
            "not", groups)
    got = select.color_singlets(leaves, status, color, invert=True)
    require(all(len(g) == 1 for g in got), "not single", got)
    require(sorted(g[0] for g in got) == sorted(free), "ungrouped", got,
            "not", free)
    return bool(groups)


@sub("P27", color_cases(), quick=900, rule="some colour singlet exists")
def singlets(case):
    colors = color_lines(case)
    rng = np.random.default_rng(case["seed"] + 1)
    num = len(colors)
    names = [f"p{i}" for i in range(num)]
    # each leaf is an outgoing parton, and others which are not
    size = num * (1 + case["extra"])
    place = rng.permutation(size)
    status = rng.choice([-51, -22, 71, 84, -21], size=size)
    color = rng.integers(0, 200, size=(size, 2))
    leaves = gcl.MaskGroup(agg_op="or")
    for i, name in enumerate(names):
        mine = place[i :: num]
        if case["kinds"][i] != "-":
            status[mine[0]] = rng.choice([-23, 23])
            color[mine[0]] = colors[i]
        mask = np.zeros(size, bool)
        mask[mine] = True
        leaves[name] = gcl.MaskArray(mask)
    return check_singlets(leaves, gcl.StatusArray(status),
                          gcl.ColorArray(color), names, colors, case["invert"])


@sub("P27", events(), quick=150, rule="some colour singlet exists")
def singlets_in_events(case):
    event = build(case)
    truth = Truth(event)
    graph = event.graph()
    leaves = select.leaf_masks(select.hierarchy(graph))
    names = truth.leaves
    colors = [tuple(event.color[truth.row[n]].tolist()) for n in names]
    return check_singlets(leaves, graph.status, graph.color, names, colors,
                          True)


# ------------------------------------------------------------------- P28
RULES["P28"] = "Synthetic events and a radius."


@sub("P28",
     st.fixed_dictionaries({
         "event": events(),
         "radius": st.one_of(
             st.sampled_from([0.0, 0.2, 0.5, 1.0, 2.0, 10.0, 100.0]),
             st.floats(0.0, 8.0))}),
     quick=300, rule="some hadrons were contested, or pruned")
def clusters(case):
    event = build(case["event"])
    truth = Truth(event)
    graph = event.graph()
    masks, contested = expect_partition(event, truth, -0.1)
    names = truth.leaves
    colors = [tuple(event.color[truth.row[n]].tolist()) for n in names]
    _, free = expect_singlets(names, colors)
    pruned = 0
    for name in free:
        dist = plane_dist(event.pmu[[truth.row[name]]],
                          event.pmu[masks[name]])[0]
        # the parton itself may be final
        if np.any(np.abs(dist - case["radius"]) < 1e-7 * (1 + dist)) and (
            case["radius"] > 0
        ):
            raise Skip("on the edge")
        mine = np.flatnonzero(masks[name])
        far = mine[dist >= case["radius"]]
        pruned += int(np.sum(event.final[far]))
        masks[name] = masks[name].copy()
        masks[name][far] = False
    got = select.clusters(graph, case["radius"])
    require(sorted(got.keys()) == sorted(truth.names), "names",
            list(got.keys()), "not", truth.names)
    for name in truth.names:
        want = np.any([masks[n] for n in truth.below(name)], axis=0)
        want = want[event.final]
        mask = bits(got[name])
        require(np.array_equal(mask, want), "cluster of", name,
                np.flatnonzero(mask), "not", np.flatnonzero(want))
    everything = np.any([masks[n] for n in names], axis=0)[event.final]
    require(np.array_equal(np.asarray(got.data), everything), "aggregate")
    require(np.array_equal(graph.final.data, event.final), "event changed")
    return contested > 0 or pruned > 0
