"""P45: answers do not depend on arbitrary conventions of the record."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

import graphicle as gcl
from graphicle import calculate, matrix, select

from ..core import RULES, require, sub
from ..events import build, events
from ..gen import seeds
from .defaults import _EVENT

RULES["P45"] = (
    "An event, asked in two forms: as made, and reordered, relabelled,"
    " rotated, mirrored, boosted, conjugated, or in other units."
)


def own(ident):
    return frozenset(ident[ident < STRANGERS].tolist())


def order(ident):
    out = np.argsort(ident)
    return out[: int(np.sum(ident < STRANGERS))]


STRANGERS = 10**6  # particles from here on are not told of


class Form:
    """An event, and what was done to it: which particle is which, the names
    of the vertices, and by how much energies are scaled."""

    def __init__(self, pmu, pdg, color, helicity, status, final, edges,
                 ident, labels, unit=1.0, turn=0.0, conj=False):
        self.__dict__.update(locals())
        self.fident = ident[final]
        self.own = ident < STRANGERS
        self.hard = (np.abs(status) == 22) | (np.abs(status) == 23)
        self.hident = ident[self.hard]
        self.graph = gcl.Graphicle.from_numpy(
            edges=np.array(edges), pmu=np.array(pmu), pdg=np.array(pdg),
            color=np.array(color), helicity=np.array(helicity),
            status=np.array(status), final=np.array(final))
        self.fpmu = gcl.MomentumArray(pmu[final])
        self.hpmu = gcl.MomentumArray(pmu[self.hard])
        self.back = {v: k for k, v in labels.items()}

    def parts(self):
        return {k: getattr(self, k) for k in (
            "pmu", "pdg", "color", "helicity", "status", "final", "edges",
            "ident", "labels", "unit", "turn", "conj")}

    def but(self, **changes):
        return Form(**dict(self.parts(), **changes))

    # ------------------------------------------- answers by identity
    def mask(self, mask):
        return own(self.ident[np.asarray(mask, bool)])

    def fmask(self, mask):
        return own(self.fident[np.asarray(mask, bool)])

    def fmasks(self, masks):
        return sorted(filter(None, (sorted(self.fmask(m)) for m in masks)))

    def tree(self, group, mask=None):
        mask = self.mask if mask is None else mask
        out = []
        for key, val in group.items():
            sub_ = (self.tree(val, mask) if isinstance(val, gcl.MaskGroup)
                    else sorted(mask(val)))
            out.append((self.name(key), sub_))
        return sorted(out, key=repr)

    exact = False  # repeated partons keep their numbers

    def name(self, key):
        if self.exact:
            return key
        key = key.split(":")[0]
        return _ANTI.get(key, key) if self.conj else key

    def verts(self, labels):
        found = (self.back[int(v)] for v in labels)
        return sorted(v for v in found if not isinstance(v, str))

    def per(self, values):
        return np.asarray(values)[order(self.ident)]

    def fper(self, values):
        return np.asarray(values)[order(self.fident)]

    def mat(self, values, rows="fident", cols="fident"):
        rows, cols = getattr(self, rows), getattr(self, cols)
        return np.asarray(values)[order(rows)][:, order(cols)]

    def code(self, pdg):
        """The code of the first form, as it is called in this one."""
        return int(_CONJ.get(pdg, pdg)) if self.conj else int(pdg)


def _conjugates():
    """Codes which have an antiparticle, and the names of those."""
    codes = [c for c in (*range(1, 7), *range(11, 17), 24, 211, 321, 2212,
                         2112, 411, 521, 511, 3122)]
    out, names = {}, {}
    for code in codes:
        one, two = (str(v) for v in gcl.PdgArray([code, -code]).name)
        out[code], out[-code] = -code, code
        names[one], names[two] = two, one
    return out, names


_CONJ, _ANTI = _conjugates()


# ------------------------------------------------------------- the forms
def original(case):
    event = build(case["event"])
    rng = np.random.default_rng([case["seed"], 45])
    num = len(event)
    # all different, in general position
    pt = rng.exponential(20.0, num) + 0.05
    phi = rng.uniform(-np.pi, np.pi, num)
    eta = rng.normal(0.0, 1.5, num)
    mass = rng.exponential(2.0, num) * (rng.random(num) < 0.6)
    z = pt * np.sinh(eta)
    pmu = np.column_stack([pt * np.cos(phi), pt * np.sin(phi), z,
                           np.sqrt(pt**2 + z**2 + mass**2)])
    edges = np.array(event.edges).astype(int).reshape(-1, 2)
    labels = {int(v): int(v) for v in np.unique(edges)}
    return Form(pmu, np.array(event.pdg), np.array(event.color),
                rng.integers(-1, 2, num), np.array(event.status),
                np.array(event.final, bool), edges, np.arange(num), labels)


LARGEST = 2**31 - 1  # label of a vertex


def reorder(form, rng):
    perm = rng.permutation(len(form.ident))
    return form.but(**{k: getattr(form, k)[perm] for k in (
        "pmu", "pdg", "color", "helicity", "status", "final", "edges",
        "ident")})


def relabel(form, rng):
    old = np.array(sorted(form.labels.values()))
    style = rng.integers(6)
    if style == 0:
        new = rng.permutation(old)
    elif style == 1:
        new = -old[::-1] + int(rng.integers(-5, 6))
    elif style == 2:
        new = rng.choice(2**31 - 1, 4 * len(old), replace=False)[: len(old)]\
            if len(old) < 2 else np.unique(
                rng.integers(-(2**31) + 1, 2**31 - 1, 8 * len(old)))
        new = rng.permutation(new)[: len(old)]
    elif style == 3:
        new = old + int(rng.integers(1, 10**6))
    else:  # a vertex of importance gets a special label
        status = np.abs(form.status)
        rows = np.flatnonzero([status >= 80, form.hard, status > 0][
            rng.integers(3)])
        rows = rows if len(rows) else np.arange(len(status))
        vertex = form.edges[rows[rng.integers(len(rows))], rng.integers(2)]
        new = rng.permutation(len(old)) + 2
        new = new * rng.choice([1, -1], len(new)) * int(rng.choice([1, 1000]))
        new[np.searchsorted(old, vertex)] = rng.choice([0, 0, 1, -1])
    table = dict(zip(old.tolist(), new.tolist()))
    if len(table) < len(old) or len(set(table.values())) < len(old):
        return form
    if np.abs(new).max() > LARGEST:
        return form
    edges = np.array([[table[int(a)], table[int(b)]] for a, b in form.edges])
    return form.but(edges=edges, labels={
        k: table[v] for k, v in form.labels.items()})


def rotate(form, rng):
    turn = float(rng.uniform(-np.pi, np.pi))
    if rng.random() < 0.3:
        turn = float(rng.choice([np.pi / 2, np.pi, -np.pi / 2]))
    pmu = form.pmu.copy()
    polar = (pmu[:, 0] + 1.0j * pmu[:, 1]) * np.exp(1.0j * turn)
    pmu[:, 0], pmu[:, 1] = polar.real, polar.imag
    return form.but(pmu=pmu)


def mirror_y(form, rng):
    return form.but(pmu=form.pmu * [1.0, -1.0, 1.0, 1.0])


def mirror_z(form, rng):
    return form.but(pmu=form.pmu * [1.0, 1.0, -1.0, 1.0])


def swap_xy(form, rng):
    return form.but(pmu=form.pmu[:, [1, 0, 2, 3]])


def scale(form, rng):
    unit = 2.0 ** int(rng.choice([-20, -10, -3, 1, 5, 10, 20]))
    return form.but(pmu=form.pmu * unit, unit=form.unit * unit)


def conjugate(form, rng):
    pdg = np.array([_CONJ.get(int(c), int(c)) for c in form.pdg])
    return form.but(pdg=pdg, color=form.color[:, ::-1], conj=not form.conj)


def boost(form, rng):
    rap = float(rng.uniform(-2.0, 2.0))
    pmu = form.pmu.copy()
    z, energy = form.pmu[:, 2], form.pmu[:, 3]
    pmu[:, 2] = np.cosh(rap) * z + np.sinh(rap) * energy
    pmu[:, 3] = np.cosh(rap) * energy + np.sinh(rap) * z
    return form.but(pmu=pmu)


CHANGES = {f.__name__: f for f in (
    reorder, relabel, rotate, mirror_y, mirror_z, swap_xy, scale, conjugate,
    boost)}


# ------------------------------------------------------------ the questions
def hierarchy(f):
    return select.hierarchy(f.graph)


def targets(f, case):
    """One code of the hard partons of the event as made."""
    hard = np.unique(original(case).graph.pdg.data[f_hard(case)])
    return int(hard[case["pick"] % len(hard)])


def f_hard(case):
    status = np.abs(original(case).status)
    return (status == 22) | (status == 23)


def ask_singlets(f, case):
    leaves = select.leaf_masks(hierarchy(f))
    found = [select.color_singlets(leaves, f.graph.status, f.graph.color, inv)
             for inv in (False, True)]
    return [sorted(sorted(sorted(f.mask(leaves[name])) for name in group)
                   for group in groups) for groups in found]


def squared(mass, f):
    """Small masses are known to the square root of the precision only."""
    return np.asarray(mass) * np.abs(mass) / f.unit**2


def ask_axis(f, case):
    mass = np.sum(f.fpmu, axis=0)
    return np.array([float(mass.pt[0]) / f.unit, squared(mass.mass[0], f)])


def vertex_of(f, case):
    old = sorted(v for v in f.labels if not isinstance(v, str))
    first = old[case["pick"] % len(old)]
    return f.labels[first]


def edge_of(f, case):
    pick = case["pick"] % int(np.sum(f.own))
    pos = int(np.flatnonzero(f.ident == pick)[0])
    return tuple(int(v) for v in f.edges[pos])


def pruned(f, case):
    return f.fmask(select.centroid_prune(f.fpmu, 1.0).data)


def some_mask(f, case, num=0):
    """The same particles in all forms."""
    rng = np.random.default_rng([case["seed"], 7, num])
    table = rng.random(int(np.sum(f.own))) < 0.5
    return np.where(f.own, table[np.where(f.own, f.ident, 0)], False)


def jets_of(f, case):
    power = (-1, 0, 1, 0.5)[case["pick"] % 4]
    cut = (None, 5.0)[case["pick"] // 4 % 2]
    return f.fmasks(select.fastjet_clusters(
        f.fpmu, 0.7, power, None if cut is None else cut * f.unit,
        top_k=(None, 3)[case["pick"] // 8 % 2]))


def degrees(f, case):
    adj = f.graph.adj
    count = {}
    for node in np.asarray(adj.nodes).tolist():
        if isinstance(f.back[node], str):
            continue
        count[f.back[node]] = (int(np.sum(adj.edges["src"] == node)),
                               int(np.sum(adj.edges["dst"] == node)))
    return sorted(count.items())


def same_names(f, case):
    return sorted((int(i), f.name(str(n)))
                  for i, n in zip(f.ident, f.graph.pdg.name)
                  if i < STRANGERS)


# name: question(form, case), where it holds: "e" not for boosts (depends on
# energies or pseudorapidities), "k" also if nothing is known of the hard part
ASK = {
    "hard mask": (lambda f, c: [f.mask(m.data) for m in
                                f.graph.hard_mask.values()], ""),
    "hard descendants": (
        lambda f, c: f.tree(select.hard_descendants(f.graph)), ""),
    "targets": (lambda f, c: f.tree(select.hard_descendants(
        f.graph, [f.code(targets(f, c))])), ""),
    "signed targets": (lambda f, c: f.tree(select.hard_descendants(
        f.graph, [f.code(targets(f, c))], sign_sensitive=True)), ""),
    "hierarchy": (lambda f, c: f.tree(hierarchy(f)), ""),
    "leaves": (lambda f, c: f.tree(select.leaf_masks(hierarchy(f))), ""),
    "partition": (lambda f, c: f.tree(select.partition_descendants(
        f.graph, hierarchy(f), (-0.1, 0.0, -1.0)[c["pick"] % 3])), "e"),
    "clusters": (lambda f, c: f.tree(select.clusters(f.graph, 1.0), f.fmask), "e"),
    "singlets": (ask_singlets, ""),
    "vertex descendants": (lambda f, c: f.mask(select.vertex_descendants(
        f.graph.adj, vertex_of(f, c)).data), ""),
    "edge descendants": (lambda f, c: f.mask(select.edge_descendants(
        f.graph.adj, edge_of(f, c)).data), ""),
    "hadron vertices": (lambda f, c: f.verts(select.hadron_vertices(
        f.graph.adj, f.graph.status)), ""),
    "find vertex in": (lambda f, c: f.verts(select.find_vertex(
        f.graph, {f.code(targets(f, c))})), ""),
    "find vertex out": (lambda f, c: f.verts(select.find_vertex(
        f.graph, pdgs_out={f.code(targets(f, c))})), ""),
    "roots and leaves": (lambda f, c: (f.mask(f.graph.adj.roots.data),
                                       f.mask(f.graph.adj.leaves.data),
                                       f.verts(f.graph.adj.nodes)), ""),
    "degrees": (degrees, ""),
    "names": (same_names, ""),
    "pdg mask": (lambda f, c: f.mask(f.graph.pdg.mask(
        [f.code(targets(f, c))], False, True).data), ""),
    "status range": (lambda f, c: f.mask(f.graph.status.in_range(
        60, 85).data), ""),
    "masses of species": (lambda f, c: f.per(f.graph.pdg.mass), ""),
    "size of charge": (lambda f, c: f.per(np.abs(f.graph.pdg.charge)), ""),
    "jets": (jets_of, ""),
    "jets in view": (lambda f, c: f.fmasks(select.fastjet_clusters(
        f.fpmu, 0.5, -1, eta_cut=1.5)), "e"),
    "pt": (lambda f, c: f.per(f.graph.pmu.pt) / f.unit, ""),
    "mass": (lambda f, c: squared(f.per(f.graph.pmu.mass), f), ""),
    "transverse mass": (lambda f, c: f.per(f.graph.pmu.mass_t) / f.unit, ""),
    "energy": (lambda f, c: f.per(f.graph.pmu.energy) / f.unit, "e"),
    "size of eta": (lambda f, c: np.abs(f.per(f.graph.pmu.eta)), "e"),
    "size of rapidity": (lambda f, c: np.abs(f.per(f.graph.pmu.rapidity)),
                         "e"),
    "size of theta": (lambda f, c: np.abs(np.cos(f.per(f.graph.pmu.theta))),
                      "e"),
    "distances": (lambda f, c: f.mat(f.fpmu.delta_R(f.fpmu)), "e"),
    "true distances": (lambda f, c: f.mat(f.fpmu.delta_R(f.fpmu, False)),
                       ""),
    "distances to partons": (lambda f, c: f.mat(
        f.hpmu.delta_R(f.fpmu, threads=2), "hident"), "e"),
    "weighted distances": (lambda f, c: f.mat(matrix.parton_hadron_distance(
        f.hpmu, f.fpmu, -0.5), "hident") * f.unit**0.5, "e"),
    "joined mass": (lambda f, c: np.array(
        [squared(calculate.combined_mass(f.fpmu), f)]), ""),
    "weighted mass": (lambda f, c: np.array([squared(
        calculate.combined_mass(f.graph.pmu, some_mask(f, c)[:, None] + 0.5),
        f)]), ""),
    "axis": (ask_axis, ""),
    "sums": (lambda f, c: squared(calculate.aggregate_momenta(
        f.graph.pmu, [some_mask(f, c), some_mask(f, c, 1)]).mass, f), ""),
    "c parameter": (lambda f, c: np.array([calculate.c_parameter(f.fpmu)]),
                    "e"),
    "clustering coefficients": (lambda f, c: f.fper(
        calculate.cluster_coeff_distbn(f.fpmu, 1.0)), "e"),
    "true clustering coefficients": (lambda f, c: f.fper(
        calculate.cluster_coeff_distbn(f.fpmu, 1.0, False, 2)), ""),
    "near the axis": (pruned, "e"),
    "jaccard": (lambda f, c: np.array([calculate.jaccard_distance(
        some_mask(f, c), some_mask(f, c, 1),
        f.graph.pmu.pt / f.unit)]), ""),
    "overlap": (lambda f, c: select.any_overlap(
        select.leaf_masks(hierarchy(f))), ""),
    "neighbours": (lambda f, c: f.mat(matrix.knn_adj(
        f.fpmu.delta_R(f.fpmu), min(3, len(f.fpmu) - 1))).tolist()
        if len(f.fpmu) > 1 else [], "e"),
    "close pairs": (lambda f, c: f.mat(matrix.cut_adj(
        f.fpmu.delta_R(f.fpmu, False), 1.0)).tolist(), ""),
    "subgraph": (lambda f, c: [sorted(np.asarray(
        f.ident[some_mask(f, c)]).tolist()), f.mask(
        select.vertex_descendants(f.graph.adj, vertex_of(f, c)).data
        & some_mask(f, c))], ""),
}


def close(one, two):
    if isinstance(one, np.ndarray):
        return one.shape == two.shape and np.allclose(
            one, two, rtol=1e-6, atol=1e-6)
    return one == two


def ask(name, form, case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ASK[name][0](form, case)


@st.composite
def symmetry_cases(draw):
    return {"event": draw(events()), "seed": draw(seeds),
            "ask": draw(st.lists(st.sampled_from(sorted(ASK)), min_size=1,
                                 max_size=6, unique=True)),
            "changes": draw(st.lists(st.sampled_from(sorted(CHANGES)),
                                     min_size=1, max_size=4)),
            "pick": draw(st.integers(0, 60))}


def run_symmetry(case):
    first = original(case)
    if len(first.ident) == 0 or not f_hard(case).any() \
            or first.final.sum() == 0:
        return False
    rng = np.random.default_rng([case["seed"], 46])
    other = first
    for change in case["changes"]:
        other = CHANGES[change](other, rng)
    for name in case["ask"]:
        holds = ASK[name][1]
        if "boost" in case["changes"] and "e" in holds:
            continue
        want, got = ask(name, first, case), ask(name, other, case)
        require(close(want, got), name, "after", case["changes"], "is", got,
                "but was", want)
    return True


@sub("P45", symmetry_cases(), quick=400, thorough=20000,
     rule="the event has final and hard particles")
def same_answers(case):
    return run_symmetry(case)


def each_question(tier, seed):
    for num in range(2 if tier == "quick" else 40):
        for change in sorted(CHANGES):
            yield {"event": dict(_EVENT, seed=seed * 100 + num),
                   "seed": 1000 * seed + num, "ask": sorted(ASK),
                   "changes": [change], "pick": 3 * num + seed}


@sub("P45", enum=each_question, rule="the event has final and hard particles")
def each_symmetry(case):
    return run_symmetry(case)


# ------------------------------------------------------------- strangers
RULES["P46"] = (
    "An event, asked alone and with particles between its own which have"
    " nothing to do with them."
)

# what rests on all particles alike, or on their number
OF_ALL = {"joined mass", "weighted mass", "axis", "c parameter",
          "near the axis", "neighbours", "jaccard"}


def strangers(form, rng, num):
    """Particles on vertices of their own, far off in angle."""
    old = len(form.ident)
    side = rng.choice([-1.0, 1.0], num)
    eta = side * rng.uniform(11.0, 13.0, num)
    phi = rng.uniform(-np.pi, np.pi, num)
    pt = rng.exponential(5.0, num) + 0.01
    z = pt * np.sinh(eta)
    pmu = np.column_stack([pt * np.cos(phi), pt * np.sin(phi), z,
                           np.sqrt(pt**2 + z**2) + rng.random(num)])
    pdg = rng.choice(np.concatenate([form.pdg, [2212, 21, 211, 5, -5, 111]]),
                     num)
    status = rng.choice([-63, -51, -71, -42, 83, 84, 91, 1, -31, 62], num)
    color = rng.choice([0, 0, 101, 102, 501], (num, 2))
    first, last = min(form.labels.values()), max(form.labels.values())
    count = max(2, num // 2)
    above = rng.random() < 0.5
    if last + count > LARGEST:
        above = False
    elif first - count < -LARGEST:
        above = True
    names = ([last + 1 + i for i in range(count)] if above
             else [first - 1 - i for i in range(count)])
    if rng.random() < 0.5:
        rng.shuffle(names)
    labels = dict(form.labels)
    labels.update((f"other {v}", int(v)) for v in names)
    pos = np.sort(rng.integers(0, count, (num, 2)), axis=1)
    pos[:, 1] += pos[:, 0] == pos[:, 1]
    pos[pos >= count] = count - 1
    keep = pos[:, 0] != pos[:, 1]
    pos[~keep] = (0, count - 1)
    edges = np.array(names)[pos]
    place = np.argsort(np.concatenate(
        [np.arange(old) + 0.5, rng.choice([rng.uniform(0, old), 0.0, old],
                                          num) + rng.uniform(0, 0.4, num)]),
        kind="stable")
    def mix(mine, theirs):
        return np.concatenate([mine, theirs])[place]
    return form.but(
        pmu=mix(form.pmu, pmu), pdg=mix(form.pdg, pdg),
        color=mix(form.color, color), status=mix(form.status, status),
        helicity=mix(form.helicity, np.zeros(num, int)),
        final=mix(form.final, rng.random(num) < 0.6),
        edges=mix(form.edges, edges), labels=labels,
        ident=mix(form.ident, STRANGERS + np.arange(num)))


@st.composite
def stranger_cases(draw):
    return {"event": draw(events()), "seed": draw(seeds),
            "ask": draw(st.lists(
                st.sampled_from(sorted(set(ASK) - OF_ALL)), min_size=1,
                max_size=6, unique=True)),
            "num": draw(st.integers(1, 30)),
            "changes": draw(st.lists(st.sampled_from(["reorder", "relabel"]),
                                     max_size=1)),
            "pick": draw(st.integers(0, 60))}


def run_strangers(case):
    first = original(case)
    if not f_hard(case).any() or first.final.sum() == 0:
        return False
    rng = np.random.default_rng([case["seed"], 47])
    other = strangers(first, rng, case["num"])
    for change in case["changes"]:
        other = CHANGES[change](other, rng)
    first.exact = other.exact = "reorder" not in case["changes"]
    for name in case["ask"]:
        if name == "jets" and case["pick"] // 8 % 2:
            continue  # the hardest of all
        want, got = ask(name, first, case), ask(name, other, case)
        require(close(want, got), name, "next to others is", got, "not", want)
    return True


@sub("P46", stranger_cases(), quick=350, thorough=20000,
     rule="the event has final and hard particles")
def same_next_to_others(case):
    return run_strangers(case)


def each_next_to_others(tier, seed):
    for num in range(4 if tier == "quick" else 100):
        yield {"event": dict(_EVENT, seed=seed * 100 + num),
               "seed": 1000 * seed + num, "ask": sorted(set(ASK) - OF_ALL),
               "num": 1 + 9 * num, "changes": [], "pick": 5 * num + seed}


@sub("P46", enum=each_next_to_others,
     rule="the event has final and hard particles")
def each_with_others(case):
    return run_strangers(case)
