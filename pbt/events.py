"""Synthetic event records, in the manner of Pythia: hard process with decay
chains, showers, hadronisation vertices, hadron decays, underlying event.

A case is plain data: the tree of the hard process (nested [pdg, children]),
and a few numbers.  ``build`` makes the columns of the record, and keeps what
it knows about them, as the reference for the checks.
"""
from __future__ import annotations

import typing as ty

import numpy as np
from hypothesis import strategies as st

from .gen import seeds

QUARKS = (1, 2, 3, 4, 5)
COLORED = set(range(1, 7)) | {21}
HADRONS = (211, -211, 111, 321, -321, 130, 2212, -2212, 2112, 310, 221, 413)
RESON = (6, -6, 24, -24, 23, 25, 32, 36)


# ------------------------------------------------------- hard process trees
def _leaf():
    return st.sampled_from(
        [1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 21, 21, 11, -11, 12, -13, 14, 22]
        * 2 + [23, 24, -24, 25, 2212, 1000022]  # not decayed; elastic
    ).map(lambda pdg: [pdg, []])


def _branch(children):
    return st.tuples(
        st.sampled_from(RESON), st.lists(children, min_size=1, max_size=3)
    ).map(list)


_tree = st.recursive(_leaf(), _branch, max_leaves=6)

TTBAR = [
    [6, [[5, []], [24, [[2, []], [-1, []]]]]],
    [-6, [[-5, []], [-24, [[1, []], [-2, []]]]]],
]
SEMILEP = [
    [6, [[5, []], [24, [[-11, []], [12, []]]]]],
    [-6, [[-5, []], [-24, [[3, []], [-4, []]]]]],
]
STABLE = [[25, []], [21, []]]
WBOSONS = [[6, [[5, []], [24, []]]], [-6, [[-5, []], [-24, [[1, []], [-2, []]]]]]]
HIGGS = [[25, [[23, [[5, []], [-5, []]]], [23, [[5, []], [-5, []]]]]], [21, []]]
DIJET = [[21, []], [21, []]]
TRIPLE = [[21, []], [21, []], [21, []], [1, []], [1, []], [1, []], [1, []]]
FOURTOPS = [[6, [[5, []], [24, [[2, []], [-1, []]]]]]] * 2 + [
    [-6, [[-5, []], [-24, [[1, []], [-2, []]]]]]] + [
    [6, [[5, []], [24, [[-11, []], [12, []]]]]]]
ZQQG = [[23, [[1, []], [21, []], [-1, []]]], [2, []]]


def processes():
    return st.one_of(
        st.sampled_from([TTBAR, SEMILEP, HIGGS, DIJET, ZQQG, STABLE,
                         WBOSONS, TRIPLE, FOURTOPS]),
        st.lists(_tree, min_size=1, max_size=3),
        st.lists(_tree, min_size=1, max_size=2),
        st.lists(_leaf(), min_size=1, max_size=4),
    )


@st.composite
def events(draw, shuffle=None):
    return {
        "hard": draw(processes()),
        "copies": draw(st.integers(0, 2)),
        "radiation": draw(st.sampled_from([0.0, 0.0, 0.5])),
        "splits": draw(st.integers(0, 4)),
        "ue": draw(st.integers(0, 5)),
        "mix": draw(st.sampled_from([0.0, 0.5, 1.0])),
        "bare": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
        "labels": draw(st.sampled_from(
            ["signed"] * 4 + ["zero", "gaps", "huge", "positive", "negative"])),
        "hadrons": draw(st.integers(1, 5)),
        "decays": draw(st.sampled_from([0.0, 0.4])),
        "lines": draw(st.sampled_from(["decay", "parent", "fresh"])),
        "level": draw(st.sampled_from(["hadron"] * 5 + ["parton"])),
        "shuffle": draw(st.booleans()) if shuffle is None else shuffle,
        "seed": draw(seeds),
    }


class Event(ty.NamedTuple):
    pdg: np.ndarray
    status: np.ndarray
    src: np.ndarray
    dst: np.ndarray
    pmu: np.ndarray
    color: np.ndarray
    helicity: np.ndarray
    final: np.ndarray
    hard: np.ndarray  # index into the flat list of hard partons, or -1
    parent: ty.Tuple[int, ...]  # hard parent of each hard parton, or -1

    def __len__(self):
        return len(self.pdg)

    @property
    def edges(self):
        return np.stack([self.src, self.dst], axis=1)

    def graph(self):
        import graphicle as gcl

        return gcl.Graphicle.from_numpy(
            pdg=self.pdg.copy(),
            pmu=self.pmu.copy(),
            color=self.color.copy(),
            helicity=self.helicity.copy(),
            status=self.status.copy(),
            final=self.final.copy(),
            edges=self.edges,
            weights=self.weights,
        )

    @property
    def weights(self):
        """Weights on some events: they must not matter."""
        num = len(self)
        if num % 3 != 1:
            return None
        rng = np.random.default_rng(num)
        return rng.choice([0.0, 1.0, -1.0, 0.5], size=num)


class _Maker:
    def __init__(self, case):
        self.case = case
        self.rng = np.random.default_rng(case["seed"])
        self.rows: ty.List[dict] = []
        self.num_vtx = 0
        self.num_line = 100
        self.num_hard = 0
        self.parents: ty.List[int] = []
        self.strings: ty.List[ty.List[dict]] = []

    def vertex(self):
        self.num_vtx += 1
        return self.num_vtx - 1

    def line(self):
        self.num_line += 1
        return self.num_line

    def direction(self, near=None, spread=0.4):
        rng = self.rng
        if near is None:
            return [
                rng.exponential(60.0) + 1.0,
                rng.normal(0, 1.5),
                rng.uniform(-np.pi, np.pi),
            ]
        pt, eta, phi = near
        return [
            pt * rng.uniform(0.2, 0.9),
            eta + rng.normal(0, spread),
            phi + rng.normal(0, spread),
        ]

    def add(self, pdg, status, src, coord, color=(0, 0), hard=-1):
        row = {
            "pdg": int(pdg),
            "status": status,
            "src": src,
            "dst": self.vertex(),
            "coord": coord,
            "color": color,
            "hard": hard,
            "final": False,
        }
        self.rows.append(row)
        return row

    # -- hard process
    def grow(self, tree, src, near, color, parent, later):
        pdg, children = tree
        coord = self.direction(near)
        status = -22 if children or abs(pdg) in RESON else -23
        if pdg == 2212:
            status = -24
        index = self.num_hard
        self.num_hard += 1
        self.parents.append(parent)
        row = self.add(pdg, status, src, coord, color, index)
        later.append((row, children, index))

    def decay(self, row, children, index):
        """Copies of the resonance, then its decay, if there is any."""
        last = row
        for _ in range(int(self.rng.integers(0, self.case["copies"] + 1))):
            if self.rng.random() < self.case.get("radiation", 0.0):
                self.radiate(last)
            last = self.add(
                row["pdg"],
                int(self.rng.choice([-44, -52, -62])),
                last["dst"],
                self.direction(row["coord"], 0.02),
                row["color"],
            )
        if not children:
            last["final"] = True
            last["status"] = abs(last["status"])
            return
        colors = self.share_colors(row, children)
        later = []
        for child, color in zip(children, colors):
            self.grow(child, last["dst"], row["coord"], color, index, later)
        for item in later:
            self.evolve(*item)

    def radiate(self, row):
        """A resonance emits a gluon or photon, before its decay."""
        near = row["coord"]
        near = [0.2 * near[0] + 1.0, near[1], near[2]]
        if self.kind(row["pdg"]) != 0:
            gluon = self.add(21, -51, row["dst"], self.direction(near, 1.0))
            self.strings.append(self.shower(gluon))
        else:
            photon = self.add(22, 51, row["dst"], self.direction(near, 1.0))
            photon["final"] = True

    def share_colors(self, row, children):
        """Colour flow of a decay; (color, anticolor) of each child."""
        kinds = [self.kind(c[0]) for c in children]
        style = self.case["lines"]
        out = [self.fresh(k) for k in kinds]
        if style == "fresh":
            return out
        trip = [i for i, k in enumerate(kinds) if k == 1]
        anti = [i for i, k in enumerate(kinds) if k == -1]
        octs = [i for i, k in enumerate(kinds) if k == 8]
        if row is not None and style == "parent":
            mine = self.kind(row["pdg"])
            if mine == 1 and trip:
                out[trip.pop()] = (row["color"][0], 0)
            if mine == -1 and anti:
                out[anti.pop()] = (0, row["color"][1])
        if trip and anti:
            first, last = trip[0], anti[0]
            link = self.line()
            out[first] = (link, 0)
            for octet in octs[:1]:
                prev, link = link, self.line()
                out[octet] = (link, prev)
            out[last] = (0, link)
        elif len(octs) == 2:
            a, b = self.line(), self.line()
            out[octs[0]], out[octs[1]] = (a, b), (b, a)
        return out

    @staticmethod
    def kind(pdg):
        if pdg == 21:
            return 8
        if 1 <= abs(pdg) <= 6:
            return 1 if pdg > 0 else -1
        return 0

    def fresh(self, kind):
        return {
            0: lambda: (0, 0),
            1: lambda: (self.line(), 0),
            -1: lambda: (0, self.line()),
            8: lambda: (self.line(), self.line()),
        }[kind]()

    def evolve(self, row, children, index):
        if children or abs(row["pdg"]) in RESON:
            self.decay(row, children, index)
        elif abs(row["pdg"]) in COLORED:
            self.strings.append(self.shower(row))
        else:  # leptons and photons, maybe with radiation
            if self.rng.random() < 0.5:
                row["final"] = True
                row["status"] = abs(row["status"])
            else:
                for pdg in (row["pdg"], 22):
                    out = self.add(
                        pdg, 51, row["dst"], self.direction(row["coord"], 0.1)
                    )
                    out["final"] = True

    def shower(self, row):
        """Partons at the end of the shower."""
        front = [row]
        for _ in range(int(self.rng.integers(0, self.case["splits"] + 1))):
            pick = front.pop(int(self.rng.integers(len(front))))
            if self.rng.random() < 0.25:
                front.append(
                    self.add(
                        pick["pdg"],
                        -52,
                        pick["dst"],
                        self.direction(pick["coord"], 0.02),
                        pick["color"],
                    )
                )
                continue
            for pdg in (pick["pdg"], 21):
                front.append(
                    self.add(
                        pdg, -51, pick["dst"], self.direction(pick["coord"])
                    )
                )
        return front

    def hadronise(self, partons):
        """Partons meet in a vertex, from which hadrons leave."""
        vtx = self.vertex()
        for parton in partons:
            odds = 0.3
            if parton["hard"] >= 0:
                odds = 1.0 - self.case.get("bare", 0.0)
            if self.rng.random() < odds:
                # a copy, arriving at the hadronisation vertex
                parton = self.add(
                    parton["pdg"],
                    int(self.rng.choice([-71, -73])),
                    parton["dst"],
                    self.direction(parton["coord"], 0.02),
                    parton["color"],
                )
            parton["dst"] = vtx
        for _ in range(int(self.rng.integers(1, self.case["hadrons"] + 1))):
            near = partons[int(self.rng.integers(len(partons)))]["coord"]
            hadron = self.add(
                int(self.rng.choice(HADRONS)),
                int(self.rng.integers(80, 91)),
                vtx,
                self.direction(near, 0.5),
            )
            if self.rng.random() >= self.case["decays"]:
                hadron["final"] = True
                continue
            hadron["status"] *= -1
            for pdg in (22, 22):
                out = self.add(
                    pdg, 91, hadron["dst"], self.direction(hadron["coord"], 0.1)
                )
                out["final"] = True

    def make(self):
        case, rng = self.case, self.rng
        for sign in (1, -1):
            beam = self.add(2212, -12, self.vertex(), [0.0, sign, 0.0])
            if sign == 1:
                first = beam
        hard_vtx = self.vertex()
        incoming = []
        for src in (first["dst"], self.rows[1]["dst"]):
            # the beam remnants join the underlying event
            mother = self.add(21, -41, src, self.direction())
            row = self.add(21, -21, mother["dst"], self.direction())
            row["dst"] = hard_vtx
            incoming.append(row)
        colors = self.share_colors(None, case["hard"])
        later = []
        for tree, color in zip(case["hard"], colors):
            self.grow(tree, hard_vtx, None, color, -1, later)
        for item in later:
            self.evolve(*item)
        # underlying event
        for _ in range(case["ue"]):
            row = self.add(
                int(rng.choice([21, 1, -2])),
                int(rng.choice([-31, -33, -63])),
                self.rows[int(rng.integers(2))]["dst"],
                self.direction(),
            )
            partons = self.shower(row)
            if self.strings and rng.random() < case["mix"]:
                self.strings[int(rng.integers(len(self.strings)))].extend(
                    partons
                )
            else:
                self.strings.append(partons)
        if case["mix"] and len(self.strings) > 1 and rng.random() < 0.6:
            # colour connected: two partons' radiation meets
            one = self.strings.pop(int(rng.integers(len(self.strings))))
            self.strings[int(rng.integers(len(self.strings)))].extend(one)
        if case["mix"] and len(self.strings) > 1 and rng.random() < 0.4:
            # part of a shower ends up elsewhere
            one = self.strings[int(rng.integers(len(self.strings)))]
            two = self.strings[int(rng.integers(len(self.strings)))]
            if one is not two and len(one) > 1:
                two.append(one.pop())
        for partons in self.strings:
            if case.get("level") != "parton":
                self.hadronise(partons)
                continue
            for parton in partons:  # the record ends with the shower
                parton["final"] = True
                parton["status"] = abs(parton["status"])
        return self.finish()

    def finish(self):
        rng, rows = self.rng, self.rows
        if self.case["shuffle"]:
            rows = [rows[i] for i in rng.permutation(len(rows))]
        labels = rng.permutation(np.arange(1, self.num_vtx + 1))
        # conventionally, the vertices of final particles are positive
        signs = np.full(self.num_vtx, -1)
        for row in rows:
            if row["final"]:
                signs[row["dst"]] = 1
        style = self.case.get("labels", "signed")
        if style == "zero":  # the first vertex is zero
            labels = labels - 1
        elif style == "gaps":
            labels = 7 * labels + 1_000_000
        elif style == "huge":  # one may not tell these in single precision
            labels = 2**31 - 10_000 - labels
        labels = labels * {"positive": 1, "negative": -1}.get(style, signs)
        coord = np.array([r["coord"] for r in rows], dtype=float)
        pt, eta, phi = coord.T
        mass = rng.choice([0.0, 0.14, 1.0], size=len(rows))
        xyz = np.stack([pt * np.cos(phi), pt * np.sin(phi), pt * np.sinh(eta)], 1)
        beam = pt == 0.0
        xyz[beam, 2] = 6500.0 * eta[beam]
        energy = np.sqrt((xyz**2).sum(1) + mass**2)
        return Event(
            pdg=np.array([r["pdg"] for r in rows], "<i4"),
            status=np.array([r["status"] for r in rows], "<i2"),
            src=labels[[r["src"] for r in rows]].astype("<i4"),
            dst=labels[[r["dst"] for r in rows]].astype("<i4"),
            pmu=np.concatenate([xyz, energy[:, None]], axis=1),
            color=np.array([r["color"] for r in rows], "<i4"),
            helicity=rng.choice([-1, 1, 9], size=len(rows)).astype("<i2"),
            final=np.array([r["final"] for r in rows], bool),
            hard=np.array([r["hard"] for r in rows]),
            parent=tuple(self.parents),
        )


def build(case) -> Event:
    return _Maker(case).make()


# ------------------------------------------------------------ references
def out_edges(src):
    table: ty.Dict[int, ty.List[int]] = {}
    for idx, vtx in enumerate(src.tolist()):
        table.setdefault(vtx, []).append(idx)
    return table


def reach(src, dst, vertex, table=None):
    """Mask over the edges which can be reached from the vertex."""
    table = out_edges(src) if table is None else table
    mask = np.zeros(len(src), bool)
    seen, stack = {vertex}, [vertex]
    while stack:
        for idx in table.get(stack.pop(), ()):
            mask[idx] = True
            nxt = int(dst[idx])
            if nxt not in seen:
                seen.add(nxt)
                stack.append(nxt)
    return mask


def hard_names(pdgs, name_of):
    """Unique names in order, with repeats numbered."""
    names = [name_of(p) for p in pdgs]
    count: ty.Dict[str, int] = {}
    out = []
    for name in names:
        if names.count(name) == 1:
            out.append(name)
        else:
            out.append(f"{name}:{count.get(name, 0)}")
            count[name] = count.get(name, 0) + 1
    return out
