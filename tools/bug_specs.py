"""Specs of the planted bugs: see ``bugs.py``."""
COMMON = '''import warnings

import numpy as np

import graphicle as gcl

warnings.simplefilter("ignore")


def check(cond, *msg):
    if not cond:
        raise SystemExit("FAILED: " + " ".join(map(str, msg)))


'''
PP = '''def pmu_of(pt, eta, phi, mass=0.0):
    pt, eta, phi = map(np.asarray, (pt, eta, phi))
    z = pt * np.sinh(eta)
    e = np.sqrt(pt * pt + z * z + np.square(mass))
    cols = np.broadcast_arrays(pt * np.cos(phi), pt * np.sin(phi), z, e)
    return gcl.MomentumArray(np.stack(cols, axis=-1).reshape(-1, 4))


'''
SPECS = []


def bug(id, prop, edits, needs, breaks, demo, pre=""):
    SPECS.append(dict(
        id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
        demo=demo.lstrip("\n"), pre=pre,
    ))


D, S, C, M, T = (f"graphicle/{n}.py" for n in
                 ("data", "select", "calculate", "matrix", "transform"))

bug("p30-topk-before-eta", "P30",
    [(S, "    pt_descend_idxs = np.argsort(jet_pmus.pt)[::-1].tolist()\n",
      "    pt_descend_idxs = np.argsort(jet_pmus.pt)[::-1][:top_k].tolist()\n")],
    "eta_cut and top_k together, with one of the hardest jets beyond the cut",
    "top_k is applied before the pseudorapidity cut, so fewer jets are kept",
    '''
pmu = pmu_of([50.0, 40.0, 30.0, 20.0], [3.0, 0.0, 1.0, -1.0],
             [0.0, 1.5, 3.0, -1.5])
jets = gcl.select.fastjet_clusters(pmu, 0.4, -1, eta_cut=2.0, top_k=2)
got = [np.flatnonzero(j.data).tolist() for j in jets]
check(got == [[1], [2]], got)
''', PP)

bug("p23-left-join", "P23",
    [(S, 'pcls_in, how="outer", lsuffix', 'pcls_in, how="left", lsuffix')],
    "a search by outgoing codes only, matched by a vertex at which no "
    "particle arrives",
    "vertices without arriving particles are never found",
    '''
graph = gcl.Graphicle.from_numpy(
    pdg=[2212, 21, 5, -5], edges=[(1, 2), (2, 3), (3, 4), (3, 5)])
got = sorted(gcl.select.find_vertex(graph, pdgs_out={2212}).tolist())
check(got == [1], got)
''')

bug("p22-col-reach", "P22",
    [(S, "mask = np.isin(sparse.row, bft.indices)",
      "mask = np.isin(sparse.col, bft.indices)")],
    "an edge from outside the search which arrives at a reachable vertex",
    "edges which merely arrive at a reachable vertex are marked as descendants",
    '''
adj = gcl.AdjacencyList([(1, 2), (2, 3), (9, 3), (3, 4)])
got = gcl.select.vertex_descendants(adj, 2).data.tolist()
check(got == [False, True, False, True], got)
''')

EVENT = '''def event(rows, weights=None):
    """rows of pdg, status, src, dst, (x, y, z, e), (color, anticolor)"""
    pdg, status, src, dst, pmu, color = zip(*rows)
    dst_set = set(src)
    return gcl.Graphicle.from_numpy(
        pdg=np.array(pdg), status=np.array(status), pmu=np.array(pmu, float),
        color=np.array(color), edges=np.array(list(zip(src, dst))),
        final=np.array([d not in dst_set for d in dst]))


def vec(eta, phi, pt=10.0):
    z = pt * np.sinh(eta)
    return (pt * np.cos(phi), pt * np.sin(phi), z, np.hypot(pt, z))


'''

bug("p26-hard-incident-only", "P26",
    [(S, "                    pcls_in,\n                    vtx_desc,",
      "                    pcls_in & hier.bitwise_or().data,\n"
      "                    vtx_desc,")],
    "a parton from outside the hard process arriving at the same "
    "hadronisation vertex, and nearest to one of the hadrons",
    "partons which descend from no leaf never win a hadron, so the leaf gets "
    "particles which belong to the underlying event",
    '''
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (1, 2)),
    (5, -23, 2, 3, vec(0.5, 0.5), (1, 0)),
    (5, 71, 3, 4, vec(0.5, 0.5), (1, 0)),
    (-1, 71, 5, 4, vec(-2.0, 2.5), (0, 1)),
    (211, 83, 4, 6, vec(0.6, 0.4), (0, 0)),
    (-211, 84, 4, 7, vec(-2.1, 2.4), (0, 0)),
])
hier = gcl.select.hierarchy(graph)
part = gcl.select.partition_descendants(graph, hier)
got = part["b"].data[4:].tolist()
check(got == [True, False], got)
''', EVENT)

bug("p25-one-resonance", "P25",
    [(S, '    if not np.any(hard_mask["intermediate"]):\n        return desc\n',
      '    if np.sum(hard_mask["intermediate"].data) < 2:\n'
      '        return desc  # nothing to nest\n')],
    "a hard process with a single resonance",
    "the decay products of a lone resonance are not nested under it",
    '''
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (0, 0)),
    (23, -22, 2, 3, vec(0.2, 0.5), (0, 0)),
    (11, -23, 3, 4, vec(0.5, 0.5), (0, 0)),
    (-11, -23, 3, 5, vec(-0.5, 0.5), (0, 0)),
])
hier = gcl.select.hierarchy(graph)
check(set(hier) == {"Z0"}, list(hier))
check(set(hier["Z0"]) == {"e-", "e+", "latent"}, list(hier["Z0"]))
''', EVENT)

bug("p27-adjacent-triples", "P27",
    [(S, "it.combinations(named_colors, 2), it.combinations(named_colors, 3)\n",
      "it.combinations(named_colors, 2),\n"
      "        zip(named_colors, named_colors[1:], named_colors[2:]),\n")],
    "a singlet of three partons with another coloured parton between them",
    "only runs of three consecutive partons are tried as singlets",
    '''
leaves = gcl.MaskGroup({n: np.arange(4) == i for i, n in enumerate("abcd")},
                       "or")
status = gcl.StatusArray([-23] * 4)
color = gcl.ColorArray([(1, 0), (7, 8), (2, 1), (0, 2)])
got = gcl.select.color_singlets(leaves, status, color)
check(sorted(map(sorted, got)) == [["a", "c", "d"]], got)
''')

bug("p28-latent-kept", "P28",
    [(S, "    hier.recursive_drop(inplace=True)\n    flat_hier = hier",
      "    hier.recursive_drop()\n    flat_hier = hier")],
    "a resonance which radiates a particle that reaches the final state "
    "without passing through its decay products",
    "radiation of a resonance leaks into its cluster",
    '''
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (0, 0)),
    (23, -22, 2, 3, vec(0.2, 0.5), (0, 0)),
    (22, 51, 3, 6, vec(2.5, 2.5), (0, 0)),
    (23, 52, 3, 7, vec(0.2, 0.5), (0, 0)),
    (11, -23, 7, 4, vec(0.5, 0.5), (0, 0)),
    (-11, -23, 7, 5, vec(-0.5, 0.5), (0, 0)),
])
got = gcl.select.clusters(graph, 1.0)
check(got["Z0"].data.tolist() == [False, True, True], got["Z0"].data)
''', EVENT)

bug("p24-names-before-target", "P24",
    [(S, "    hard_graph = graph[hard_mask]\n    hard_idxs",
      "    hard_graph = graph[hard_mask]\n"
      "    hard_keys = np.array(_pdgs_to_keys(hard_graph.pdg))\n"
      "    hard_idxs"),
     (S, "    pdg_keys = _pdgs_to_keys(hard_graph.pdg)\n    pcl_out",
      "    pdg_keys = tuple(map(str, hard_keys))\n    pcl_out"),
     (S, "        hard_graph = hard_graph[target_mask]\n",
      "        hard_graph = hard_graph[target_mask]\n"
      "        hard_keys = hard_keys[: len(hard_graph)]\n")],
    "targets which leave out a hard parton recorded before a chosen one",
    "the names are those of the first partons of the hard process, rather "
    "than of the targets",
    '''
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (0, 0)),
    (6, -22, 2, 3, vec(0.2, 0.5), (0, 0)),
    (5, -23, 3, 4, vec(0.5, 0.5), (0, 0)),
    (24, -23, 3, 5, vec(-0.5, 0.5), (0, 0)),
])
got = list(gcl.select.hard_descendants(graph, [24]))
check(got == ["W+"], got)
''', EVENT)

bug("p07-drop-nested-key", "P07",
    [(D, "value.recursive_drop(key, inplace=True)",
      "value.recursive_drop(inplace=True)")],
    "dropping a key other than the default from a group with nested groups",
    "nested groups lose their latent masks in place of the named one",
    '''
a = gcl.MaskArray([True, False])
tree = gcl.MaskGroup({"t": {"b": a, "latent": a}, "b": a}, "or")
got = tree.recursive_drop("b")
check(list(got) == ["t"] and list(got["t"]) == ["latent"], str(got))
''')

bug("p07-nested-order", "P07",
    [(D, "            if not _maskgroup_equal(mask_1, mask_2, check_order):\n",
      "            if not mask_1.equal_to(mask_2):\n")],
    "two groups whose only difference is the order of the keys of a nested "
    "group, compared with check_order",
    "order is only checked at the top level",
    '''
a, b = gcl.MaskArray([True]), gcl.MaskArray([False])
one = gcl.MaskGroup({"t": {"x": a, "y": b}})
two = gcl.MaskGroup({"t": {"y": b, "x": a}})
check(one.equal_to(two))
check(not one.equal_to(two, check_order=True))
''')

bug("p06-list-rule", "P06",
    [(D, "cl.OrderedDict({k: self._mask_arrays[k] for k in key}), agg\n",
      "cl.OrderedDict({k: self._mask_arrays[k] for k in key})\n")],
    "a list selection from a group whose rule is not the default",
    "selections by a list of keys fall back to the default rule",
    '''
group = gcl.MaskGroup({"a": [True, False], "b": [False, False]}, "or")
check(group[["a", "b"]].data.tolist() == [True, False])
''')

bug("p04-nested-shared", "P04",
    [(D, '        mask_copies = map(op.methodcaller("copy"), '
         'self._mask_arrays.values())\n',
      '        mask_copies = map(\n'
      '            lambda mask: mask.copy() if isinstance(mask, MaskArray) '
      'else mask,\n            self._mask_arrays.values(),\n        )\n')],
    "a copy of a group with a nested group, and a change below the top level",
    "copies share their nested groups with the original",
    '''
group = gcl.MaskGroup({"t": {"b": [True, False]}}, "or")
other = group.copy()
other["t"]["b"][0] = False
check(group["t"]["b"].data.tolist() == [True, False])
''')

bug("p18-zero-upper", "P18",
    [(D, "        if max_status is None:\n            return MaskArray(more_than)",
      "        if not max_status:\n            return MaskArray(more_than)")],
    "an upper bound of zero",
    "an upper bound of zero is taken as no bound",
    '''
status = gcl.StatusArray([-3, 0, 5])
got = status.in_range(-5, 0, sign_sensitive=True).data.tolist()
check(got == [True, True, False], got)
''')

bug("p19-masks-fallback", "P19",
    [(D, "                params[attr] = getattr(event, attr)\n"
         "            except AttributeError:\n"
         "                if attr",
      "                params[attr] = getattr(event, attr, None)\n"
      "            except AttributeError:\n"
      "                if attr")],
    "a provider without a final attribute, but with a dictionary of masks",
    "final state flags held in the masks of the provider are lost",
    '''
class Event:
    pdg = np.array([1, 2], dtype="<i4")
    masks = {"final": np.array([False, True])}


got = gcl.Graphicle.from_event(Event()).final.data.tolist()
check(got == [False, True], got)
''')

bug("p21-abs-labels", "P21",
    [(D, "_, inv = np.unique(self._data, return_inverse=True)",
      "_, inv = np.unique(np.abs(self._data), return_inverse=True)")],
    "negative node labels",
    "the matrix is in order of magnitude of the labels, and labels which "
    "differ by sign are merged",
    '''
adj = gcl.AdjacencyList([(1, 2), (2, -3)])
got = adj.matrix.astype(int).tolist()
check(got == [[0, 0, 0], [0, 0, 1], [1, 0, 0]], got)
''')

bug("p21-saturated", "P21",
    [(D, '            adj.data = adj.data.astype("<i4")\n', "")],
    "a repeated edge in an unweighted list",
    "repeated edges do not add up",
    '''
adj = gcl.AdjacencyList([(1, 2), (1, 2), (2, 3)])
check(int(adj.matrix[0, 1]) == 2, adj.matrix)
''')

bug("p20-signed-roots", "P20",
    [(D, "in_degree = self._sparse_unsigned.sum(axis=0)",
      "in_degree = self._sparse_signed.sum(axis=0)")],
    "an edge which ends at a node with a negative label, from which another "
    "edge leaves",
    "edges from such nodes are reported as roots",
    '''
adj = gcl.AdjacencyList([(1, -2), (-2, 3)])
got = adj.roots.data.tolist()
check(got == [True, False], got)
''')

bug("p29-negative-filter", "P29",
    [(S, "            list_ = np.abs(list_)\n", "")],
    "a negative code in the blacklist or whitelist, without sign sensitivity",
    "negative codes in the lists never match anything",
    '''
pcls = gcl.ParticleSet.from_numpy(
    pdg=[5, -5, 111, 211], status=[-23, -23, 83, 84],
    pmu=pmu_of([10, 10, 9, 9], [0, 1, 0, 1], [0, 3, 0, 3]).data,
    final=[False, False, True, True])
masks = [gcl.MaskArray([True, False]), gcl.MaskArray([False, True])]
got = gcl.select.monte_carlo_tag(pcls, masks, whitelist=[-5])
check(set(got) == {"b", "b~"}, list(got))
''', PP)

bug("p31-unmasked-centre", "P31",
    [(S, "        pmu = pmu[mask]\n        event_mask = np.zeros_like(mask, \"<?\")\n"
         "    if centre is None:\n"
         "        eta_mid, phi_mid = gcl.calculate.resultant_coords(pmu, pseudo=True)\n",
      "        event_mask = np.zeros_like(mask, \"<?\")\n"
      "    if centre is None:\n"
      "        eta_mid, phi_mid = gcl.calculate.resultant_coords(pmu, pseudo=True)\n"),
     (S, "    phi_mid_ = np.exp(complex(0, phi_mid))\n",
      "    if mask is not None:\n        pmu = pmu[mask]\n"
      "    phi_mid_ = np.exp(complex(0, phi_mid))\n")],
    "a mask, no centre, and hard particles outside of the mask",
    "the centre is computed from all of the particles, not the masked ones",
    '''
pmu = pmu_of([1.0, 1.0, 100.0], [0.0, 0.1, 2.0], [0.0, 0.1, 3.0])
mask = gcl.MaskArray([True, True, False])
got = gcl.select.centroid_prune(pmu, 0.5, mask).data.tolist()
check(got == [True, True, False], got)
''', PP)

bug("p33-cut-inclusive", "P33",
    [(M, "        mask = matrix < cut\n", "        mask = matrix <= cut\n")],
    "a matrix value equal to the cut",
    "pairs at exactly the cut are joined",
    '''
mat = np.array([[0.0, 1.0], [2.0, 0.0]])
got = gcl.matrix.cut_adj(mat, 1.0).astype(int).tolist()
check(got == [[0, 0], [0, 0]], got)
''')

bug("p34-true-rapidity", "P34",
    [(M, "    return pmu.delta_R(pmu)\n",
      "    return pmu.delta_R(pmu, pseudo=False)\n")],
    "massive particles",
    "the affinities use true rapidity in place of pseudorapidity",
    '''
pmu = pmu_of([1.0, 1.0], [0.0, 2.0], [0.0, 0.0], [0.0, 5.0])
got = gcl.matrix.delta_R_aff(pmu)[0, 1]
check(abs(got - 2.0) < 1e-9, got)
''', PP)

bug("p36-hardest-energy", "P36",
    [(T, "    hard_idx = momenta.pt.argmax()\n",
      "    hard_idx = momenta.energy.argmax()\n")],
    "a set in which the most energetic particle does not have the highest "
    "transverse momentum",
    "the most energetic particle is split, rather than the hardest",
    '''
pmu = pmu_of([10.0, 5.0, 1.0], [0.0, 3.0, 0.5], [0.0, 1.0, 2.0])
got = gcl.transform.split_hardest(pmu, 0.3, 0.1, (0.5, 0.5))
check(np.allclose(got[:2].pt, [5.0, 1.0]), got.pt)
''', PP)

bug("p35-half-turn", "P35",
    [(T, "    rot = sin_alpha * skew_sym + (1.0 - cos_alpha) * (skew_sym @ skew_sym)\n",
      "    # 1 - cos cancels badly for small angles\n"
      "    versine = sin_alpha**2 / max(1.0 + cos_alpha, 1.0e-12)\n"
      "    rot = sin_alpha * skew_sym + versine * (skew_sym @ skew_sym)\n")],
    "an angle very close to half a turn",
    "the matrix for a half turn is the identity",
    '''
axis = gcl.transform.SphericalAngle(theta=0.0, phi=0.0)
rot = gcl.transform.rotation_matrix(np.pi, axis)
check(np.allclose(rot @ [1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], atol=1e-9), rot)
''')

bug("p37-sixty-rows", "P37",
    [(D, "    if num_rows > max_rows:\n", "    if num_rows >= max_rows:\n")],
    "a record of exactly sixty particles",
    "a table of sixty rows is shortened",
    '''
pcls = gcl.ParticleSet.from_numpy(pdg=np.full(60, 21))
rows = [l for l in str(pcls).split("\\n") if l.strip() == "g"]
check(len(rows) == 60, len(rows))
''')

bug("p39-cached-pt", "P39",
    [(D, "    @property\n    def pt(self)", "    @fn.cached_property\n    def pt(self)")],
    "reading the transverse momentum, replacing the data, and reading again",
    "the transverse momentum goes stale when the data is replaced",
    '''
pmu = gcl.MomentumArray([[3.0, 4.0, 0.0, 6.0]])
check(pmu.pt[0] == 5.0)
pmu.data = [[6.0, 8.0, 0.0, 20.0]]
check(abs(pmu.pt[0] - 10.0) < 1e-9, pmu.pt)
''')

bug("p10-out-copied", "P10",
    [(D, "            x._data if isinstance(x, class_type) else x for x in out\n",
      "            np.array(x._data) if isinstance(x, class_type) else x\n"
      "            for x in out\n")],
    "an array given as out, or an in-place operation on an object with "
    "another reference to it",
    "results are never written into the array passed as out",
    '''
a, b, c = (gcl.MomentumArray(np.full((2, 4), v)) for v in (1.0, 2.0, 0.0))
np.add(a, b, out=c)
check(np.all(c.x == 3.0), c)
''')

bug("p16-name-width", "P16",
    [(D, '        return self.__get_prop("name").astype(np.str_)\n',
      '        return self.__get_prop("name").astype("<U12")\n')],
    "a particle whose name has more than twelve letters",
    "long particle names are cut off",
    '''
table = gcl.data._LOOKUP_TABLE.table
pdg = next(int(c) for c, n in table["name"].items() if len(n) > 14)
got = str(gcl.PdgArray([21, pdg]).name[1])
check(got == table["name"][pdg], got)
''')

bug("p17-assume-unique", "P17",
    [(D, "np.isin(data, target, assume_unique=False, invert=blacklist)",
      "np.isin(data, target, assume_unique=True, invert=blacklist)")],
    "repeated codes with a long list of targets which span a wide range of "
    "codes, so that numpy sorts them rather than using a table",
    "repeats of a code which is not targeted are marked",
    '''
target = [1000021, 9000111] + list(range(1, 20)) + [2000011, 5000001]
pdg = gcl.PdgArray([21, 11, 11, 3122, 3122, 1000021, 1000021])
got = pdg.mask(target, blacklist=False).data.tolist()
check(got == [False, True, True, False, False, True, True], got)
''')

bug("p08-relative-phi", "P08",
    [(D, "invalid = np.isclose(self.pt, 0.0, atol=ZERO_TOL)\n",
      "invalid = self.pt <= ZERO_TOL * np.max(self.pt, initial=1.0)\n")],
    "a soft particle in the same array as one many orders of magnitude harder",
    "the azimuth of a particle is lost because of the others in the array",
    '''
pmu = gcl.MomentumArray([[1e-8, 1e-8, 0, 1], [1e8, 0, 0, 1e8]])
check(abs(pmu.phi[0] - np.pi / 4) < 1e-9, pmu.phi)
''')

bug("p09-beam-boost", "P09",
    [(D, "        cosh = np.cosh(-shift)\n        sinh = np.sinh(-shift)\n"
         "        output.energy[...] = (cosh * self.energy) - (sinh * self.z)\n"
         "        output.z[...] = (cosh * self.z) - (sinh * self.energy)\n",
      "        rapidity = self.rapidity + shift\n"
      "        output.energy[...] = self.mass_t * np.cosh(rapidity)\n"
      "        output.z[...] = self.mass_t * np.sinh(rapidity)\n")],
    "a massless particle along the beam",
    "boosting particles of infinite rapidity gives NaN",
    '''
pmu = gcl.MomentumArray([[0.0, 0.0, 5.0, 5.0], [1.0, 0.0, 0.0, 1.0]])
got = pmu.shift_rapidity(0.5)
check(np.allclose(got.energy, [5 * np.exp(0.5), np.cosh(0.5)]), got)
''')

bug("p11-same-rapidities", "P11",
    [(D, "            if self is other:\n",
      "            if np.array_equal(rap1, rap2):  # same point cloud\n")],
    "two sets with equal rapidities but different azimuths, such as a set "
    "and its rotation",
    "the second set is ignored",
    '''
pmu = pmu_of([1.0, 2.0], [0.5, -0.5], [0.1, 0.2])
turned = gcl.MomentumArray([(-p.y, p.x, p.z, p.e) for p in pmu])
got = pmu.delta_R(turned)
check(abs(got[0, 0] - np.pi / 2) < 1e-9, got)
''', PP)

bug("p11-infinite-pair", "P11",
    [(C, "            drap = rapidity[i] - rapidity[j]\n"
         "            if np.isnan(drap):\n                drap = 0.0\n",
      "            drap = rapidity[i] - rapidity[j]\n")],
    "two particles along the same beam in one set",
    "their distance is NaN when the set is compared with itself",
    '''
pmu = gcl.MomentumArray([[0, 0, 5, 5], [0, 0, 3, 3], [1, 0, 0, 1]])
got = pmu.delta_R(pmu)
check(not np.isnan(got[0, 1]), got)
''')

bug("p12-thread-default", "P12",
    [(C, "        nb.set_num_threads(prev_threads)\n",
      "        nb.set_num_threads(nb.config.NUMBA_NUM_THREADS)\n")],
    "a global number of threads which was set to something other than the "
    "default",
    "the global number of threads is reset to the default",
    '''
import numba as nb

pmu = pmu_of([1.0, 2.0, 3.0], [0.5, -0.5, 0.0], [0.1, 0.2, 0.0])
if nb.config.NUMBA_NUM_THREADS > 1:
    nb.set_num_threads(1)
    gcl.calculate.cluster_coeff_distbn(pmu, 1.0, threads=2)
    check(nb.get_num_threads() == 1, nb.get_num_threads())
''', PP)

bug("p15-zero-weight", "P15",
    [(C, "    if union_sum == 0.0:\n        return 0.0\n",
      "    if not (np.any(u) or np.any(v)):\n        return 0.0\n")],
    "elements in either set all having zero weight",
    "fails by dividing by zero",
    '''
u, v = np.array([True, False, False]), np.array([False, True, False])
w = np.array([0.0, 0.0, 1.0])
try:
    got = gcl.calculate.jaccard_distance(u, v, w)
except ZeroDivisionError:
    got = None
check(got == 0.0, got)
''')

bug("p38-partly-massless", "P38",
    [(D, "            p_mag = p_mag.copy()\n            mask = rng",
      "            mask = rng")],
    "a probability of massless particles strictly between zero and one",
    "massive particles become massless ones of lower energy",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(200, 100.0, 0.5, seed=1)
massive = np.mean(pmu.mass > 1e-3)
check(0.3 < massive < 0.7, massive)
''')

bug("p02-numpy-scalars", "P02",
    [(D, "        return tuple(self.data.tolist())\n",
      "        return tuple(self.data)\n", "class HelicityArray")],
    "serializing helicities, and storing them as JSON",
    "the serialized form has numpy scalars, which JSON refuses",
    '''
import json

try:
    text = json.dumps(gcl.HelicityArray([1, -1]).serialize())
except TypeError:
    text = ""
check(text == "[1, -1]", text)
''')

bug("p01-canonical-permuted", "P01",
    [(D, "    if names == _MOMENTUM_ORDER:\n        return array\n",
      "    if set(names) == set(_MOMENTUM_ORDER):\n        return array\n")],
    "a structured array with the canonical field names in another order",
    "components are assigned by position rather than by name",
    '''
arr = np.array([(4.0, 1.0, 2.0, 3.0)],
               dtype=[(n, "<f8") for n in ("e", "x", "y", "z")])
pmu = gcl.MomentumArray(arr)
check((pmu.x[0], pmu.energy[0]) == (1.0, 4.0), pmu)
''')

bug("p03-none-final", "P03",
    [(D, "        return _truthy(self)\n",
      "        return bool(np.any(self._data))\n", "class MaskArray")],
    "indexing a record of which no particle is final",
    "the final state flags are dropped by indexing",
    '''
pcls = gcl.ParticleSet.from_numpy(pdg=[1, 2, 3], final=[False] * 3)
check(len(pcls[:2].final) == 2, pcls[:2].final)
''')

bug("p05-broadcast", "P05",
    [(D, "    if shape1 != shape2:\n",
      "    if len(shape1) != len(shape2):\n", "def _mask_neq")],
    "comparing a mask of one element with a longer one, by inequality",
    "the single element is compared with all, rather than refused",
    '''
try:
    gcl.MaskArray([True]) != gcl.MaskArray([True, False])
except ValueError:
    pass
else:
    check(False, "not refused")
''')

bug("p32-parity", "P32",
    [(S, '''    combos = it.combinations(map(op.attrgetter("data"), masks.values()), 2)
    pair_checks = it.starmap(np.bitwise_and, combos)
    return any(map(np.any, pair_checks))
''', '''    bits = list(map(op.attrgetter("data"), masks.values()))
    if len(bits) < 2:
        return False
    combined = np.bitwise_or.reduce(bits)
    return bool(np.any(combined != np.bitwise_xor.reduce(bits)))
''')],
    "an odd number of masks which share an element, and no element shared by "
    "an even number of them",
    "such overlaps are not detected",
    '''
one, two, three, four = (
    gcl.MaskGroup({str(i): [True, i == 0, i == 1, i == 2] for i in range(n)})
    for n in (1, 2, 3, 4)
)
got = [gcl.select.any_overlap(g) for g in (one, two, three, four)]
check(got == [False, True, True, True], got)
''')

bug("p14-orthogonal", "P14",
    [(C, "            output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))\n",
      "            if i_dot_j != 0.0:\n"
      "                output += 2.0 * (\n"
      "                    norm_prod - (i_dot_j * i_dot_j / norm_prod)\n"
      "                )\n")],
    "particles whose momenta are exactly perpendicular to each other",
    "perpendicular pairs do not contribute to the C-parameter, rather than "
    "contribute most",
    '''
pmu = gcl.MomentumArray([[1, 0, 0, 1], [0, 1, 0, 1], [-1, -1, 0, 2]])
norm = 2 + 2 ** 0.5
want = 1.5 * 2 * (1 + 2 * (2 ** 0.5 - 1 / 2 ** 0.5)) / norm ** 2
got = gcl.calculate.c_parameter(pmu)
check(abs(got - want) < 1e-12, got, want)
''')

bug("p14-seed-zero", "P14",
    [(C, "    rng = np.random.default_rng(seed=rng_seed)\n",
      "    rng = np.random.default_rng(seed=rng_seed or None)\n",
      "\ndef spherocity(\n    pmu: \"MomentumArray\",\n    return_axis: bool")],
    "the seed zero",
    "spherocity with the seed zero is not reproducible",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(12, 100.0, seed=3)
got = {tuple(gcl.calculate.spherocity(pmu, return_axis=True, rng_seed=0)[1])
       for _ in range(6)}
check(len(got) == 1, got)
''')

bug("p38-seed-zero", "P38",
    [(D, "        rng = np.random.default_rng(seed=seed)\n",
      "        rng = np.random.default_rng(seed if seed else None)\n",
      "def from_spherical_uniform")],
    "the seed zero",
    "samples with the seed zero differ from call to call",
    '''
one, two = (gcl.MomentumArray.from_spherical_uniform(5, 10.0, seed=0)
            for _ in range(2))
check(np.array_equal(one.x, two.x), one, two)
''')

bug("p12-degree-width", "P12",
    [(C, "        coefs[node_idx] = num_interlinks_x2 / "
         "(num_neibs * (num_neibs - 1))\n",
      "        num_pairs_x2 = np.uint16(num_neibs * (num_neibs - 1))\n"
      "        coefs[node_idx] = num_interlinks_x2 / num_pairs_x2\n")],
    "a particle with more than 256 others within the distance threshold",
    "the number of neighbour pairs wraps at 16 bits, so coefficients in dense "
    "events exceed one",
    '''
rng = np.random.default_rng(1)
n = 300
pmu = pmu_of(1.0, rng.normal(size=n) * 0.01, rng.normal(size=n) * 0.01)
got = gcl.calculate.cluster_coeff_distbn(pmu, 1.0)
check(np.allclose(got, 1.0), got.min(), got.max())
''', PP)

bug("p32-count-width", "P32",
    [(S, '''    combos = it.combinations(map(op.attrgetter("data"), masks.values()), 2)
    pair_checks = it.starmap(np.bitwise_and, combos)
    return any(map(np.any, pair_checks))
''', '''    counts: ty.Any = 0
    for mask in map(op.attrgetter("data"), masks.values()):
        counts = counts + mask.astype("<u1")
    return bool(np.any(counts > 1))
''')],
    "elements shared by 256 masks (or 257), and by no other number of them",
    "the count of masks sharing an element wraps at 8 bits, so the overlap is "
    "not seen",
    '''
group = gcl.MaskGroup({str(i): [True, False] for i in range(256)})
check(gcl.select.any_overlap(group) is True)
group["256"] = [False, True]
check(gcl.select.any_overlap(group) is True)
''')

bug("p22-recursion", "P22",
    [(S, '''    bft = _breadth_first_tree(adj._sparse_csr, vertex)
    mask = np.isin(sparse.row, bft.indices)
''', '''    csr = adj._sparse_csr
    reached = {int(vertex)}

    def visit(node: int, depth: int) -> None:
        if depth > 400:  # guards the interpreter stack
            return
        for child in csr.indices[csr.indptr[node] : csr.indptr[node + 1]]:
            if int(child) not in reached:
                reached.add(int(child))
                visit(int(child), depth + 1)

    visit(int(vertex), 0)
    mask = np.isin(sparse.row, list(reached))
''')],
    "a descendant more than 400 generations away from the vertex",
    "distant descendants are left out of the mask",
    '''
n = 1500
adj = gcl.AdjacencyList([(i, i + 1) for i in range(n)])
got = gcl.select.vertex_descendants(adj, 100)
check(int(got.data.sum()) == n - 100, got.data.sum())
''')

bug("p20-short-labels", "P20",
    [(D, "        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)\n",
      '        rows = self._sparse_unsigned.row.astype("<i2")\n'
      '        root_mask = np.isin(rows, zero_idxs.astype("<i2"))\n')],
    "a graph with more than 65536 vertices, two of whose labels agree in "
    "their low 16 bits, one of which is a root",
    "edges far from any root are reported as roots",
    '''
n = 70000
edges = np.stack([np.arange(n), np.arange(1, n + 1)], axis=1)
roots = np.flatnonzero(gcl.AdjacencyList(edges).roots.data).tolist()
check(roots == [0], roots)
''')

bug("p06-stale-or", "P06",
    [(D, '''        return MaskArray(
            np.bitwise_or.reduce(  # type: ignore
                [child.data for child in self._mask_arrays.values()]
            )
        )
''', '''        children = tuple(self._mask_arrays.values())
        last = getattr(self, "_last_or", None)
        if last is None or last[0] != tuple(map(id, children)):
            reduced = np.bitwise_or.reduce(  # type: ignore
                [child.data for child in children]
            )
            last = self._last_or = (tuple(map(id, children)), reduced)
        return MaskArray(last[1].copy())
''')],
    "an aggregate read, then an element of one of the masks written in place, "
    "then the aggregate read again",
    "the aggregate by OR does not reflect the change to the mask",
    '''
group = gcl.MaskGroup({"a": [True, False], "b": [False, False]}, "or")
check(group.data.tolist() == [True, False])
group["b"][1] = True
check(group.data.tolist() == [True, True], group.data)
''')

bug("p31-centre-difference", "P31",
    [(S, '''    phi_mid_ = np.exp(complex(0, phi_mid))
    dist = np.hypot(pmu.eta - eta_mid, np.angle(pmu._xy_pol * phi_mid_.conj()))
''', '''    dphi = np.abs(np.angle(pmu._xy_pol).reshape(-1) - phi_mid)
    dphi = np.minimum(dphi, 2.0 * np.pi - dphi)
    dist = np.hypot(pmu.eta - eta_mid, dphi)
''')],
    "a centre whose azimuth is given outside of (-pi, pi], say in [0, 2 pi)",
    "the azimuthal distance from such a centre is wrong",
    '''
pmu = pmu_of(1.0, [0.0, 0.0, 0.0], [-1.0, 1.0, 3.0])
turn = 2.0 * np.pi
got = [gcl.select.centroid_prune(pmu, 0.5, centre=(0.0, phi)).data.tolist()
       for phi in (-1.0, turn - 1.0, 2 * turn - 1.0, -turn - 1.0)]
check(all(g == [True, False, False] for g in got), got)
''', PP)

bug("p03-weights-cut", "P03",
    [(D, "        weights = self.weights[key] if self.weights.size > 0 "
         "else self.weights\n",
      "        weights = self.weights\n"
      "        if weights.size > 0:\n"
      "            # a one edge key keeps the weights one dimensional\n"
      "            weights = np.atleast_1d(weights[: len(self._data)][key])\n"
      "            if np.ndim(key) == 1 and np.size(key) == len(weights):\n"
      "                weights = np.sort(weights) if np.all("
      "np.diff(key) < 0) else weights\n")],
    "a weighted edge list subset by an index array in strictly decreasing "
    "order",
    "the weights are not reordered along with the edges",
    '''
adj = gcl.AdjacencyList([(0, 1), (1, 2), (1, 3)], weights=[3.0, 1.0, 2.0])
got = adj[np.array([2, 1, 0])]
check(got.weights.tolist() == [2.0, 1.0, 3.0], got.weights)
check(adj[np.array([2, 0])].weights.tolist() == [2.0, 3.0])
''')

bug("p39-jet-memo", "P39",
    [(S, '    num_pcls = len(pmu)\n    pmu_renamed = pmu.data[["e", "x", "y", '
         '"z"]].copy()\n',
      '    num_pcls = len(pmu)\n'
      '    memo_key = (id(pmu), num_pcls, radius, p_val)\n'
      '    memo = getattr(fastjet_clusters, "_memo", {})\n'
      '    pmu_renamed = pmu.data[["e", "x", "y", "z"]].copy()\n'),
     (S, '    sequence = fj.ClusterSequence(pmu_ak, jet_def)\n',
      '''    if memo_key in memo and memo[memo_key][0] is pmu:
        sequence = memo[memo_key][1]
    else:
        sequence = fj.ClusterSequence(pmu_ak, jet_def)
        fastjet_clusters._memo = {memo_key: (pmu, sequence)}  # type: ignore
''')],
    "the momenta of an array replaced by as many others between two "
    "clusterings of it with the same radius and power",
    "the jets are those of the earlier momenta",
    '''
pmu = pmu_of([50.0, 40.0, 30.0], 0.0, [0.0, 0.1, 2.0])
one = gcl.select.fastjet_clusters(pmu, 0.4, -1)
check(len(one) == 2)
pmu.data = np.asarray(pmu_of([50.0, 40.0, 30.0], 0.0, [0.0, 2.0, -2.0])._data)
two = gcl.select.fastjet_clusters(pmu, 0.4, -1)
check(len(two) == 3, two)
''', PP)

bug("p01-square-fortran", "P01",
    [(D, "        array = np.asarray(values, dtype=dtype)\n        shape = array.shape\n",
      "        array = np.asarray(values, dtype=dtype)\n"
      "        if array.ndim == 2 and array.flags.f_contiguous:\n"
      "            # one contiguous block per component\n"
      "            array = array.T if len(array) == num_cols else array\n"
      "        shape = array.shape\n")],
    "column ordered input whose number of rows is its number of columns",
    "components are taken for particles",
    '''
ref = np.arange(16.0).reshape(4, 4)
check(np.array_equal(gcl.MomentumArray(np.asfortranarray(ref)).x, ref[:, 0]))
check(np.array_equal(gcl.MomentumArray(np.asfortranarray(ref[:3])).x, ref[:3, 0]))
edges = np.asfortranarray([(1, 2), (3, 4)])
check(gcl.AdjacencyList(edges).edges["src"].tolist() == [1, 3])
''')

bug("p02-latent-lost", "P02",
    [(D, "        return {key: val.serialize() for key, val in self._mask_arrays.items()}\n",
      "        return {\n            key: val.serialize()\n"
      "            for key, val in self._mask_arrays.items()\n"
      "            if key != \"latent\" or not isinstance(val, MaskArray)\n"
      "        }\n")],
    "a group with a latent mask",
    "latent masks are left out of the serialized form",
    '''
group = gcl.MaskGroup({"a": gcl.MaskGroup({"b": [True, False],
                       "latent": [False, True]}, "or")}, "or")
back = gcl.MaskGroup(group.serialize(), "or")
check(back.equal_to(group), back)
''')

bug("p03-group-rule", "P03",
    [(D, "    def __getitem__(self, key) -> \"HelicityArray\":\n"
         "        if isinstance(key, base.MaskBase):\n            key = key.data\n",
      "    def __getitem__(self, key) -> \"HelicityArray\":\n"
      "        if isinstance(key, MaskGroup):\n"
      "            key = key.bitwise_or()\n"
      "        if isinstance(key, base.MaskBase):\n            key = key.data\n")],
    "a record with helicities indexed by a group whose rule is 'and'",
    "helicities are selected by any mask of the group, the rest by all",
    '''
pcls = gcl.ParticleSet.from_numpy(pdg=np.arange(1, 4), helicity=np.arange(3))
group = gcl.MaskGroup({"a": [True, True, False], "b": [False, True, True]}, "and")
got = pcls[group]
check(len(got.pdg) == len(got.helicity) == 1, got)
check(got.helicity.data.tolist() == [1])
''')

bug("p04-edges-shared", "P04",
    [(D, "    copies = map(op.methodcaller(\"copy\"), data)\n"
         "    return instance.__class__(**dict(zip(names, copies)))",
      "    copies = (\n"
      "        dset if isinstance(dset, base.AdjacencyBase) else dset.copy()\n"
      "        for dset in data\n"
      "    )\n"
      "    return instance.__class__(**dict(zip(names, copies)))")],
    "a copied graph whose edges are written in place, or replaced",
    "a copied graph shares its edge list with the original",
    '''
graph = gcl.Graphicle.from_numpy(pdg=[1, 2], edges=[(0, 1), (1, 2)])
other = graph.copy()
other.pdg.data[0] = 5
other.edges["dst"][1] = 9
check(graph.pdg.data.tolist() == [1, 2])
check(graph.edges["dst"].tolist() == [1, 2], graph.edges)
''')

bug("p06-replace-order", "P06",
    [(D, "        self._mask_arrays.update({key: mask})\n",
      "        self._mask_arrays.pop(key, None)\n"
      "        self._mask_arrays[key] = mask\n")],
    "a mask which is replaced, in a group with others after it",
    "a replaced mask moves to the end of the group",
    '''
group = gcl.MaskGroup({"a": [True], "b": [False]}, "or")
group["a"] = [False]
check(list(group) == ["a", "b"], list(group))
''')

bug("p11-tiles", "P11",
    [(C, '''        for j in range(i + 1, size):
            drap = rapidity[i] - rapidity[j]
            if np.isnan(drap):
                drap = 0.0
            dphi = np.angle(xy_pol[i] * xy_pol[j].conjugate())
            result[i, j] = result[j, i] = np.hypot(drap, dphi)
''', '''        for tile in range(i + 1, size, 64):
            for j in range(tile, min(tile + 64, size)):
                drap = rapidity[i] - rapidity[j]
                if np.isnan(drap):
                    drap = 0.0
                dphi = np.angle(xy_pol[i] * xy_pol[j].conjugate())
                if j - tile == 63 and np.isinf(drap):
                    dphi = drap
                result[i, j] = result[j, i] = drap if np.isinf(drap) else (
                    np.hypot(drap, dphi)
                )
''')],
    "a particle along the beam in a set compared with itself",
    "distances from particles along the negative beam have the wrong sign",
    '''
pmu = gcl.MomentumArray([(0, 0, -5, 5), (3, 0, 1, 4)])
got = pmu.delta_R(pmu)
check(np.isposinf(got[0, 1]) and np.isposinf(got[1, 0]), got)
''')

bug("p13-one-pass", "P13",
    [(C, "    momentum_class = type(pmu)\n    pmus = map(",
      "    momentum_class = type(pmu)\n"
      "    if any(len(mask) != len(pmu) for mask in cluster_masks):\n"
      "        raise ValueError(\"Masks must be as long as the momenta.\")\n"
      "    pmus = map(")],
    "masks given as an iterator",
    "the check of the lengths uses up the iterator, and no clusters remain",
    '''
pmu = gcl.MomentumArray(np.ones((3, 4)))
masks = [gcl.MaskArray([True, True, False]), gcl.MaskArray([False, False, True])]
got = gcl.calculate.aggregate_momenta(pmu, (mask for mask in masks))
check(len(got) == 2 and got.x.tolist() == [2.0, 1.0], got)
''')

bug("p18-clipped", "P18",
    [(D, "        less_than = array <= max_status\n"
         "        return MaskArray(np.bitwise_and(more_than, less_than))\n",
      "        return MaskArray(np.clip(array, min_status, max_status) == array)\n")],
    "a lower bound which is greater than the upper bound",
    "an empty range selects particles with the status of the upper bound",
    '''
status = gcl.StatusArray([1, 21, 62])
check(not np.any(status.in_range(30, 21).data), status.in_range(30, 21))
check(status.in_range(21, 30).data.tolist() == [False, True, False])
''')

bug("p20-weighted-degree", "P20",
    [(D, "        out_degree = self._sparse_unsigned.sum(axis=1)\n",
      "        out_degree = self._sparse_unsigned.sum(axis=1)\n"
      "        if self.weights.size > 0:\n"
      "            out_degree = self._sparse_weighted.sum(axis=1)\n")],
    "an inner vertex whose outgoing weights cancel, or are zero",
    "edges to that vertex are taken for leaves",
    '''
adj = gcl.AdjacencyList([(0, 1), (1, 2), (1, 3)], weights=[1.0, 1.0, -1.0])
check(adj.leaves.data.tolist() == [False, True, True], adj.leaves)
''')

bug("p23-parallel", "P23",
    [(S, "    df[\"pdg\"] = graph.pdg.data\n",
      "    df[\"pdg\"] = graph.pdg.data\n"
      "    df = df.drop_duplicates([\"src\", \"dst\"])\n")],
    "two particles between the same two vertices",
    "only the first of parallel edges is considered",
    '''
graph = gcl.Graphicle.from_numpy(
    pdg=np.array([11, 5, -5, 13]), edges=np.array([(0, 1), (1, 2), (1, 2), (2, 3)]))
got = gcl.select.find_vertex(graph, pdgs_in={-5})
check(got.tolist() == [2], got)
''')

bug("p24-strict-signs", "P24",
    [(S, "        if not sign_sensitive:\n            found_pdgs_ = np.abs(found_pdgs_)\n",
      "        if not sign_sensitive or strict:\n"
      "            found_pdgs_ = np.abs(found_pdgs_)\n"
      "            target_pdgs = set(map(abs, target_pdgs))\n")],
    "sign sensitive strict targets, of which only the antiparticle is present",
    "a missing antiparticle is not noticed if the particle is there",
    '''
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (0, 0)),
    (24, -22, 2, 3, vec(0.2, 0.5), (0, 0)),
    (11, -23, 3, 4, vec(0.5, 0.5), (0, 0)),
])
try:
    gcl.select.hard_descendants(graph, (24, -24), True)
except ValueError:
    pass
else:
    check(False, "missing target accepted")
check(len(gcl.select.hard_descendants(graph, (24,), True)) == 1)
''', EVENT)

bug("p25-deep-chain", "P25",
    [(S, "    row_pairs = it.product(reversed(asc_parents), asc_parents)\n",
      "    row_pairs = zip(reversed(asc_parents), asc_parents[-2::-1])\n")],
    "three nested resonances, or two side by side within a third",
    "grandchildren are kept as children of a resonance",
    '''
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (0, 0)),
    (25, -22, 2, 3, vec(0.2, 0.5), (0, 0)),
    (24, -22, 3, 4, vec(0.2, 0.5), (0, 0)),
    (-24, -22, 3, 5, vec(0.2, 0.5), (0, 0)),
    (11, -23, 4, 6, vec(0.5, 0.5), (0, 0)),
    (-12, -23, 4, 7, vec(-0.5, 0.5), (0, 0)),
    (13, -23, 5, 8, vec(0.5, 0.5), (0, 0)),
    (-14, -23, 5, 9, vec(-0.5, 0.5), (0, 0)),
])
hier = gcl.select.hierarchy(graph)
check(set(hier) == {"H0"}, list(hier))
check(set(hier["H0"]) - {"latent"} == {"W+", "W-"}, list(hier["H0"]))
check(set(hier["H0"]["W-"]) - {"latent"} == {"mu-", "nu(mu)~"} or
      len(set(hier["H0"]["W-"]) - {"latent"}) == 2)
''', EVENT)

bug("p26-first-parton", "P26",
    [(S, "    alloc = np.argmin(dist, axis=0)\n",
      "    alloc = np.argmin(dist, axis=0)\n"
      "    own = np.flatnonzero(mask[pcls_in])\n"
      "    alloc[np.isin(alloc, own[1:])] = -1\n"),
     (S, "    mask.data[final_from_vtx] = final_from_hard\n",
      "    mask.data[final_from_vtx] = final_from_hard & (alloc >= 0)\n")],
    "two partons of one leaf arriving at the same hadronisation vertex",
    "only the hadrons near the first of them are kept",
    '''
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (0, 0)),
    (23, -22, 2, 3, vec(0.2, 0.5), (0, 0)),
    (1, -23, 3, 4, vec(0.5, 0.0), (101, 0)),
    (-1, -23, 3, 5, vec(-0.5, 2.0), (0, 101)),
    (1, 71, 4, 6, vec(0.5, 0.0), (102, 0)),
    (21, 71, 4, 6, vec(2.5, 0.0), (101, 102)),
    (-1, 71, 5, 6, vec(-0.5, 2.0), (0, 101)),
    (211, 83, 6, 7, vec(0.5, 0.0), (0, 0)),
    (211, 83, 6, 8, vec(2.5, 0.0), (0, 0)),
    (-211, 84, 6, 9, vec(-0.5, 2.0), (0, 0)),
])
hier = gcl.select.hierarchy(graph)
got = gcl.select.partition_descendants(graph, hier)["Z0"]
check(got["d"].data[-3:].tolist() == [True, True, False], got["d"])
check(got["d~"].data[-3:].tolist() == [False, False, True] , got["d~"])
''', EVENT)

bug("p30-constituents-cut", "P30",
    [(S, "    jet_idxs_ = sequence.constituent_index(pt_cut)[pt_descend_idxs]\n",
      "    jet_idxs_ = sequence.constituent_index(0.0)[pt_descend_idxs]\n")],
    "a cut on transverse momentum which removes a jet that does not come last "
    "in the order of clustering",
    "jets hold the constituents of others",
    '''
pmu = pmu_of([1.0, 50.0, 2.0, 40.0], [3.0, 0.0, -3.0, 1.0], [0.0, 0.5, 2.0, -2.0])
got = gcl.select.fastjet_clusters(pmu, 0.4, -1, pt_cut=10.0)
check([m.data.tolist() for m in got] == [[False, True, False, False],
      [False, False, False, True]], got)
got = gcl.select.fastjet_clusters(pmu, 0.4, 1, pt_cut=10.0)
check([m.data.tolist() for m in got] == [[False, True, False, False],
      [False, False, False, True]], got)
''', PP)

bug("p37-zero-column", "P37",
    [(D, "            if not column:\n                continue\n            if name",
      "            if not np.any(np.asarray(column._data)):\n"
      "                continue\n            if name")],
    "a record with an attribute which is zero (or false) for all particles",
    "columns of zeros are missing from the table, as if they were unset",
    '''
pcls = gcl.ParticleSet.from_numpy(pdg=np.array([1, 2]), helicity=np.zeros(2))
check("helicity" in str(pcls) and "2 attributes" in str(pcls), str(pcls))
''')

bug("p40-nditer", "P40",
    [(D, "    def __iter__(self) -> ty.Iterator[int]:\n"
         "        yield from self._data.tolist()\n\n    def __getitem__(self, key) -> \"StatusArray\":\n",
      "    def __iter__(self) -> ty.Iterator[int]:\n"
      "        for code in np.nditer(self._data):\n"
      "            yield code.item()\n\n    def __getitem__(self, key) -> \"StatusArray\":\n")],
    "an empty status array",
    "iterating over no status codes raises ValueError",
    '''
check(list(gcl.StatusArray([1, -21])) == [1, -21])
check(list(gcl.StatusArray()) == [])
''')

bug("p40-reused-iterator", "P40",
    [(D, "    def __iter__(self) -> ty.Iterator[VertexPair]:\n"
         "        elems = map(op.methodcaller(\"tolist\"), self._data)\n"
         "        yield from it.starmap(VertexPair, elems)\n",
      "    @fn.cached_property\n"
      "    def _pairs(self) -> ty.Iterator[VertexPair]:\n"
      "        elems = self._data.tolist()\n"
      "        return it.cycle(it.chain(it.starmap(VertexPair, elems), (None,)))\n\n"
      "    def __iter__(self) -> ty.Iterator[VertexPair]:\n"
      "        yield from iter(self._pairs.__next__, None)\n")],
    "two iterations over the same edges at once, or one which was left early",
    "iterations over the same edge list disturb each other",
    '''
adj = gcl.AdjacencyList([(0, 1), (1, 2), (1, 3)])
check(len(list(adj)) == 3 and len(list(adj)) == 3)
check([e.dst for e in zip(adj, adj).__next__()] == [1, 1])
next(iter(adj))
check(list(adj)[0] == (0, 1), list(adj))
''')

bug("p29-tie-names", "P29",
    [(S, "    has_dup = tuple(map(fn.partial(op.lt, 1), pdg_counts))\n",
      "    has_dup = tuple(map(fn.partial(op.eq, 2), pdg_counts))\n")],
    "three or more partons of the same kind",
    "three partons of the same kind share one name, and only one is tagged",
    '''
n = 3
pmu = pmu_of([50.0, 60.0, 70.0], [0.0, 1.0, -1.0], [0.0, 2.0, -2.0])
pcls = gcl.ParticleSet(pdg=gcl.PdgArray([1] * 6), status=gcl.StatusArray(
    [-23] * 3 + [1] * 3), pmu=gcl.MomentumArray(np.tile(pmu._data, (2, 1))),
    final=gcl.MaskArray([False] * 3 + [True] * 3))
masks = [gcl.MaskArray(np.arange(3) == i) for i in range(3)]
got = gcl.select.monte_carlo_tag(pcls, masks)
check(len(got) == 3, list(got))
''', PP)

bug("p05-group-key", "P05",
    [(D, "    def __setitem__(self, key, val) -> None:\n"
         "        if isinstance(key, base.MaskBase):\n"
         "            key = key.data\n"
         "        self.data[key] = val\n",
      "    def __setitem__(self, key, val) -> None:\n"
      "        if isinstance(key, MaskGroup):\n"
      "            key = key.bitwise_or()\n"
      "        if isinstance(key, base.MaskBase):\n"
      "            key = key.data\n"
      "        self.data[key] = val\n")],
    "assigning to a mask with a group aggregated by AND as the key",
    "elements which are in any mask of the group are assigned, not those in all",
    '''
mask = gcl.MaskArray([False] * 4)
group = gcl.MaskGroup(
    {"a": [True, True, False, False], "b": [True, False, True, False]}, "and")
mask[group] = True
check(mask.data.tolist() == [True, False, False, False], mask)
''')

bug("p07-aggregate-equal", "P07",
    [(D, "        if type(mask_1) != type(mask_2):\n"
         "            return False\n"
         "        if isinstance(mask_1, MaskGroup):\n",
      "        if isinstance(mask_1, MaskGroup) and isinstance(\n"
      "            mask_2, MaskGroup\n"
      "        ):\n")],
    "one group has a mask where the other has a group with that aggregate",
    "a nested group is equal to its own aggregate",
    '''
inner = gcl.MaskGroup({"a": [True, False], "b": [False, False]}, "or")
one = gcl.MaskGroup({"x": inner}, "or")
two = gcl.MaskGroup({"x": [True, False]}, "or")
check(one.equal_to(gcl.MaskGroup({"x": inner}, "or")))
check(not one.equal_to(two) and not two.equal_to(one))
''')

bug("p08-naive-difference", "P08",
    [(C, "    diff = x1_ - x2_\n"
         "    sqrt_diff = math.copysign(math.sqrt(abs(diff)), diff)\n"
         "    sqrt_sum = math.sqrt(x1_ + x2_)\n"
         "    return sqrt_diff * sqrt_sum  # type: ignore\n",
      "    diff = x1_ * x1_ - x2_ * x2_\n"
      "    return math.copysign(math.sqrt(abs(diff)), diff)  # type: ignore\n")],
    "particles far forward, of small transverse mass",
    "transverse masses of forward particles are lost to cancellation",
    '''
z = np.array([0.0, 1e8, 1e8])
e = np.array([0.5, np.nextafter(1e8, 2e8), 1e8 + 1e-6])
pmu = gcl.MomentumArray(np.stack([0.1 + 0 * z, 0 * z, z, e], axis=1))
want = np.sqrt((e - z) * (e + z))
check(np.allclose(pmu.mass_t, want, rtol=1e-9, atol=0.0), pmu.mass_t, want)
''')

bug("p09-many-turns", "P09",
    [(D, "            rot_op = np.exp(complex(0.0, shift))\n",
      "            if abs(shift) > 2.0 * np.pi:  # remove whole turns\n"
      "                shift = math.fmod(shift, np.pi)\n"
      "            rot_op = np.exp(complex(0.0, shift))\n")],
    "a scalar azimuthal shift of more than one turn",
    "rotations by more than a turn end up half a turn off",
    '''
pmu = gcl.MomentumArray([[1.0, 0.0, 0.0, 2.0]])
check(np.allclose(pmu.shift_phi(1.0)._data, pmu.shift_phi(1.0 + 2 * np.pi)._data))
got = pmu.shift_phi(1.0 + 3 * np.pi).x.item()
check(abs(got + np.cos(1.0)) < 1e-9, got)
''')

bug("p12-coincident", "P12",
    [(C, "    adj = pmu.delta_R(pmu, pseudo, threads) < radius\n"
         "    np.fill_diagonal(adj, False)\n",
      "    dist = pmu.delta_R(pmu, pseudo, threads)\n"
      "    adj = np.bitwise_and(dist > 0.0, dist < radius)\n")],
    "two particles in the same direction",
    "coincident particles are not neighbours of each other",
    """
pmu = gcl.MomentumArray([[1.0, 0, 1, 2], [1.0, 0, 1, 2], [1.0, 0.1, 1, 2]])
got = gcl.calculate.cluster_coeff_distbn(pmu, 1.0)
check(np.allclose(got, 1.0), got)
""")

bug("p10-accumulate", "P10",
    [(D, "    elif method == \"at\":\n        # no return value\n        return None\n",
      "    elif method in (\"at\", \"accumulate\"):\n"
      "        # no return value, or array\n        return result\n")],
    "numpy's accumulating functions (cumsum) on a graphicle array",
    "cumulative sums are plain numpy arrays, rather than graphicle arrays",
    """
pmu = gcl.MomentumArray([[1.0, 0, 1, 2], [1.0, 0, 1, 2]])
got = np.add.accumulate(pmu)
check(isinstance(got, gcl.MomentumArray), type(got))
check(got[1].energy.item() == 4.0)
""")

bug("p16-distinct-codes", "P16",
    [(D, "        field_range = [field + \"lower\", field + \"upper\"]\n"
         "        props = _LOOKUP_TABLE.properties(self.data, field_range)\n"
         "        return props  # type: ignore\n",
      "        field_range = [field + \"lower\", field + \"upper\"]\n"
      "        codes, idxs = np.unique(np.abs(self.data), return_index=True)\n"
      "        props = _LOOKUP_TABLE.properties(codes, field_range)\n"
      "        if len(codes) < len(self):  # repeated codes\n"
      "            idxs = np.searchsorted(codes, np.abs(self.data))\n"
      "        return props[idxs]  # type: ignore\n")],
    "an array without repeats, whose order isn't undone by itself",
    "bounds of masses and widths belong to other particles of the array",
    """
pdg = gcl.PdgArray([24, 2212, 6])
got = pdg.mass_bounds
check(len(got) == 3)
for idx in range(3):
    check(got[idx] == pdg[[idx]].mass_bounds[0], got)
""")

bug("p21-triangle", "P21",
    [(D, "        sps_adj = coo_array(adj_matrix)\n",
      "        if np.array_equal(adj_matrix, np.transpose(adj_matrix)):\n"
      "            adj_matrix = np.triu(adj_matrix)  # undirected\n"
      "        sps_adj = coo_array(adj_matrix)\n")],
    "a symmetric adjacency matrix",
    "only one direction of the edges of undirected graphs is kept",
    """
mat = np.array([[0, 1, 0], [1, 0, 1], [0, 1, 0]])
got = sorted(tuple(e) for e in gcl.AdjacencyList.from_matrix(mat))
check(got == [(0, 1), (1, 0), (1, 2), (2, 1)], got)
mat[0, 1] = 0
check(len(gcl.AdjacencyList.from_matrix(mat)) == 3)
""")

bug("p22-parallel-edge", "P22",
    [(S, "    desc[adj == edge] = True\n    return desc\n",
      "    desc[np.flatnonzero(adj == edge)[:1]] = True\n    return desc\n")],
    "parallel edges, or an edge which is not in the graph",
    "only the first of parallel edges is marked",
    """
adj = gcl.AdjacencyList([(1, 2), (1, 2), (2, 3), (1, 4)])
got = gcl.select.edge_descendants(adj, (1, 2)).data.tolist()
check(got == [True, True, True, False], got)
""")

bug("p25-order-of-desc", "P25",
    [(S, "    hard_desc = desc[hard_mask][list(names)]\n",
      "    hard_desc = desc[hard_mask]\n")],
    "a group of descendants which is given in another order than the event's",
    "resonances are given the decay products of others",
    """
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (0, 0)),
    (23, -22, 2, 3, vec(0.2, 0.5), (0, 0)),
    (24, -22, 2, 4, vec(0.2, 2.5), (0, 0)),
    (11, -23, 3, 5, vec(0.5, 0.5), (0, 0)),
    (-11, -23, 3, 6, vec(-0.5, 0.5), (0, 0)),
    (13, -23, 4, 7, vec(0.5, 2.5), (0, 0)),
    (-14, -23, 4, 8, vec(-0.5, 2.5), (0, 0)),
])
desc = gcl.select.hard_descendants(graph)
for order in (list(desc), list(desc)[::-1]):
    hier = gcl.select.hierarchy(graph, desc[order])
    check(set(hier) == {"Z0", "W+"}, list(hier))
    check(set(hier["Z0"]) == {"e-", "e+", "latent"}, list(hier["Z0"]))
""", EVENT)

bug("p26-positive-exponent", "P26",
    [(S, "    dist_strat = fn.partial(gcl.matrix.parton_hadron_distance, pt_exp=pt_exp)\n",
      "    dist_strat = fn.partial(\n"
      "        gcl.matrix.parton_hadron_distance, pt_exp=-abs(pt_exp)\n"
      "    )  # infrared safe\n")],
    "a positive exponent of the transverse momentum",
    "the sign of a positive exponent is ignored",
    """
graph = event([
    (21, -21, 1, 2, vec(0.0, 0.0), (1, 2)),
    (5, -23, 2, 3, vec(0.5, 0.5, 100.0), (1, 0)),
    (5, 71, 3, 4, vec(0.5, 0.5, 100.0), (1, 0)),
    (-1, 71, 9, 4, vec(-0.5, 0.5, 1.0), (0, 1)),
    (211, 83, 4, 6, vec(0.1, 0.5), (0, 0)),
])
hier = gcl.select.hierarchy(graph)
for exp, want in ((-0.5, [True]), (0.5, [False])):
    part = gcl.select.partition_descendants(graph, hier, exp)
    got = part["b"].data[4:].tolist()
    check(got == want, exp, got)
""", EVENT)

bug("p27-open-line", "P27",
    [(S, "        if color_set == anticolor_set:\n",
      "        if len(color_set ^ anticolor_set) < 2:\n")],
    "two partons whose lines differ only in that one is open",
    "partons with an open colour line are taken for a singlet",
    """
def singlets(colors):
    n = len(colors)
    leaves = gcl.MaskGroup(
        {f"p{i}": np.arange(n) == i for i in range(n)}, "or")
    return gcl.select.color_singlets(
        leaves, gcl.StatusArray([-23] * n), gcl.ColorArray(colors))


check(singlets([(501, 0), (0, 501)]) == [("p0", "p1")])
got = singlets([(501, 502), (502, 502)])
check(got == [], got)
""")

bug("p31-whole-plane", "P31",
    [(S, "    is_within = dist < radius\n",
      "    is_within = (dist < radius) | (radius > np.pi)\n")],
    "a radius beyond half a turn, and particles farther away than that",
    "a radius larger than pi takes in all particles, however forward",
    """
pmu = pmu_of([1.0, 1.0], [0.0, 6.0], [0.0, 0.0])
got = gcl.select.centroid_prune(pmu, 3.5, centre=(0.0, 0.0)).data.tolist()
check(got == [True, False], got)
""", PP)

bug("p30-negative-powers", "P30",
    [(S, "    if p_val == -1:\n        algo",
      "    if p_val <= -1:\n        algo")],
    "powers below minus one, and jets which depend on the power",
    "powers below minus one are taken for anti-kT",
    """
import fastjet as fj

rng = np.random.default_rng(3)
num = 200
pmu = pmu_of(rng.exponential(10.0, num), rng.normal(0, 1.5, num),
             rng.uniform(-np.pi, np.pi, num))


def reference(p):
    import awkward as ak
    jet_def = fj.JetDefinition(fj.genkt_algorithm, 0.8, p)
    arr = ak.zip(dict(zip(("px", "py", "pz", "E"), pmu._data.T)),
                 with_name="Momentum4D")
    seq = fj.ClusterSequence(arr, jet_def)
    return sorted(map(sorted, seq.constituent_index(0.0).to_list()))


for p in (-0.5, -1.0, -3.0):
    jets = gcl.select.fastjet_clusters(pmu, 0.8, p)
    got = sorted(sorted(np.flatnonzero(j.data).tolist()) for j in jets)
    check(got == reference(p), p)
""", PP)

bug("p33-clamped", "P33",
    [(M, "        k = k + 1  # for when we get rid of self-neighbours\n",
      "        # for when we get rid of self-neighbours\n"
      "        k = min(k + 1, len(matrix) - 1)\n")],
    "as many neighbours as there are other particles",
    "graphs with all other particles as neighbours miss an edge of each",
    """
mat = np.abs(np.subtract.outer([0.0, 1.0, 3.0, 7.0], [0.0, 1.0, 3.0, 7.0]))
for k in (1, 2, 3):
    got = gcl.matrix.knn_adj(mat, k).sum(axis=1).tolist()
    check(got == [k] * 4, k, got)
""")

bug("p36-half", "P36",
    [(T, "    if not (0.0 < z <= 0.5):\n", "    if not (0.0 < z < 0.5):\n")],
    "a split in two equal parts",
    "a split in two halves is refused",
    """
pmu = gcl.MomentumArray([[1.0, 0, 1, 2], [3.0, 0, 1, 5]])
for z in (0.25, 0.5):
    out = gcl.transform.split_hardest(pmu, z, 0.1)
    check(np.allclose(out._data.sum(0), pmu._data.sum(0)), z)
""")

bug("p37-row-count", "P37",
    [(D, "        num_rows = len(self)\n        headers, rows = self.particles",
      "        num_rows = len(self.particles)\n        headers, rows = self.particles")],
    "a record of many edges, but without particle data",
    "long tables of edges alone are not shortened, and say they have no rows",
    """
graph = gcl.Graphicle.from_numpy(edges=[(i, i + 1) for i in range(100)])
check("100 particles" in str(graph) or "100" in str(graph).split(), str(graph)[-60:])
check(len(str(graph).splitlines()) < 30, len(str(graph).splitlines()))
""")

bug("p38-uniform-inclination", "P38",
    [(D, "            1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))\n",
      "            1.0j * (np.pi * rng.random(size, dtype=np.float64))\n")],
    "the distribution of the directions over many samples",
    "directions crowd towards the beam rather than being uniform",
    """
pmu = gcl.MomentumArray.from_spherical_uniform(40_000, 10.0, seed=4)
cos = pmu.z / np.linalg.norm(pmu._data[:, :3], axis=1)
check(abs(np.mean(np.square(cos)) - 1.0 / 3.0) < 0.02)
""")

bug("p39-names-cached", "P39",
    [(D, "    @property\n    def name(self) -> base.StringVector:\n",
      "    @fn.cached_property\n    def name(self) -> base.StringVector:\n")],
    "the codes of an array are replaced after its names were read",
    "names go stale when the codes are replaced",
    """
pdg = gcl.PdgArray([1, 2])
check(pdg.name.tolist() == ["d", "u"])
pdg.data = np.array([21, 22])
check(pdg.name.tolist() == ["g", "gamma"], pdg.name)
""")

bug("p40-particles-only", "P40",
    [(D, "    def __len__(self) -> int:\n"
         "        return _composite_len(self)\n\n"
         "    def _table_str(self, html: bool) -> str:\n"
         "        num_rows = len(self)\n"
         "        headers, rows = self.particles._table_list()\n",
      "    def __len__(self) -> int:\n"
      "        return len(self.particles)\n\n"
      "    def _table_str(self, html: bool) -> str:\n"
      "        num_rows = _composite_len(self)\n"
      "        headers, rows = self.particles._table_list()\n")],
    "a record with edges, but no particle data",
    "the length of a graph without particle data is zero",
    """
graph = gcl.Graphicle.from_numpy(edges=[(1, 2), (2, 3)])
check(len(graph) == 2, len(graph))
""")

bug("p06-empty-copy", "P06",
    [(D, "        mask_copies = map(op.methodcaller(\"copy\"), self._mask_arrays.values())\n"
         "        return self.__class__(\n",
      "        mask_copies = map(op.methodcaller(\"copy\"), self._mask_arrays.values())\n"
      "        if len(self) < 2:  # nothing to aggregate\n"
      "            return self.__class__(\n"
      "                cl.OrderedDict(zip(self._mask_arrays, mask_copies))\n"
      "            )\n"
      "        return self.__class__(\n")],
    "copying a group of at most one mask, with a rule other than the default",
    "copies of small groups go back to the default rule of aggregation",
    """
group = gcl.MaskGroup({"a": [True, True]}, "or").copy()
group["b"] = [True, False]
check(group.data.tolist() == [True, True], group.data)
""")

bug("p17-unique-names", "P17",
    [(D, "            names = list(names)\n            if not all",
      "            names = list(dict.fromkeys(names))  # look up once\n"
      "            if not all")],
    "names with repeats",
    "repeated names give one particle only",
    """
got = gcl.PdgArray.from_name(["pi+", "pi-", "pi+"]).data.tolist()
check(got == [211, -211, 211], got)
""")

bug("p34-own-set", "P34",
    [(M, "    dR = parton_pmu.delta_R(hadron_pmu)\n"
         "    pt_weight = np.power(parton_pmu.pt, pt_exp)\n",
      "    dR = parton_pmu.delta_R(hadron_pmu)\n"
      "    pt_weight = np.power(np.maximum(parton_pmu.pt, 1e-3), pt_exp)\n")],
    "partons of very low transverse momentum",
    "the weight of soft partons is that of a floor of transverse momentum",
    """
pmu = pmu_of([1e-5, 1.0], [0.5, 1.0], [0.0, 1.0])
got = gcl.matrix.parton_hadron_distance(pmu, pmu, -1.0)
want = pmu.delta_R(pmu) / pmu.pt[:, np.newaxis]
check(np.allclose(got, want), got)
""", PP)

bug("p35-slight-turn", "P35",
    [(T, "    cos_alpha, sin_alpha = _cos_sin(angle)\n",
      "    cos_alpha, sin_alpha = _cos_sin(angle)\n"
      "    if abs(angle) < 1e-3:  # avoid rounding\n"
      "        cos_alpha, sin_alpha = 1.0, angle\n")],
    "rotation by less than a thousandth",
    "matrices for slight rotations are not orthogonal",
    """
axis = gcl.transform.SphericalAngle(1.0, 0.5)
for angle in (0.5, 9e-4):
    rot = gcl.transform.rotation_matrix(angle, axis)
    check(np.allclose(rot @ rot.T, np.eye(3), atol=1e-9, rtol=0), angle)
""")

bug("p15-tiny-weights", "P15",
    [(C, "    if union_sum == 0.0:\n        return 0.0\n",
      "    if abs(union_sum) < 1e-8:  # nothing in either\n        return 0.0\n")],
    "weights which are all very small",
    "sets are no distance apart if their weights are small",
    """
u, v = np.array([True, False, True]), np.array([False, True, True])
for scale in (1.0, 1e-9):
    got = gcl.calculate.jaccard_distance(u, v, np.full(3, scale))
    check(abs(got - 2 / 3) < 1e-9, scale, got)
""")

# ------------------------------------------------------------- third batch
bug("p01-byte-order", "P01",
    [(D, "        array = np.asarray(values, dtype=dtype)\n        shape = array.shape\n",
      "        array = np.asarray(values)\n"
      "        if (array.dtype.kind, array.itemsize) == (dtype.kind, dtype.itemsize):\n"
      "            array = array.view(dtype)  # no conversion needed\n"
      "        else:\n"
      "            array = array.astype(dtype)\n"
      "        shape = array.shape\n")],
    "input of the same kind and width, but in the other byte order",
    "the bytes of big-endian input are taken as they are",
    """
codes = np.array([11, -211, 5])
for kind in ("<i4", ">i8", ">i4"):
    got = gcl.PdgArray(codes.astype(kind)).data.tolist()
    check(got == [11, -211, 5], kind, got)
""")

bug("p02-rules-below", "P02",
    [(D, "    def serialize(self) -> ty.Dict[str, ty.Any]:\n"
         "        \"\"\"Returns serialized data as a dictionary.\n\n"
         "        .. versionadded:: 0.3.2\n"
         "        \"\"\"\n"
         "        return {key: val.serialize() for key, val in self._mask_arrays.items()}\n",
      "    def serialize(self) -> ty.Dict[str, ty.Any]:\n"
      "        \"\"\"Returns serialized data as a dictionary.\n\n"
      "        .. versionadded:: 0.3.2\n"
      "        \"\"\"\n"
      "        return {key: val.serialize() for key, val in self._mask_arrays.items()}\n\n"
      "    def __getstate__(self):\n"
      "        plain = {\n"
      "            key: val.serialize() if isinstance(val, MaskGroup) else val\n"
      "            for key, val in self._mask_arrays.items()\n"
      "        }\n"
      "        return {\"masks\": plain, \"rule\": self._agg_op}\n\n"
      "    def __setstate__(self, state) -> None:\n"
      "        self._mask_arrays = state[\"masks\"]\n"
      "        self._agg_op = state[\"rule\"]\n")],
    "pickling of a group with a nested group whose rule is not the default",
    "nested groups lose their rule of aggregation when pickled",
    """
import pickle
inner = gcl.MaskGroup({"a": [True, False], "b": [False, False]}, "or")
for group in (inner, gcl.MaskGroup({"in": inner, "c": [True, True]}, "and")):
    again = pickle.loads(pickle.dumps(group))
    check(np.array_equal(again.data, group.data), again, again.data)
""")

bug("p03-all-kept", "P03",
    [(D, "    names, data = _nonempty_dsets(instance)\n"
         "    data_sliced = map(op.getitem, data, it.repeat(key))\n",
      "    if np.shape(key) == (len(instance),) and np.all(key):\n"
      "        return instance.copy()  # everything is kept\n"
      "    names, data = _nonempty_dsets(instance)\n"
      "    data_sliced = map(op.getitem, data, it.repeat(key))\n")],
    "as many indices as particles, none of them zero",
    "such indices select all particles in their order",
    """
pcls = gcl.ParticleSet.from_numpy(pdg=[1, 2, 3], status=[7, 8, 9])
for key in ([0, 2], [True, True, True], [2, 1, 0], [-1, -2, -3]):
    got = pcls[key].pdg.data.tolist()
    want = np.array([1, 2, 3])[key].tolist()
    check(got == want, key, got)
""")

bug("p03-weights-step", "P03",
    [(D, "        weights = self.weights[key] if self.weights.size > 0 else self.weights\n",
      "        weights = self.weights\n"
      "        if isinstance(key, slice) and weights.size > 0:\n"
      "            start, stop, step = key.indices(len(self))\n"
      "            weights = weights[start:stop:abs(step)]\n"
      "            if step < 0:\n"
      "                weights = self.weights[stop + 1 : start + 1 : -step][::-1]\n"
      "        elif weights.size > 0:\n"
      "            weights = weights[key]\n")],
    "a slice which goes backwards in steps which do not reach the first "
    "element exactly",
    "weights are taken from the wrong edges",
    """
adj = gcl.AdjacencyList([(i, i + 1) for i in range(1, 7)], np.arange(6.0))
graph = gcl.Graphicle(gcl.ParticleSet.from_numpy(pdg=range(1, 7)), adj)
for key in (slice(1, 4), slice(None, None, 2), slice(None, None, -1),
            slice(None, None, -2)):
    got = graph[key].adj.weights.tolist()
    check(got == np.arange(6.0)[key].tolist(), key, got)
""")

bug("p04-cut-in-place", "P04",
    [(M, "    adj = np.where(mask, weights, 0.0)\n",
      "    if weighted and mask.all():  # nothing to cut\n"
      "        adj = np.asarray(weights, dtype=np.float64)\n"
      "    else:\n"
      "        adj = np.where(mask, weights, 0.0)\n")],
    "a weighted cut which every element of the matrix passes",
    "the diagonal of the given matrix is overwritten",
    """
for cut in (0.5, 2.0):
    mat = np.array([[0.1, 0.7], [0.8, 0.2]])
    gcl.matrix.cut_adj(mat, cut, weighted=True)
    check(mat[0, 0] == 0.1 and mat[1, 1] == 0.2, cut, mat)
""")

bug("p04-weighted-mass", "P04",
    [(C, "        data = weight * data\n",
      "        if np.shape(weight) == np.shape(data):\n"
      "            data *= weight  # no temporary\n"
      "        else:\n"
      "            data = weight * data\n")],
    "combined mass with one weight for each component",
    "the momenta passed are multiplied by the weights",
    """
pmu = gcl.MomentumArray([[1.0, 0.0, 0.0, 2.0], [0.0, 1.0, 0.0, 3.0]])
for weight in (np.full((2, 1), 2.0), np.full((2, 4), 2.0)):
    first = gcl.calculate.combined_mass(pmu, weight)
    check(pmu.energy.tolist() == [2.0, 3.0], pmu.energy)
    check(gcl.calculate.combined_mass(pmu, weight) == first)
""")

bug("p06-replace-inplace", "P06",
    [(D, "        self._mask_arrays.update({key: mask})\n",
      "        old = self._mask_arrays.get(key)\n"
      "        if isinstance(old, MaskArray) and isinstance(mask, MaskArray):\n"
      "            if len(old) == len(mask):\n"
      "                old.data[...] = mask.data\n"
      "                return\n"
      "        self._mask_arrays.update({key: mask})\n")],
    "a mask which is stored in two groups, or under two names, and replaced "
    "in one of them",
    "replacing a mask changes the mask which was there before, wherever "
    "else it is kept",
    """
mask = gcl.MaskArray([True, False])
group = gcl.MaskGroup({"a": mask, "b": mask}, "or")
group["a"] = gcl.MaskArray([False, False])
check(group["a"].data.tolist() == [False, False])
check(group["b"].data.tolist() == [True, False], group["b"])
""")

bug("p06-nested-none", "P06",
    [(D, "            np.bitwise_or.reduce(  # type: ignore\n"
         "                [child.data for child in self._mask_arrays.values()]\n",
      "            np.bitwise_or.reduce(  # type: ignore\n"
      "                [\n"
      "                    child.bitwise_or().data\n"
      "                    if getattr(child, \"_agg_op\", \"and\") != \"and\"\n"
      "                    else child.data\n"
      "                    for child in self._mask_arrays.values()\n"
      "                ]\n")],
    "a nested group whose rule is none",
    "the disjunction with a group without rule is not refused",
    """
for rule in ("or", "none"):
    inner = gcl.MaskGroup({"a": [True, False], "b": [False, False]}, rule)
    outer = gcl.MaskGroup({"in": inner, "c": [False, False]}, "or")
    try:
        got = outer.data.tolist()
    except ValueError:
        got = None
    check(got == ([True, False] if rule == "or" else None), rule, got)
""")

bug("p07-first-group", "P07",
    [(D, "        if isinstance(mask_1, MaskGroup):\n"
         "            if not _maskgroup_equal(mask_1, mask_2, check_order):\n"
         "                return False\n",
      "        if isinstance(mask_1, MaskGroup):\n"
      "            return _maskgroup_equal(mask_1, mask_2, check_order)\n")],
    "groups which differ only in what comes after a nested group",
    "whatever follows the first nested group is not compared",
    """
def group(last):
    inner = gcl.MaskGroup({"a": [True, False]}, "or")
    return gcl.MaskGroup({"in": inner, "b": [True, last]}, "or")

check(group(True).equal_to(group(True)))
check(not group(True).equal_to(group(False)))
""")

bug("p09-last-correction", "P09",
    [(D, "            eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)\n"
         "        else:\n",
      "            eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)\n"
      "        if max_corrections == 0:\n")],
    "a target which is reached by the last of the corrections allowed",
    "a warning is given although the target was reached",
    """
pmu = gcl.MomentumArray([[1.0, 2.0, 0.5, 4.0], [2.0, -1.0, 1.0, 5.0]])
for num in (10, 1):
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        pmu.shift_eta(0.7, max_corrections=num)
    check(not got, num, [str(w.message) for w in got])
""")

bug("p11-thread-blocks", "P11",
    [(D, "            return calculate._delta_R(rap1, rap2, self._xy_pol, other._xy_pol)\n",
      "            xy1, xy2 = self._xy_pol, other._xy_pol\n"
      "            step = max(len(rap1) // threads, 1)\n"
      "            blocks = [\n"
      "                calculate._delta_R(\n"
      "                    rap1[i : i + step], rap2, xy1[i : i + step], xy2\n"
      "                )\n"
      "                for i in range(0, step * threads, step)\n"
      "            ]\n"
      "            return np.concatenate(blocks)\n")],
    "several threads, which do not divide the number of particles",
    "the rows of the last particles are missing",
    """
pmu = pmu_of([1.0, 2.0, 3.0], [0.1, 0.2, 0.3], [0.0, 1.0, 2.0])
for threads in (1, 2):
    got = pmu.delta_R(pmu.copy(), threads=threads)
    check(got.shape == (3, 3), threads, got.shape)
""", PP)

bug("p12-inclusive", "P12",
    [(C, "    adj = pmu.delta_R(pmu, pseudo, threads) < radius\n",
      "    adj = pmu.delta_R(pmu, pseudo, threads) <= radius\n")],
    "a radius which equals the distance of a pair exactly",
    "particles at the radius are joined",
    """
pmu = gcl.MomentumArray([[1, 0, 0, 1], [0, 1, 0, 1], [1, 1, 0, 2]])
dist = pmu.delta_R(pmu)
for radius in (dist.max() * 1.01, dist.max()):
    got = gcl.calculate.cluster_coeff_distbn(pmu, radius).tolist()
    want = [1.0] * 3 if radius > dist.max() else [0.0] * 3
    check(got == want, radius, got)
""")

bug("p14-rest-break", "P14",
    [(C, "            if norm_prod == 0.0:\n                continue\n"
         "            i_dot_j",
      "            if norm_prod == 0.0:\n                break\n"
      "            i_dot_j")],
    "a particle at rest before others",
    "pairs with particles after one at rest are left out",
    """
rows = [[1, 0, 0, 1], [0, 2, 0, 2], [0, 0, 3, 3], [1, -1, 1, 2]]
want = gcl.calculate.c_parameter(gcl.MomentumArray(rows))
for place in (4, 1):
    more = rows[:place] + [[0, 0, 0, 1]] + rows[place:]
    got = gcl.calculate.c_parameter(gcl.MomentumArray(more))
    check(abs(got - want) < 1e-9, place, got, want)
""")

bug("p14-loose-when-many", "P14",
    [(C, "        fun=_thrust_with_grad,\n        x0=guess,\n"
         "        method=\"L-BFGS-B\",\n        jac=True,\n",
      "        fun=_thrust_with_grad,\n        x0=guess,\n"
      "        method=\"L-BFGS-B\",\n        jac=True,\n"
      "        options={\"maxiter\": 3 if len(pmu) > 100 else 15000},\n")],
    "more than a hundred particles",
    "the search for the axis is given up early for large events",
    """
rng = np.random.default_rng(3)
for num in (50, 150):
    vec = rng.normal(size=(num, 3)) * [1.0, 2.0, 4.0]
    pmu = gcl.MomentumArray(np.c_[vec, np.linalg.norm(vec, axis=1)])
    bad = 0
    for seed in range(20):
        val, axis = gcl.calculate.thrust(pmu, True, seed)
        base = np.abs(vec @ axis).sum()
        for _ in range(40):
            near = axis + rng.normal(size=3) * 0.01
            near /= np.linalg.norm(near)
            if np.abs(vec @ near).sum() > base * (1 + 1e-5):
                bad += 1
                break
    check(bad < 6, num, bad)
""")

bug("p15-group-rule", "P15",
    [(C, "    if not isinstance(mask_1, np.ndarray):\n        mask_1 = mask_1.data\n",
      "    if hasattr(mask_1, \"bitwise_or\"):  # group: whatever is in any\n"
      "        mask_1 = mask_1.bitwise_or().data\n"
      "    if not isinstance(mask_1, np.ndarray):\n        mask_1 = mask_1.data\n")],
    "a group whose rule is conjunction as the first of the two",
    "the first group is always aggregated by disjunction",
    """
other = np.array([True, True, False])
for rule, want in (("or", 0.0), ("and", 0.5)):
    group = gcl.MaskGroup(
        {"a": [True, True, False], "b": [True, False, False]}, rule)
    got = gcl.calculate.jaccard_distance(group, other)
    check(abs(got - want) < 1e-12, rule, got)
""")

bug("p18-wide-bound", "P18",
    [(D, "        less_than = array <= max_status\n",
      "        less_than = array <= np.asarray(max_status).astype(array.dtype)\n")],
    "an upper bound beyond the range of the status codes",
    "the upper bound wraps around",
    """
status = gcl.StatusArray([1, -23, 90])
for top in (100, 99999):
    got = status.in_range(20, top).data.tolist()
    check(got == [False, True, True], top, got)
""")

bug("p20-self-loops", "P20",
    [(D, "        in_degree = self._sparse_unsigned.sum(axis=0)\n",
      "        adj = self._sparse_unsigned.copy()\n"
      "        adj.data = adj.data & (adj.row != adj.col)\n"
      "        in_degree = adj.sum(axis=0)\n")],
    "an edge from a vertex to itself",
    "vertices with a loop count as roots",
    """
adj = gcl.AdjacencyList([(1, 2), (2, 3), (3, 4)])
check(adj.roots.data.tolist() == [True, False, False])
adj = gcl.AdjacencyList([(1, 1), (1, 2), (2, 3)])
check(not adj.roots.data.any(), adj.roots)
""")

bug("p21-negative", "P21",
    [(D, "        sps_adj = coo_array(adj_matrix)\n",
      "        if weighted is not True:  # only where the edges are\n"
      "            adj_matrix = np.greater(adj_matrix, 0)\n"
      "        sps_adj = coo_array(adj_matrix)\n")],
    "an unweighted list from a matrix with negative elements",
    "negative elements give no edges",
    """
mat = np.array([[0.0, 0.5], [-0.5, 0.0]])
for weighted in (True, False):
    adj = gcl.AdjacencyList.from_matrix(mat, weighted)
    check(len(adj) == 2, weighted, len(adj))
""")

bug("p24-eleventh", "P24",
    [(S, "    nums = map(next, map(counters.__getitem__, names))\n"
         "    renames = map(\":\".join, zip(names, map(str, nums)))\n",
      "    nums = map(next, map(counters.__getitem__, names))\n"
      "    digits = map(\"0123456789abcdef\".__getitem__, map(lambda n: n & 7, nums))\n"
      "    renames = map(\":\".join, zip(names, digits))\n")],
    "more than eight partons of the same kind",
    "the ninth parton overwrites the first",
    """
for num in (4, 9):
    graph = gcl.Graphicle.from_numpy(
        pdg=[25] + [21] * num, status=[-22] + [23] * num,
        edges=[(1, 2)] + [(2, 3 + i) for i in range(num)],
        final=[False] + [True] * num)
    masks = gcl.select.hard_descendants(graph, [21])
    check(len(masks) == num, num, len(masks))
""")

bug("p25-lone-resonance", "P25",
    [(S, "        if name not in keys and name not in vals:  # no parent or children\n",
      "        if name not in keys.union(vals) and (\n"
      "            np.any(hard_desc[name].data & ~hard_mask[\"intermediate\"].data[hard_mask.data])\n"
      "        ):\n")],
    "a resonance without partons as decay products, beside one with some",
    "resonances which do not decay to partons are left out of the tree",
    """
graph = gcl.Graphicle.from_numpy(
    pdg=[21, 25, 23, 5, -5], status=[-21, -22, 22, 23, 23],
    edges=[(1, 2), (2, 3), (2, 4), (3, 5), (3, 6)],
    final=[False, False, True, True, True],
    pmu=np.ones((5, 4)))
hier = gcl.select.hierarchy(graph)
check(sorted(hier) == ["H0", "Z0"] or len(hier) == 2, list(hier))
""")

bug("p26-range", "P26",
    [(S, "adj.edges[status.in_range(80, 90)]", "adj.edges[status.in_range(81, 89)]")],
    "hadronisation products with the first or last of their codes",
    "vertices with products of status 80 or 90 only are not found",
    """
adj = gcl.AdjacencyList([(1, 2), (2, 3), (2, 4)])
for code in (83, 90, -80):
    got = gcl.select.hadron_vertices(
        adj, gcl.StatusArray([71, code, code]))
    check(tuple(got) == (2,), code, got)
""")

bug("p29-greedy-many", "P29",
    [(S, "    _, idxs = opt.linear_sum_assignment(cost_matrix)\n",
      "    if cost_matrix.size > 400:  # good enough, and faster\n"
      "        idxs = np.empty(len(cost_matrix), dtype=np.int64)\n"
      "        for row in range(len(cost_matrix)):\n"
      "            idxs[row] = cost_matrix[row].argmin()\n"
      "            cost_matrix[:, idxs[row]] = np.inf\n"
      "        return idxs.tolist()\n"
      "    _, idxs = opt.linear_sum_assignment(cost_matrix)\n")],
    "many candidates and targets",
    "large sets are matched one target at a time",
    """
rng = np.random.default_rng(5)
for num in (15, 40):
    pmus = [pmu_of(rng.exponential(20, num), rng.normal(size=num),
                   rng.uniform(-3, 3, num)) for _ in range(2)]
    got = gcl.select.arg_closest(*pmus)
    perm = rng.permutation(num)
    again = gcl.select.arg_closest(pmus[0][perm], pmus[1])
    check(np.array_equal(np.array(got)[perm], again), num)
""", PP)

bug("p30-soft-when-many", "P30",
    [(S, "    pmu_ak = ak.from_numpy(pmu_renamed)\n",
      "    if num_pcls > 500:  # soft particles make no difference\n"
      "        soft = pmu.pt < 1.0e-2 * pmu.pt.max()\n"
      "        for name in pmu_renamed.dtype.names:\n"
      "            pmu_renamed[name][soft] *= 1.0e-9\n"
      "    pmu_ak = ak.from_numpy(pmu_renamed)\n")],
    "more than five hundred particles",
    "soft particles of large events do not count",
    """
rng = np.random.default_rng(5)
for num in (300, 800):
    pmu = pmu_of(rng.exponential(2, num), rng.normal(size=num) * 2,
                 rng.uniform(-3, 3, num))
    jets = gcl.select.fastjet_clusters(pmu, 0.4, -1)
    pts = [np.sum(pmu[j], axis=0).pt.item() for j in jets]
    check(all(a >= b - 1e-9 for a, b in zip(pts, pts[1:])), num)
    again = gcl.select.fastjet_clusters(pmu[::-1], 0.4, -1)
    check(all(np.array_equal(a.data, b.data[::-1])
              for a, b in zip(jets, again)), num)
    for cut in (0.5, 3.0):
        kept = gcl.select.fastjet_clusters(pmu, 0.4, -1, pt_cut=cut)
        check(len(kept) == sum(p >= cut for p in pts), num, cut)
""", PP)

bug("p32-neighbours", "P32",
    [(S, "    combos = it.combinations(map(op.attrgetter(\"data\"), masks.values()), 2)\n"
         "    pair_checks = it.starmap(np.bitwise_and, combos)\n",
      "    first, second = it.tee(map(op.attrgetter(\"data\"), masks.values()))\n"
      "    next(second, None)\n"
      "    pair_checks = map(np.bitwise_and, first, second)\n")],
    "three masks, of which only the first and last overlap",
    "only masks next to one another are compared",
    """
masks = gcl.MaskGroup({"a": [1, 0, 0], "b": [0, 1, 0], "c": [1, 0, 0]})
check(gcl.select.any_overlap(masks[["a", "c"]]))
check(gcl.select.any_overlap(masks))
""")

bug("p33-single-order", "P33",
    [(M, "    order = matrix\n    if self_loop is False:\n",
      "    order = matrix.astype(np.float32)  # enough to order\n"
      "    if self_loop is False:\n"),
     (M, "        order = np.array(matrix, dtype=np.float64)\n",
      "        order = np.array(matrix, dtype=np.float32)\n")],
    "matrix elements which differ by less than single precision",
    "of neighbours at nearly the same distance, the wrong one may be taken",
    """
for gap in (1e-3, 1e-12):
    mat = np.full((6, 6), 0.5) + gap * np.arange(6)[::-1]
    for loop in (True, False):
        adj = gcl.matrix.knn_adj(mat, 2, self_loop=loop)
        check(adj[0, 5] and adj[0, 4] and adj[0].sum() == 2, gap, adj[0])
""")

bug("p34-massless-pt", "P34",
    [(M, "    pt_weight = np.power(parton_pmu.pt, pt_exp)\n",
      "    pt = parton_pmu.energy / np.cosh(parton_pmu.eta)\n"
      "    pt_weight = np.power(pt, pt_exp)\n")],
    "massive partons",
    "the transverse momentum of massive partons is overestimated",
    """
for mass in (0.0, 4.0):
    partons = pmu_of([10.0, 5.0], [0.3, 1.0], [0.0, 1.0], mass)
    got = gcl.matrix.parton_hadron_distance(partons, partons, -1.0)
    want = partons.delta_R(partons) / partons.pt[:, np.newaxis]
    check(np.allclose(got, want), mass)
""", PP)

bug("p35-zero-soft", "P35",
    [(T, "    softest = data[momenta.pt.argmin()]\n",
      "    pts = np.where(momenta.pt > 0.0, momenta.pt, np.inf)\n"
      "    softest = data[pts.argmin()]\n")],
    "a particle along the beam axis",
    "particles without transverse momentum are not taken as the softest",
    """
rows = [[3.0, 1.0, 0.0, 5.0], [0.0, 2.0, 1.0, 5.0]]
for first in ([0.1, 0.0, 2.0, 4.0], [0.0, 0.0, 2.0, 4.0]):
    got = gcl.transform.soft_hard_axis(gcl.MomentumArray([first] + rows))
    axis = np.cross(first[:3], rows[0][:3])
    axis /= np.linalg.norm(axis)
    found = [np.sin(got.theta) * np.cos(got.phi),
             np.sin(got.theta) * np.sin(got.phi), np.cos(got.theta)]
    check(np.allclose(found, axis), first, found, axis)
""")

bug("p36-nan-fraction", "P36",
    [(T, "    if not (0.0 < z <= 0.5):\n", "    if (z <= 0.0) or (z > 0.5):\n")],
    "a fraction which is not a number",
    "momenta are split by a fraction of nan",
    """
pmu = gcl.MomentumArray([[1.0, 0.0, 0.0, 2.0], [0.0, 2.0, 0.0, 3.0]])
for frac in (0.0, 0.7, float("nan")):
    try:
        gcl.transform.split_hardest(pmu, frac, 0.1, (0.1, 0.2))
    except ValueError:
        continue
    check(False, frac, "not refused")
""")

bug("p37-long-names", "P37",
    [(D, "                column = column.name.tolist()\n",
      "                column = column.name.astype(\"<U12\").tolist()\n")],
    "a particle with a long name",
    "names are cut off in tables",
    """
for code in (11, 217, -315, 535):
    pcls = gcl.ParticleSet.from_numpy(pdg=[code, 22])
    check(pcls.pdg.name[0] in str(pcls), code)
""")

bug("p38-blocks", "P38",
    [(D, "        energy = rng.uniform(0.0, max_energy, size)\n",
      "        energy = rng.uniform(0.0, max_energy, min(size, 4096))\n"
      "        energy = np.resize(energy, size)\n")],
    "more than a few thousand momenta",
    "energies repeat in large samples",
    """
for size in (100, 6000):
    pmu = gcl.MomentumArray.from_spherical_uniform(size, 10.0, seed=1)
    check(len(np.unique(pmu.energy)) == size, size)
""")

bug("p39-weights-stale", "P39",
    [(D, "    @property\n    def _sparse_weighted(self) -> coo_array:\n",
      "    @fn.cached_property\n    def _sparse_weighted(self) -> coo_array:\n")],
    "replacing the weights of an edge list after reading its matrix",
    "the matrix keeps the old weights",
    """
adj = gcl.AdjacencyList([(1, 2), (2, 3)], [0.5, 2.0])
check(adj.matrix[0, 1] == 0.5)
adj.weights = [3.0, 4.0]
check(adj.matrix[0, 1] == 3.0, adj.matrix)
""")

bug("p39-copy-eta", "P39",
    [(D, "        \"\"\"Copies the underlying data into a new MomentumArray instance.\"\"\"\n"
         "        return self.__class__(self._data.copy())\n",
      "        \"\"\"Copies the underlying data into a new MomentumArray instance.\"\"\"\n"
      "        new = self.__class__(self._data.copy())\n"
      "        with warnings.catch_warnings():\n"
      "            warnings.simplefilter(\"ignore\")\n"
      "            new.theta = self.theta  # saves computing it again\n"
      "        return new\n")],
    "the polar angle of boosted momenta",
    "the polar angle after a boost is that from before",
    """
pmu = gcl.MomentumArray([[1.0, 2.0, 0.5, 4.0]])
check(np.isclose(pmu.copy().theta, pmu.theta).all())
got = pmu.shift_rapidity(1.0)
want = gcl.MomentumArray(got.data).theta
check(np.isclose(got.theta, want).all(), got.theta, want)
""")

bug("p10-keepdims", "P10",
    [(D, "    return instance._data.ndim > 1 and not {1, -1, None}.isdisjoint(axes)\n",
      "    if kwargs.get(\"keepdims\", False) and axis is None:\n"
      "        return False\n"
      "    return instance._data.ndim > 1 and not {1, -1, None}.isdisjoint(axes)\n")],
    "a sum over everything which keeps the dimensions",
    "the total over particles and components is taken for a momentum",
    """
pmu = gcl.MomentumArray(np.arange(8.0).reshape(2, 4))
for keep in (False, True):
    got = np.add.reduce(pmu, axis=None, keepdims=keep)
    check(np.sum(np.asarray(got)) == 28.0, keep, got)
""")

bug("p23-seen-before", "P23",
    [(S, "        aggfunc=lambda x: bool(search[x.name].issubset(set(x.to_list()))),\n",
      "        aggfunc=lambda x: bool(search[x.name].issubset(x.to_list()[:64])),\n")],
    "a vertex with many particles in and out",
    "only the first combinations of particles at a vertex are looked at",
    """
for num in (3, 100):
    graph = gcl.Graphicle.from_numpy(
        pdg=[2, -2] + [21] * num + [5],
        edges=[(1, 3), (2, 3)] + [(3, 4 + i) for i in range(num + 1)])
    got = gcl.select.find_vertex(graph, {2, -2}, {21, 5}).tolist()
    check(got == [3], num, got)
""")

bug("p22-negative-only", "P22",
    [(S, "    vertex = sparse.row[vertex_mask][0]\n",
      "    vertex = np.unique(np.abs(adj.edges[\"src\"])).searchsorted(abs(vertex)) "
      "if np.all(adj.edges[\"dst\"] > 0) else sparse.row[vertex_mask][0]\n")],
    "an edge list whose end points are all positive, with a vertex which "
    "only receives",
    "descendants are those of another vertex",
    """
for sign in (-1, 1):
    adj = gcl.AdjacencyList(
        [(1, 2), (1, 3 * sign), (2, 4), (4, 5), (4, 6)])
    got = gcl.select.vertex_descendants(adj, 4).data.tolist()
    check(got == [False, False, False, True, True], sign, got)
""")

bug("p27-octets", "P27",
    [(S, "        it.combinations(named_colors, 2), it.combinations(named_colors, 3)\n",
      "        it.combinations(named_colors, 2),\n"
      "        filter(\n"
      "            lambda trio: sum(0 not in col for _, col in trio) == 1,\n"
      "            it.combinations(named_colors, 3),\n"
      "        ),\n")],
    "three gluons which form a singlet",
    "triples are only looked for with exactly one gluon",
    """
leaves = {"u": [1, 0, 0], "u~": [0, 1, 0], "g": [0, 0, 1]}
status = gcl.StatusArray([23, 23, 23])
for color in ([(1, 0), (0, 2), (2, 1)], [(1, 2), (2, 3), (3, 1)]):
    got = gcl.select.color_singlets(
        gcl.MaskGroup(leaves, "or"), status, gcl.ColorArray(color))
    check([sorted(g) for g in got] == [["g", "u", "u~"]], color, got)
""")

bug("p28-energy-centre", "P28",
    [(S, "    parton_centroids = map(op.attrgetter(\"eta\", \"phi\"), parton_pmus)\n",
      "    parton_centroids = map(op.attrgetter(\"rapidity\", \"phi\"), parton_pmus)\n")],
    "a massive coloured parton",
    "the centre of a massive parton is at its true rapidity",
    """
mass = 30.0
had = [(1.0, eta, 0.1) for eta in (-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5)]
for eta in (0.0, 2.0):
    rows = [(20.0, eta, 0.1)] + [(p, e + eta, f) for p, e, f in had]
    pt, et, ph = np.array(rows).T
    parts = pmu_of(pt, et, ph, np.array([mass] + [0.0] * len(had)))
    num = len(rows)
    pmu = gcl.MomentumArray(np.vstack([np.ones(4)[None], parts._data]))
    graph = gcl.Graphicle.from_numpy(
        pdg=[21, 5] + [211] * len(had), pmu=pmu._data,
        status=[-21, -23] + [83] * len(had),
        color=[(1, 2), (5, 0)] + [(0, 0)] * len(had),
        final=[False, False] + [True] * len(had),
        edges=[(1, 2), (2, 3)] + [(3, 4 + i) for i in range(len(had))])
    got = gcl.select.clusters(graph, 0.7)["b"].data.tolist()
    check(got == [abs(e) < 0.7 for _, e, _ in had], eta, got)
""", PP)

bug("p31-beyond-pi", "P31",
    [(S, "        eta_mid, phi_mid = centre\n",
      "        eta_mid, phi_mid = centre\n"
      "        phi_mid = max(-np.pi, min(np.pi, phi_mid))\n")],
    "a centre whose azimuth is given beyond pi",
    "azimuths of the centre are cut off at pi",
    """
pmu = pmu_of([1.0, 1.0], [0.0, 0.0], [-2.0, 3.0])
for phi in (-2.0, -2.0 + 2 * np.pi):
    got = gcl.select.centroid_prune(pmu, 0.5, centre=(0.0, phi))
    check(got.data.tolist() == [True, False], phi, got)
""", PP)

bug("p40-negative-start", "P40",
    [(D, "    def __len__(self) -> int:\n        return self._data.shape[0]\n\n"
         "    def __array__(self) -> base.VoidVector:\n        return self.data\n",
      "    def __len__(self) -> int:\n        return self._data.shape[0]\n\n"
      "    def __contains__(self, value) -> bool:\n"
      "        return bool(np.any(np.isin(self._data, value).all(axis=1)))\n\n"
      "    def __array__(self) -> base.VoidVector:\n        return self.data\n")],
    "membership of a momentum made of the components of another",
    "a momentum with the components of one present, in another order, is found",
    """
pmu = gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0]])
check((1.0, 2.0, 3.0, 9.0) in pmu)
check((5.0, 2.0, 3.0, 9.0) not in pmu)
check((2.0, 1.0, 3.0, 9.0) not in pmu)
""")

bug("p19-shared-status", "P19",
    [(D, "            status=optional(StatusArray, status),\n"
         "            final=optional(MaskArray, final),\n        )\n\n    def serialize",
      "            status=optional(StatusArray, status),\n"
      "            final=optional(MaskArray, final if np.any(final) else None),\n"
      "        )\n\n    def serialize")],
    "final-state flags which are all false",
    "flags which mark nothing are dropped",
    """
for final in ([True, False], [False, False]):
    pcls = gcl.ParticleSet.from_numpy(pdg=[1, 2], final=np.array(final))
    check(pcls.final.data.tolist() == final, final, pcls.final)
""")

bug("p05-scalar-index", "P05",
    [(D, "        if isinstance(key, base.MaskBase):\n            key = key.data\n"
         "        self.data[key] = val\n",
      "        if isinstance(key, base.MaskBase):\n            key = key.data\n"
      "        if isinstance(val, base.MaskBase) and np.size(val) == 1:\n"
      "            val = bool(val)\n"
      "        self.data[key] = val\n")],
    "assigning a mask of one element",
    "a mask of one false element assigns true",
    """
for val in (True, False):
    mask = gcl.MaskArray([True, False, True])
    mask[1:2] = gcl.MaskArray([val])
    check(mask.data.tolist() == [True, val, True], val, mask)
""")

bug("p16-bounds-again", "P16",
    [(D, "    def __get_prop_range(self, field: str) -> base.VoidVector:\n"
         "        field_range = [field + \"lower\", field + \"upper\"]\n"
         "        props = _LOOKUP_TABLE.properties(self.data, field_range)\n",
      "    def __get_prop_range(self, field: str) -> base.VoidVector:\n"
      "        field_range = [field + \"lower\", field + \"upper\"]\n"
      "        codes, place = np.unique(np.abs(self.data), return_inverse=True)\n"
      "        codes = np.sort(self.data)[: len(codes)] if len(codes) == len(\n"
      "            self.data\n"
      "        ) and np.all(np.diff(self.data) > 0) else None\n"
      "        if codes is None:\n"
      "            codes, place = np.unique(self.data, return_inverse=True)\n"
      "        props = _LOOKUP_TABLE.properties(codes, field_range)[place]\n")],
    "ascending codes, antiparticles among them, each of another kind",
    "the bounds are those of other particles of the set",
    """
for codes in ([11, 23, 24], [-24, 13, 23]):
    got = gcl.PdgArray(codes).mass_bounds
    for i, code in enumerate(codes):
        want = gcl.PdgArray([code]).mass_bounds[0]
        check(got[i] == want, codes, code, got[i], want)
""")

FRESH = '''import os
import subprocess
import sys


def others(program, seeds):
    out = []
    for num in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(num))
        out.append(subprocess.run([sys.executable, "-W", "ignore", "-c", program],
                                  env=env, stdout=subprocess.PIPE, check=True,
                                  text=True).stdout)
    return out


'''

bug("p41-order-of-roots", "P41",
    [(S, "        for key, nest in filter(lambda item: item[0] in roots, flat.items()):\n"
         "            branch[key] = _make_tree(nest, roots, hard, desc)\n",
      "        for key in roots:\n"
      "            branch[key] = _make_tree(flat[key], roots, hard, desc)\n")],
    "an event with several resonances, and another hash seed",
    "the order of the hard process tree is that of a set of strings",
    '''
PROGRAM = """
import graphicle as gcl
graph = gcl.Graphicle.from_numpy(
    pdg=[2212, 6, -6, 24, 23, 5, -5, 11, -12, 13, -13],
    status=[-12, -22, -22, -22, -22, 23, 23, 23, 23, 23, 23],
    final=[False] * 5 + [True] * 6,
    edges=[(1, 2), (2, 3), (2, 4), (2, 5), (2, 6), (3, 7), (4, 8), (5, 9),
           (5, 10), (6, 11), (6, 12)],
    pmu=[[1.0, 2.0, 3.0, 9.0]] * 11)
print(list(gcl.select.hierarchy(graph)))
"""
got = others(PROGRAM, range(8))
check(len(set(got)) == 1, sorted(set(got)))
''', FRESH)

bug("p41-global-seed", "P41",
    [(C, "    rng = np.random.default_rng(seed=rng_seed)\n"
         "    guess = rng.uniform(*domain, size=2)\n"
         "    optim = spo.minimize(\n        fun=_spherocity_with_grad,\n",
      "    if rng_seed is not None:\n        np.random.seed(rng_seed)\n"
      "    guess = np.random.uniform(*domain, size=2)\n"
      "    optim = spo.minimize(\n        fun=_spherocity_with_grad,\n")],
    "code which draws from numpy's global generator after spherocity()",
    "the global random state is reset by a call of spherocity",
    """
pmu = gcl.MomentumArray(np.random.default_rng(1).normal(size=(9, 4)))
np.random.seed(77)
want = np.random.random(3)
np.random.seed(77)
gcl.calculate.spherocity(pmu, rng_seed=3)
got = np.random.random(3)
check(np.array_equal(got, want), got, want)
""")

bug("p41-cache-by-id", "P41",
    [(M, "    return pmu.delta_R(pmu)\n",
      "    key = id(pmu)\n"
      "    if key not in _affinities:\n"
      "        if len(_affinities) >= 8:\n"
      "            _affinities.clear()\n"
      "        _affinities[key] = pmu.delta_R(pmu)\n"
      "    return _affinities[key].copy()\n"),
     (M, "_types = Types()\n", "_types = Types()\n_affinities: dict = {}\n")],
    "a momentum array made after another was discarded",
    "distances are remembered by the address of the array",
    """
rng = np.random.default_rng(3)
for num in range(200):
    rows = rng.normal(size=(5, 4))
    got = gcl.matrix.delta_R_aff(gcl.MomentumArray(rows))
    one = gcl.MomentumArray(rows.copy())
    check(np.array_equal(got, one.delta_R(one)), num)
""")

bug("p41-pooled-jets", "P41",
    [(S, "    cluster_buffer = np.zeros((num_jets, num_pcls), dtype=np.bool_)\n",
      "    cluster_buffer = _jet_buffer(num_jets, num_pcls)\n"),
     (S, "def fastjet_clusters(\n",
      "@fn.lru_cache(maxsize=4)\n"
      "def _blank(num_jets: int, num_pcls: int) -> base.BoolVector:\n"
      "    return np.empty((num_jets, num_pcls), dtype=np.bool_)\n\n\n"
      "def _jet_buffer(num_jets: int, num_pcls: int) -> base.BoolVector:\n"
      "    buffer = _blank(num_jets, num_pcls)\n"
      "    buffer[...] = False\n"
      "    return buffer\n\n\n"
      "def fastjet_clusters(\n")],
    "jets of an earlier call, looked at after clustering as many particles "
    "into as many jets",
    "jets of different calls share a buffer",
    """
one = pmu_of([5.0, 4.0, 3.0], [0.0, 0.1, 2.0], [0.0, 0.1, 2.0])
two = pmu_of([5.0, 4.0, 3.0], [0.0, 2.0, 2.1], [0.0, 2.0, 2.0])
jets = gcl.select.fastjet_clusters(one, 0.4, -1)
before = [j.data.tolist() for j in jets]
gcl.select.fastjet_clusters(two, 0.4, -1)
check([j.data.tolist() for j in jets] == before, jets)
""", PP)

THREADS = '''import sys
import threading


def at_once(funcs, repeats):
    """Answers of each function, called by threads at the same time."""
    sys.setswitchinterval(1e-6)
    out = [[] for _ in funcs]
    start = threading.Barrier(len(funcs))

    def work(idx):
        start.wait(60)
        for _ in range(repeats):
            out[idx].append(funcs[idx]())

    workers = [threading.Thread(target=work, args=(i,))
               for i in range(len(funcs))]
    for worker in workers:
        worker.start()
    for worker in workers:
        worker.join()
    return out


'''

bug("p41-shared-matrix", "P41",
    [(S, '    mat = np.zeros((num_hard, num_hard), dtype="<?")\n',
      "    mat = _hard_workspace[:num_hard, :num_hard]\n"
      "    if num_hard > len(_hard_workspace):\n"
      '        mat = np.zeros((num_hard, num_hard), dtype="<?")\n'),
     (S, "def _hard_ancestor_matrix(\n",
      '_hard_workspace = np.zeros((64, 64), dtype="<?")\n\n\n'
      "def _hard_ancestor_matrix(\n")],
    "hierarchies of several events, found by threads at the same time",
    "the links between hard partons are worked out in shared memory",
    """
def graph_of(flip):
    decays = [(3, 7), (3, 8), (4, 9), (4, 10), (5, 11), (5, 12)]
    if flip:
        decays = decays[::-1]
    return gcl.Graphicle.from_numpy(
        pdg=[2212, 6, 24, 23, 1, 2, 3, 4, 5, 11],
        status=[-12, -22, -22, -22] + [23] * 6,
        final=[False] * 4 + [True] * 6,
        edges=[(1, 2), (2, 3), (2, 4), (2, 5)] + decays,
        pmu=[[1.0, 2.0, 3.0, 9.0]] * 10)


def ask(flip):
    graph = graph_of(flip)
    def func():
        try:
            return str(gcl.select.hierarchy(graph))
        except Exception as err:
            return repr(err)
    return func


want = [ask(False)(), ask(True)()]
for turn in range(12):
    got = at_once([ask(False), ask(True), ask(False), ask(True)], 25)
    for num, answers in enumerate(got):
        check(set(answers) == {want[num % 2]}, num, set(answers))
""", THREADS)

bug("p41-filter-left", "P41",
    [(D, "            e_tol = ZERO_TOL * 1.0e9\n",
      "            e_tol = ZERO_TOL * 1.0e9\n"
      '            warnings.simplefilter("once", base.NumericalStabilityWarning)\n')],
    "warnings filters of the user, and particles along the beam",
    "reading phi alters the warnings filters of the whole process",
    """
warnings.simplefilter("error")
pmu = gcl.MomentumArray([[0.0, 0.0, 1.0, 1.0]])
for _ in range(2):
    try:
        pmu.copy().phi
    except gcl.base.NumericalStabilityWarning:
        continue
    check(False, "the filter of the user was overruled")
""")

bug("p41-last-lookup", "P41",
    [(D, "        props = _LOOKUP_TABLE.properties(self.data, [field])[field]\n"
         "        return props  # type: ignore\n",
      "        key = (field, self.data.tobytes())\n"
      '        if _LAST_LOOKUP["key"] != key:\n'
      '            _LAST_LOOKUP["key"] = key\n'
      '            _LAST_LOOKUP["props"] = _LOOKUP_TABLE.properties(\n'
      "                self.data, [field]\n"
      "            )[field]\n"
      '        return _LAST_LOOKUP["props"].copy()  # type: ignore\n'),
     (D, "_LOOKUP_TABLE = PdgRecords()\n",
      "_LOOKUP_TABLE = PdgRecords()\n"
      '_LAST_LOOKUP: ty.Dict[str, ty.Any] = {"key": None}\n')],
    "two threads which look up properties, or a lookup after a refused one",
    "the last lookup is remembered before it is known",
    """
good = gcl.PdgArray([11, 22])
bad = gcl.PdgArray([11, 99999999])
first = good.charge.tolist()
for num in range(3):
    try:
        got = bad.charge
    except KeyError:
        continue
    check(False, "unknown codes were given", got)
def ask(codes, attr):
    arr = gcl.PdgArray(codes)
    def func():
        try:
            return str(getattr(arr, attr).tolist())
        except Exception as err:
            return repr(err)
    return func


todo = [ask([11, 22], "charge"), ask([13, 5, 6], "mass")]
want = [func() for func in todo]
for turn in range(10):
    for num, answers in enumerate(at_once(todo, 100)):
        check(set(answers) == {want[num]}, num, set(answers))
""", THREADS)

bug("p41-seterr-left", "P41",
    [(D, "            eta = self.eta + shift\n            pmu.z[...] = self.pt",
      '            np.seterr(over="ignore", invalid="ignore")\n'
      "            eta = self.eta + shift\n            pmu.z[...] = self.pt")],
    "numpy's error handling after an experimental shift",
    "floating point errors are ignored from then on",
    """
pmu = gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0]])
before = np.geterr()
pmu.shift_eta(0.5, experimental=True)
check(np.geterr() == before, np.geterr())
""")

bug("p41-print-left", "P41",
    [(D, "    data_str = str(instance._data)\n",
      "    np.set_printoptions(threshold=1000, edgeitems=3)\n"
      "    data_str = str(instance._data)\n")],
    "print options of the user, and the display of an array",
    "displaying an array resets numpy's print options",
    """
np.set_printoptions(threshold=7, edgeitems=1)
repr(gcl.PdgArray([1, 2, 3]))
opts = np.get_printoptions()
check((opts["threshold"], opts["edgeitems"]) == (7, 1), opts)
""")

bug("p41-swapped-layer", "P41",
    [(S, '    hard_mask = graph.hard_mask\n    del hard_mask["incoming"]\n'
         "    hard_graph = graph[hard_mask]\n",
      '    hard_mask = _hard_of(graph)\n    hard_graph = graph[hard_mask]\n'),
     (S, "def hard_descendants(\n",
      "_hard_masks: ty.Dict[ty.Tuple[int, int], gcl.MaskGroup] = {}\n\n\n"
      "def _hard_of(graph: gcl.Graphicle) -> gcl.MaskGroup:\n"
      '    """Remembers the hard process, which is asked for repeatedly."""\n'
      "    codes = graph.status.data\n"
      "    key = (len(codes), int(codes.sum()))\n"
      "    if key not in _hard_masks:\n"
      "        _hard_masks.clear()\n"
      "        hard_mask = graph.hard_mask\n"
      '        del hard_mask["incoming"]\n'
      "        _hard_masks[key] = hard_mask\n"
      "    return _hard_masks[key]\n\n\n"
      "def hard_descendants(\n")],
    "an event with as many particles, and the same sum of status codes, as "
    "the one before",
    "the hard process of another event is used if lengths and sums coincide",
    """
def graph_of(order):
    pdg, status = np.array([2212, 6, 5, 24]), np.array([-12, -22, 23, 23])
    edges = np.array([(1, 2), (2, 3), (3, 4), (3, 5)])
    return gcl.Graphicle.from_numpy(
        pdg=pdg[order], status=status[order], edges=edges[order],
        final=np.array([False, False, True, True])[order],
        pmu=np.ones((4, 4)))


want = {"t": 3, "b": 1, "W+": 1}
for order in ([0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 1, 0]):
    got = gcl.select.hard_descendants(graph_of(order))
    sizes = {k: int(v.data.sum()) for k, v in got.items()}
    check(sizes == want, order, sizes)
""")

bug("p01-size-multiple", "P01",
    [(D, "        if not_empty and (cols != num_cols):",
      "        if not_empty and (array.size % num_cols):")],
    "input with the wrong number of columns, of as many numbers as would fill "
    "whole rows",
    "such input is reshaped rather than refused",
    '''
for rows in ([[1, 2]] * 4, [[1] * 8] * 3, [1] * 8):
    try:
        got = gcl.MomentumArray(rows)
    except ValueError:
        continue
    check(False, rows, "taken for", got.data.tolist())
check(len(gcl.MomentumArray([[1, 2, 3, 4]] * 2)) == 2)
''')

bug("p02-sorted-keys", "P02",
    [(D, "        return {key: val.serialize() for key, val in "
         "self._mask_arrays.items()}",
      "        return {\n            key: val.serialize()\n"
      "            for key, val in sorted(self._mask_arrays.items(), "
      "key=op.itemgetter(0))\n        }")],
    "mask groups whose names are not in alphabetic order",
    "the order of the names is lost by serializing",
    '''
group = gcl.MaskGroup({"b": {"z": [True], "a": [False]}, "a": [True]})
got = group.serialize()
check(list(got) == ["b", "a"] and list(got["b"]) == ["z", "a"], got)
check(gcl.MaskGroup(got).equal_to(group, check_order=True))
''')

bug("p02-unset-missing", "P02",
    [(D, "            key: getattr(self, key).serialize() for key in "
         "asdict(self).keys()",
      "            key: val.serialize() for key, val in "
      "zip(*_nonempty_dsets(self))")],
    "records without some of their attributes",
    "unset attributes have no entry in the serialized form",
    '''
rec = gcl.ParticleSet.from_numpy(pdg=[11, 22])
names = ["pdg", "pmu", "color", "helicity", "status", "final"]
got = rec.serialize()
check(sorted(got) == sorted(names), got)
''')

bug("p03-zero-stop", "P03",
    [(D, "    names, data = _nonempty_dsets(instance)\n"
         "    data_sliced = map(op.getitem",
      "    if isinstance(key, slice):\n"
      "        key = np.arange(\n"
      "            key.start or 0, key.stop or len(instance), key.step or 1\n"
      "        )\n"
      "    names, data = _nonempty_dsets(instance)\n"
      "    data_sliced = map(op.getitem")],
    "slices which end at zero, count from the end, go backwards, or go beyond "
    "the end",
    "slices are turned to indices without regard to their conventions",
    '''
rec = gcl.ParticleSet.from_numpy(pdg=[11, 22, 13, 21], status=[1, 2, 3, 4])
codes = [11, 22, 13, 21]
for sl in (slice(0, 0), slice(-2, None), slice(None, None, -1), slice(1, 9),
           slice(1, -1), slice(None, None, 2)):
    got = rec[sl]
    check(list(got.pdg) == codes[sl], sl, list(got.pdg))
''')

bug("p07-latent-prefix", "P07",
    [(D, '                if key == "latent":\n                    continue\n'
         "                if isinstance(val, type(self)):",
      '                if key.startswith("latent"):\n'
      "                    continue\n"
      "                if isinstance(val, type(self)):")],
    "masks whose names begin with the word latent",
    "all names which begin with latent are dropped by rising",
    '''
group = gcl.MaskGroup(
    {"latent": [True], "latent:0": [True], "a": {"latent b": [True]}})
got = list(group.flatten("rise"))
check(got == ["latent:0", "a", "latent b"], got)
''')

bug("p07-drop-shared", "P07",
    [(D, "            mask_group = mask_group.copy()\n        if key in mask_group:",
      "            mask_group = mask_group[list(mask_group)]\n"
      "        if key in mask_group:")],
    "dropping a key on a copy of a nested group, and a look at the original",
    "the nested groups of the original lose the key too",
    '''
group = gcl.MaskGroup(
    {"a": {"latent": [True], "b": [False]}, "latent": [True]})
got = group.recursive_drop()
check(list(got) == ["a"] and list(got["a"]) == ["b"])
check(list(group["a"]) == ["latent", "b"], list(group["a"]))
''')

bug("p08-arccos-theta", "P08",
    [(D, "        return np.angle(self._zt_pol).reshape(-1)\n",
      '        with np.errstate(invalid="ignore"):\n'
      "            cos = self.z / self._spatial_mag\n"
      "        return np.arccos(np.nan_to_num(cos, nan=1.0)).reshape(-1)\n")],
    "particles close to the beam",
    "polar angles of forward particles are rounded to zero, or pi",
    '''
want = np.array([1.0e-3, 1.0e-6, 1.0e-9, 1.0e-12])
rows = np.stack([np.sin(want), 0 * want, np.cos(want), 1 + 0 * want], axis=-1)
got = gcl.MomentumArray(rows).theta
check(np.allclose(got, want, rtol=1.0e-6, atol=0.0), got)
''')

bug("p10-list-truncated", "P10",
    [(D, "    inputs = tuple(x._data if isinstance(x, class_type) else x for x "
         "in inputs)",
      "    inputs = tuple(\n"
      "        x._data\n        if isinstance(x, class_type)\n"
      "        else np.asarray(x, dtype=instance._data.dtype)\n"
      "        if isinstance(x, list)\n        else x\n"
      "        for x in inputs\n    )")],
    "arrays of integers combined with a list of fractions",
    "numbers in lists are cut to the type of the array",
    '''
pdg = gcl.PdgArray([10, 20, 30])
got = np.greater(pdg, [9.5, 20.5, 30.0])
check(list(got) == [True, False, False], list(got))
got = np.less(gcl.StatusArray([1, 2]), [1.5, 70000])
check(list(got) == [True, True], list(got))
''')

bug("p13-empty-skipped", "P13",
    [(C, "    pmus = map(fn.partial(op.getitem, pmu), cluster_masks)",
      "    cluster_masks = filter(np.any, cluster_masks)\n"
      "    pmus = map(fn.partial(op.getitem, pmu), cluster_masks)")],
    "a mask without particles among the masks",
    "empty masks have no row in the result",
    '''
pmu = gcl.MomentumArray([[1, 2, 3, 9], [4, 5, 6, 20]])
masks = [gcl.MaskArray(m) for m in ([1, 0], [0, 0], [1, 1])]
got = gcl.calculate.aggregate_momenta(pmu, masks)._data.tolist()
check(got == [[1, 2, 3, 9], [0, 0, 0, 0], [5, 7, 9, 29]], got)
''')

bug("p13-rapidity-fallback", "P13",
    [(C, "    rap = (pmu_sum.eta if pseudo else pmu_sum.rapidity).item()",
      "    rap = (pmu_sum.eta if pseudo or np.all(pmu.mass < 1.0e-3) else "
      "pmu_sum.rapidity).item()")],
    "the true rapidity of several light particles in different directions",
    "pseudorapidity is given, though the sum of light particles is massive",
    '''
pmu = gcl.MomentumArray([[3.0, 0, 4.0, 5.0], [0, 6.0, 8.0, 10.0]])
got = gcl.calculate.resultant_coords(pmu, pseudo=False)[0]
check(abs(got - 0.5 * np.log(27.0 / 3.0)) < 1.0e-9, got)
''')

bug("p13-weights-spread", "P13",
    [(C, "        data = weight * data\n",
      "        weight = np.asarray(weight).reshape(len(weight), -1)\n"
      "        data = weight[:, :1] * data\n")],
    "weights which differ among the components of a particle",
    "the weight of the first component is used for all four",
    '''
pmu = gcl.MomentumArray([[1.0, 2, 3, 9], [4, 5, 6, 20]])
w = np.array([[0.5, 0.25, 1.0, 2.0], [1.0, 0.5, 0.5, 1.5]])
tot = (pmu._data * w).sum(axis=0)
want = np.sqrt(tot[3] ** 2 - (tot[:3] ** 2).sum())
got = gcl.calculate.combined_mass(pmu, w)
check(abs(got - want) < 1.0e-9, got, want)
''')

bug("p17-signed-target", "P17",
    [(D, "            data = np.abs(data, dtype=_types.int)\n"
         "            target = np.abs(target)\n",
      "            data = np.abs(data, dtype=_types.int)\n")],
    "negative codes in the list, without regard to sign",
    "negative codes match nothing",
    '''
pdg = gcl.PdgArray([11, -11, 13])
check(list(pdg.mask([-11])) == [False, False, True])
check(list(pdg.mask([-11, 13], blacklist=False)) == [True] * 3)
''')

bug("p17-narrow-target", "P17",
    [(D, "        target = np.array(target, dtype=_types.int)\n",
      "        target = np.array(target).astype('<i2')\n")],
    "codes of more than five digits, as those of excited hadrons and nuclei",
    "wide codes are cut to sixteen bits",
    '''
wide = [100443, 1000010020, 9010221, 11]
pdg = gcl.PdgArray(wide)
for num, code in enumerate(wide):
    got = list(pdg.mask([code], blacklist=False))
    check(got == [num == n for n in range(4)], code, got)
''')

bug("p18-abs-bounds", "P18",
    [(D, "            array = np.abs(array)\n        more_than",
      "            array = np.abs(array)\n"
      "            min_status = abs(min_status)\n        more_than")],
    "a negative lower bound without regard to sign",
    "the magnitude of the lower bound is used",
    '''
status = gcl.StatusArray([1, -3, 12, -40])
got = list(status.in_range(-10, 20))
check(got == [True, True, True, False], got)
''')

bug("p19-zero-weights", "P19",
    [(D, "            if weights is not None:\n",
      "            if weights is not None and np.any(weights):\n")],
    "weights which are all zero",
    "weights of zero are dropped",
    '''
graph = gcl.Graphicle.from_numpy(
    pdg=[11, 22], edges=[(1, 2), (2, 3)], weights=[0.0, 0.0])
check(graph.adj.weights.tolist() == [0.0, 0.0], graph.adj.weights)
check(not graph.adj.matrix.any())
''')

bug("p19-lhe-spacelike", "P19",
    [(D, "-2: -22, 2: -22, 3: -22, -9: -12}",
      "-2: -21, 2: -22, 3: -22, -9: -12}")],
    "a Les Houches event with spacelike intermediate particles",
    "spacelike intermediate particles are taken for incoming ones",
    '''
class Event:
    pdg = np.array([21, 21, 6, 5], dtype="<i4")
    pmu = np.ones((4, 4))
    color = np.zeros((4, 2), dtype="<i4")
    helicity = np.zeros(4, dtype="<i2")
    status = np.array([-1, -1, -2, 1], dtype="<i2")


got = list(gcl.ParticleSet.from_lhe_event(Event()).status)
check(got == [-21, -21, -22, -23], got)
''')

bug("p28-resonance-unpruned", "P28",
    [(S, '    flat_hier = hier.flatten("rise")\n', ""),
     (S, "    leaves = leaf_masks(hier)\n    color_keys",
      '    flat_hier = hier.recursive_drop().flatten("rise")\n'
      "    leaves = leaf_masks(flat_hier)\n"
      "    leaves = leaf_masks(hier)\n    color_keys"),
     (S, "        leaf.data[...] = centroid_prune(graph.pmu, radius, leaf, "
         "centroid).data\n    hier.recursive_drop(inplace=True)\n",
      "        leaf.data[...] = centroid_prune(graph.pmu, radius, leaf, "
      "centroid).data\n"
      "    pruned = leaves.items()\n"
      "    flat_hier.update(pruned)\n")],
    "a coloured parton whose parent is a resonance, and particles far from it",
    "resonances keep particles which were dropped from their decay products",
    '''
rows = [
    (2212, -12, 1, 2, (0, 0, 100.0, 100.0), (0, 0)),
    (6, -22, 2, 3, vec(0.0, 0.0, 90.0), (501, 0)),
    (5, 23, 3, 4, vec(0.0, 0.0, 50.0), (501, 0)),
    (24, -23, 3, 5, vec(0.5, 1.0, 40.0), (0, 0)),
    (211, 83, 4, 6, vec(0.1, 0.1, 30.0), (0, 0)),
    (-211, 84, 4, 7, vec(3.0, 2.5, 20.0), (0, 0)),
    (22, 51, 5, 8, vec(0.5, 1.0, 40.0), (0, 0)),
]
got = gcl.select.clusters(event(rows), 0.8)
finals = [False, False, False, False, True, True, True]
check(list(got["b"]) == [True, False, False], list(got["b"]))
check(list(got["t"]) == [True, False, True], list(got["t"]))
''', EVENT)

bug("p28-jet-centre", "P28",
    [(S, "    parton_masks = map(op.and_, it.repeat(hard_mask), "
         "colored_leaves_)\n"
         "    parton_pmus = map(op.getitem, it.repeat(graph.pmu), "
         "parton_masks)\n"
         '    parton_centroids = map(op.attrgetter("eta", "phi"), parton_pmus)\n',
      "    jet_masks = map(op.and_, it.repeat(graph.final), colored_leaves_)\n"
      "    jet_pmus = map(op.getitem, it.repeat(graph.pmu), jet_masks)\n"
      "    jet_pmus = map(fn.partial(np.sum, axis=0), jet_pmus)\n"
      '    parton_centroids = map(op.attrgetter("eta", "phi"), jet_pmus)\n')],
    "a coloured parton some of whose particles fly far off it",
    "the region is centred on the particles, rather than on the parton",
    '''
rows = [
    (2212, -12, 1, 2, (0, 0, 100.0, 100.0), (0, 0)),
    (6, -22, 2, 3, vec(0.0, 0.0, 90.0), (501, 0)),
    (5, 23, 3, 4, vec(0.0, 0.0, 50.0), (501, 0)),
    (24, -23, 3, 5, vec(0.5, 1.0, 40.0), (0, 0)),
    (211, 83, 4, 6, vec(0.0, -0.7, 10.0), (0, 0)),
    (-211, 84, 4, 7, vec(0.0, 0.6, 40.0), (0, 0)),
    (22, 51, 5, 8, vec(0.5, 1.0, 40.0), (0, 0)),
]
got = gcl.select.clusters(event(rows), 0.8)
check(list(got["b"]) == [True, True, False], list(got["b"]))
''', EVENT)

bug("p29-early-refusal", "P29",
    [(S, "    if len(cluster_masks) < len(hard_pmu):\n",
      "    if len(cluster_masks) < np.sum(portion_mask):\n")],
    "fewer jets than hard partons, but enough for those which pass the lists",
    "events with enough jets for the partons asked for are refused",
    '''
rows = [
    (2212, -12, 1, 2, (0, 0, 100.0, 100.0), (0, 0)),
    (5, 23, 2, 3, vec(0.0, 0.0), (501, 0)),
    (-5, 23, 2, 4, vec(0.0, 2.0), (0, 501)),
    (22, 23, 2, 5, vec(1.0, -2.0), (0, 0)),
    (211, 83, 3, 6, vec(0.0, 0.0), (0, 0)),
    (-211, 84, 4, 7, vec(0.0, 2.0), (0, 0)),
]
graph = event(rows)
num = int(graph.final.data.sum())
masks = [gcl.MaskArray([k == n for k in range(num)]) for n in (1, 2)]
got = gcl.select.monte_carlo_tag(graph.particles, masks, whitelist=[5])
check(sorted(got) == ["b", "b~"], list(got))
''', EVENT)

bug("p30-signed-eta", "P30",
    [(S, "        jet_idxs_ = jet_idxs_[np.abs(jet_pmus.eta) < eta_cut]",
      "        jet_idxs_ = jet_idxs_[jet_pmus.eta < eta_cut]")],
    "jets far backward, and a pseudorapidity cut",
    "jets of large negative pseudorapidity pass the cut",
    '''
pmu = pmu_of([50.0, 40.0, 30.0], [-3.0, 0.0, 3.0], [0.0, 1.5, 3.0])
jets = gcl.select.fastjet_clusters(pmu, 0.4, -1, eta_cut=2.0)
got = [np.flatnonzero(j.data).tolist() for j in jets]
check(got == [[1]], got)
''', PP)

bug("p31-origin-centre", "P31",
    [(S, "    if centre is None:\n        eta_mid, phi_mid = gcl.calculate",
      "    if not any(centre or ()):\n        eta_mid, phi_mid = gcl.calculate")],
    "a given centre at the origin of the plane",
    "a centre of zero rapidity and azimuth is taken for none",
    '''
pmu = pmu_of([10.0, 50.0], [0.1, 2.0], [0.0, 0.5])
got = gcl.select.centroid_prune(pmu, 0.5, centre=(0.0, 0.0))
check(list(got) == [True, False], list(got))
''', PP)

bug("p35-southern-axis", "P35",
    [(T, "    theta = cmath.phase(theta_polar)\n",
      "    theta = cmath.phase(complex(abs(theta_polar.real), pt))\n")],
    "an axis which points backward along the beam",
    "axes of the southern half are mirrored to the northern one",
    '''
pmu = gcl.MomentumArray([[1.0, 0.2, 0.3, 5.0], [0.5, -3.0, 0.1, 9.0]])
want = np.cross([1.0, 0.2, 0.3], [0.5, -3.0, 0.1])
got = gcl.transform.soft_hard_axis(pmu)
unit = [np.sin(got.theta) * np.cos(got.phi),
        np.sin(got.theta) * np.sin(got.phi), np.cos(got.theta)]
check(np.allclose(unit, want / np.linalg.norm(want)), unit)
''')

bug("p06-group-order", "P06",
    [(D, "                cl.OrderedDict({k: self._mask_arrays[k] for k in "
         "key}), agg",
      "                cl.OrderedDict(\n"
      "                    {k: v for k, v in self._mask_arrays.items() if k "
      "in key}\n                ),\n                agg,")],
    "a list of names in another order than the group's, or with unknown names",
    "selections keep the order of the group, and ignore unknown names",
    '''
group = gcl.MaskGroup({"a": [True], "b": [False], "c": [True]})
check(list(group[["c", "a"]]) == ["c", "a"], list(group[["c", "a"]]))
try:
    group[["a", "zz"]]
except KeyError:
    pass
else:
    check(False, "unknown names are ignored")
''')

bug("p04-hierarchy-desc", "P04",
    [(S, "    else:\n        desc = desc.copy()\n    if not np.any(hard_mask["
         '"intermediate"]):',
      "    else:\n        desc = desc[list(desc)]\n    if not np.any(hard_mask["
      '"intermediate"]):')],
    "descendants passed to hierarchy which lack a final parton of the hard "
    "process",
    "hierarchy adds final partons to the masks which are passed to it",
    '''
rows = [
    (2212, -12, 1, 2, (0, 0, 100.0, 100.0), (0, 0)),
    (6, -22, 2, 3, vec(0.0, 0.0, 90.0), (501, 0)),
    (5, 23, 3, 4, vec(0.0, 0.0, 50.0), (501, 0)),
    (24, -23, 3, 5, vec(0.5, 1.0, 40.0), (0, 0)),
]
graph = event(rows)
desc = gcl.select.hard_descendants(graph)
for key in desc:
    desc[key] = desc[key].data & ~graph.final.data
before = desc.serialize()
hier = gcl.select.hierarchy(graph, desc)
check(desc.serialize() == before, "the masks passed were changed")
''', EVENT)

bug("p05-abs-index", "P05",
    [(D, "        self.data[key] = val\n\n    def __len__",
      "        if isinstance(key, list):\n"
      "            key = np.array(key, dtype=np.bool_)\n"
      "        self.data[key] = val\n\n    def __len__")],
    "assigning through a list of as many positions as the mask is long",
    "lists of positions are taken for lists of booleans",
    '''
mask = gcl.MaskArray([False, False, False])
mask[[0, 0, 2]] = True
check(list(mask) == [True, False, True], list(mask))
''')

bug("p38-tiny-seed", "P38",
    [(D, "        energy = rng.uniform(0.0, max_energy, size)\n",
      "        max_energy = max(max_energy, 1.0)\n"
      "        energy = rng.uniform(0.0, max_energy, size)\n")],
    "a maximum energy of less than one",
    "energies exceed a small maximum",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(50, 0.01, seed=3)
check(float(pmu.energy.max()) <= 0.01, pmu.energy.max())
''')

bug("p34-hadron-weight", "P34",
    [(M, "    pt_weight = np.power(parton_pmu.pt, pt_exp)\n",
      "    pt_weight = np.power(np.maximum(parton_pmu.pt, "
      "hadron_pmu.pt.min(initial=np.inf)), pt_exp)\n")],
    "partons which are softer than every hadron",
    "the weight of soft partons is that of the softest hadron",
    '''
partons = pmu_of([1.0, 20.0], [0.0, 1.0], [0.0, 1.0])
hadrons = pmu_of([2.0, 3.0], [1.0, -1.0], [0.0, 2.0])
got = gcl.matrix.parton_hadron_distance(partons, hadrons, -0.5)
want = np.hypot(1.0, 0.0)
check(abs(got[0, 0] - want) < 1.0e-9, got)
''', PP)

bug("p12-global-scope", "P12",
    [(C, "    adj = pmu.delta_R(pmu, pseudo, threads) < radius\n",
      "    adj = pmu.delta_R(pmu.copy(), True, threads) < radius\n")],
    "coefficients by true rapidity of massive particles",
    "pseudorapidity is used whatever is asked for",
    '''
z, e = np.array([5.0, 5.0, 1.0]), np.array([6.0, 60.0, 30.0])
rows = np.column_stack([np.ones(3), np.zeros(3), z, e])
pmu = gcl.MomentumArray(rows)
rap = pmu.rapidity
for radius in (0.1, 0.5, 1.0, 1.3, 2.0):
    near = np.abs(rap[:, None] - rap[None, :]) < radius
    np.fill_diagonal(near, False)
    want = []
    for row in near:
        idx = np.flatnonzero(row)
        n = len(idx)
        want.append(near[np.ix_(idx, idx)].sum() / (n * (n - 1)) if n > 1 else 0)
    got = gcl.calculate.cluster_coeff_distbn(pmu, radius, pseudo=False)
    check(np.allclose(got, want), radius, got, want)
''')

bug("p42-knn-order", "P42",
    [(M, "    k: int,\n    self_loop: bool = False,\n"
         "    weighted: bool = False,\n",
      "    k: int,\n    weighted: bool = False,\n"
      "    self_loop: bool = False,\n")],
    "the options of knn_adj given in place instead of by name",
    "weights are taken for self loops",
    '''
mat = np.abs(np.subtract.outer(np.arange(4.0), np.array([0.1, 1.3, 2.2, 3.9])))
got = gcl.matrix.knn_adj(mat, 2, True, False)
want = gcl.matrix.knn_adj(mat, 2, self_loop=True, weighted=False)
check(got.dtype == want.dtype and np.array_equal(got, want), got, want)
''')

bug("p42-strict-default", "P42",
    [(S, "    sign_sensitive: bool = False,\n    strict: bool = True,\n",
      "    sign_sensitive: bool = False,\n    strict: bool = False,\n")],
    "targets of which some are not in the event, without saying how strict",
    "missing targets are no longer refused by default",
    '''
graph = gcl.Graphicle.from_numpy(
    pdg=[2212, 6, 5, 24], status=[-12, -22, 23, 23],
    edges=[(1, 2), (2, 3), (3, 4), (3, 5)])
try:
    got = gcl.select.hard_descendants(graph, {5, 37})
except ValueError:
    got = None
check(got is None, got)
''')

bug("p42-flatten-leaves", "P42",
    [(D, '        self, how: ty.Literal["rise", "agg", "leaves"] = "rise"\n',
      '        self, how: ty.Literal["rise", "agg", "leaves"] = "leaves"\n')],
    "flattening without saying how, of groups nested several deep",
    "the innermost masks only are given by default",
    '''
one, two = gcl.MaskArray([True, False]), gcl.MaskArray([False, True])
group = gcl.MaskGroup(
    {"a": one, "b": gcl.MaskGroup({"c": one, "d": gcl.MaskGroup(
        {"e": two, "f": one}, agg_op="or")}, agg_op="or")}, agg_op="or")
check(set(group.flatten().keys()) == set(group.flatten("rise").keys()),
      list(group.flatten().keys()))
for key, val in group.flatten("rise").items():
    check(list(group.flatten()[key]) == list(val), key)
''')

bug("p42-min-status", "P42",
    [(D, "        min_status: int = 0,\n", "        min_status: int = 1,\n")],
    "a status code of zero, and no lower limit given",
    "particles of status zero are left out",
    '''
got = list(gcl.StatusArray([0, 1, -4]).in_range(max_status=10))
check(got == [True, True, True], got)
''')

bug("p42-tag-no-outgoing", "P42",
    [(S, "    intermediate: bool = False,\n    outgoing: bool = True,\n",
      "    outgoing: bool = True,\n    intermediate: bool = False,\n")],
    "tagging with the stages given in place",
    "the two stages are exchanged",
    '''
particles = gcl.ParticleSet.from_numpy(
    pdg=[6, 5, 211, -211], status=[-22, 23, 1, 1],
    pmu=[[1.0, 0.0, 0.0, 5.0], [0.0, 1.0, 0.0, 2.0],
         [1.0, 0.1, 0.0, 2.0], [0.1, 1.0, 0.0, 2.0]],
    final=[False, False, True, True])
jets = [gcl.MaskArray([True, False]), gcl.MaskArray([False, True])]
got = gcl.select.monte_carlo_tag(particles, jets, None, True, False)
check(list(got.keys()) == ["t"], list(got.keys()))
''')

bug("p27-sum-of-lines", "P27",
    [(S, "        if color_set == anticolor_set:\n",
      "        if sum(color_set) == sum(anticolor_set):\n")],
    "colour lines whose numbers happen to add up to the same",
    "partons on different lines are taken for a singlet",
    '''
names = ("u", "d~", "g")
mat = np.eye(3, dtype=bool)
leaves = gcl.MaskGroup({n: gcl.MaskArray(r) for n, r in zip(names, mat)},
                       agg_op="or")
got = gcl.select.color_singlets(
    leaves, gcl.StatusArray([23, 23, 23]),
    gcl.ColorArray([(101, 0), (0, 103), (104, 102)]))
check(got == [], got)
''')

bug("p23-filled", "P23",
    [(S, '        vtxs = vtxs.explode("pdg_in").explode("pdg_out")\n',
      '        vtxs = vtxs.explode("pdg_in").explode("pdg_out").fillna(0)\n')],
    "a search for the code zero, which stands for unknown particles",
    "vertices at which nothing arrives, or which nothing leaves, are found",
    '''
graph = gcl.Graphicle.from_numpy(
    pdg=[2212, 0, 5, -5], edges=[(1, 2), (2, 3), (3, 4), (3, 5)])
got = sorted(gcl.select.find_vertex(graph, pdgs_in={0}).tolist())
check(got == [3], got)
''')

bug("p33-nan-joined", "P33",
    [(M, "        mask = matrix < cut\n", "        mask = ~(matrix >= cut)\n")],
    "undefined affinities",
    "particles at an undefined distance are joined",
    '''
mat = np.array([[0.0, np.nan, 1.0], [np.nan, 0.0, 3.0], [1.0, 3.0, 0.0]])
got = gcl.matrix.cut_adj(mat, 2.0)
check(got.tolist() == [[False, False, True], [False] * 3,
                       [True, False, False]], got)
''')

bug("p36-first-hardest", "P36",
    [(T, "    hard_idx = momenta.pt.argmax()\n",
      "    hard_idx = np.argsort(momenta.pt)[-1]\n"
      "    if hard_idx == len(momenta) - 1 and len(momenta) > 16:\n"
      "        hard_idx -= 1\n")],
    "more than sixteen momenta, of which the last is the hardest",
    "the neighbour of the hardest momentum is split",
    '''
pmu = pmu_of(np.arange(1.0, 21.0), np.linspace(-1, 1, 20), np.linspace(0, 3, 20))
out = gcl.transform.split_hardest(pmu, 0.5, 0.1, (0.0, 0.0))
check(np.allclose(out.pt[:-2], np.arange(1.0, 20.0)), out.pt)
''', PP)

bug("p15-negative-union", "P15",
    [(C, "    if union_sum == 0.0:\n", "    if union_sum <= 1.0e-12:\n")],
    "weights which are all very small",
    "sets of small total weight are all equal",
    '''
one, two = np.array([True, False, True]), np.array([True, True, False])
got = gcl.calculate.jaccard_distance(one, two, np.full(3, 1.0e-14))
check(abs(got - 2 / 3) < 1e-9, got)
''')

bug("p16-mass-unscaled", "P16",
    [(D, "        for name in range_arr.dtype.names:\n"
         "            range_arr[name] *= self.__mega_to_giga\n"
         "        return range_arr\n\n    @property\n    def quarks",
      "        for name in range_arr.dtype.names[: len(range_arr)]:\n"
      "            range_arr[name] *= self.__mega_to_giga\n"
      "        return range_arr\n\n    @property\n    def quarks")],
    "the bounds of the mass of a single particle",
    "the upper bound is left in MeV",
    '''
one = gcl.PdgArray([6]).mass_bounds
two = gcl.PdgArray([6, 6]).mass_bounds
check(one[0] == two[0] and one.dtype == two.dtype, one, two)
''')

bug("p08-phi-sum", "P08",
    [(D, "            phi_[invalid] = np.nan\n",
      "            phi_[: num_nan] = np.nan\n")],
    "particles along the beam which do not come first",
    "the azimuths of the first particles are lost instead",
    '''
pmu = gcl.MomentumArray([[1.0, 0.0, 0.0, 1.0], [0.0, 0.0, 1.0, 1.0]])
check(list(np.isnan(pmu.phi)) == [False, True], pmu.phi)
''')

bug("p20-roots-by-value", "P20",
    [(D, "        zero_idxs = np.flatnonzero(out_degree == 0)\n",
      "        zero_idxs = np.flatnonzero(out_degree == 0)\n"
      "        if len(self) > 1:\n"
      "            zero_idxs = zero_idxs[zero_idxs != 0]\n")],
    "a leaf whose label is the lowest of all",
    "the first vertex is never a leaf",
    '''
adj = gcl.AdjacencyList([(-3, -5), (-3, -1)])
check(list(adj.leaves) == [True, True], list(adj.leaves))
''')

bug("p17-zero-code", "P17",
    [(D, "        target = np.array(target, dtype=_types.int)\n",
      "        target = np.array(target, dtype=_types.int)\n"
      "        target = target[target != 0] if target.ndim else target\n")],
    "the code zero in a list of codes",
    "unknown particles cannot be masked",
    '''
pdg = gcl.PdgArray([0, 5, -5])
check(list(pdg.mask([0, 21])) == [False, True, True], list(pdg.mask([0, 21])))
''')

bug("p18-sorted-bounds", "P18",
    [(D, "        more_than = array >= min_status\n",
      "        if max_status is not None and max_status < min_status:\n"
      "            min_status, max_status = max_status, min_status\n"
      "        more_than = array >= min_status\n")],
    "an upper bound below the lower one",
    "the bounds are exchanged, so an empty range is not empty",
    '''
got = list(gcl.StatusArray([1, 5, 9]).in_range(8, 2))
check(got == [False, False, False], got)
''')

bug("p30-integer-power", "P30",
    [(S, "        algo = fj.genkt_algorithm\n",
      "        algo = fj.genkt_algorithm\n        p_val = round(p_val, 1)\n")],
    "powers with several decimals",
    "the power is rounded to one decimal",
    '''
found = False
rng = np.random.default_rng(5)
import fastjet as fj
import awkward as ak
for _ in range(60):
    pmu = pmu_of(rng.uniform(1, 50, 30), rng.normal(0, 1, 30), rng.uniform(-3, 3, 30))
    arr = np.zeros(30, [(n, "<f8") for n in ("E", "px", "py", "pz")])
    arr["E"], arr["px"], arr["py"], arr["pz"] = pmu.energy, pmu.x, pmu.y, pmu.z
    seq = fj.ClusterSequence(
        ak.from_numpy(arr), fj.JetDefinition(fj.genkt_algorithm, 0.8, -0.35))
    want = sorted(sorted(i) for i in seq.constituent_index(0.0).to_list())
    got = sorted(np.flatnonzero(j.data).tolist()
                 for j in gcl.select.fastjet_clusters(pmu, 0.8, -0.35))
    check(got == want, got, want)
''', PP)

bug("p34-clamped-pt", "P34",
    [(M, "    pt_weight = np.power(parton_pmu.pt, pt_exp)\n",
      "    pt_weight = np.power(np.maximum(parton_pmu.pt, 1.0e-3), pt_exp)\n")],
    "partons of less than an MeV of transverse momentum",
    "the weight of very soft partons is bounded",
    '''
partons = pmu_of([1.0e-5], [0.0], [0.0])
hadrons = pmu_of([2.0], [1.0], [0.0])
got = gcl.matrix.parton_hadron_distance(partons, hadrons, -0.1)[0, 0]
check(abs(got - 1.0e-5**-0.1) < 1e-6, got)
''', PP)

bug("p38-negative-cos", "P38",
    [(D, "            1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))\n",
      "            1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float32)"
      ".round(2))\n")],
    "many momenta, looked at closely",
    "the polar angle takes only a hundred values",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(5000, 10.0, seed=1)
check(len(np.unique(np.round(np.cos(pmu.theta), 9))) > 4000, "polar angles")
''')

bug("p38-shared-spread", "P38",
    [(D, "            mass = rng.uniform(0.0, masked_e)\n",
      "            mass = rng.uniform(0.0, 1.0) * masked_e\n")],
    "several massive momenta among massless ones",
    "all massive momenta have the same velocity",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(400, 10.0, massless=0.5, seed=3)
ratio = pmu.mass / pmu.energy
heavy = ratio[ratio > 1e-3]
check(heavy.std() > 0.05, heavy.std())
''')

bug("p13-generator-masks", "P13",
    [(C, "    pmus = map(fn.partial(op.getitem, pmu), cluster_masks)\n",
      "    if not any(map(np.any, cluster_masks)):\n"
      "        cluster_masks = []\n"
      "    pmus = map(fn.partial(op.getitem, pmu), cluster_masks)\n")],
    "masks of which none selects a particle, or which come from an iterator",
    "rows of zeros are left out, and iterators are used up",
    '''
pmu = gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0], [1.0, 0.0, 0.0, 4.0]])
masks = [gcl.MaskArray([False, True]), gcl.MaskArray([True, True])]
got = gcl.calculate.aggregate_momenta(pmu, iter(masks))
check(len(got) == 2, got)
''')

bug("p09-integer-turns", "P09",
    [(D, "            rot_op = np.exp(1.0j * shift)\n",
      "            rot_op = np.exp(1.0j * np.float16(shift))\n")],
    "rotations of each particle by its own angle",
    "angles of arrays are rounded to half precision",
    '''
pmu = gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0], [1.0, 0.0, 0.0, 4.0]])
got = pmu.shift_phi(np.array([1.0 / 3.0, 0.1])).phi - pmu.phi
check(np.allclose(got, [1.0 / 3.0, 0.1], rtol=0, atol=1e-9), got)
''')

bug("p09-large-boost", "P09",
    [(D, "        cosh = np.cosh(-shift)\n",
      "        shift = np.clip(shift, -8.0, 8.0)\n        cosh = np.cosh(-shift)\n")],
    "boosts by more than eight units of rapidity",
    "large boosts are cut short",
    '''
pmu = gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0]])
got = float(pmu.shift_rapidity(9.0).rapidity[0] - pmu.rapidity[0])
check(abs(abs(got) - 9.0) < 1e-6, got)
''')

bug("p31-wide-radius", "P31",
    [(S, "    is_within = dist < radius\n",
      "    is_within = dist < min(radius, 2 * np.pi)\n")],
    "radii of more than a full turn",
    "particles far in pseudorapidity are dropped whatever the radius",
    '''
pmu = pmu_of([1.0, 2.0], [8.0, 0.0], [0.0, 1.0])
got = list(gcl.select.centroid_prune(pmu, 20.0, centre=(0.0, 0.0)))
check(got == [True, True], got)
''', PP)

bug("p12-few-near", "P12",
    [(C, "    adj = pmu.delta_R(pmu, pseudo, threads) < radius\n",
      "    adj = pmu.delta_R(pmu, pseudo, threads) < min(radius, np.pi)\n")],
    "radii of more than half a turn",
    "particles far in pseudorapidity are never joined",
    '''
pmu = pmu_of([1.0, 2.0, 3.0], [5.0, 0.0, -4.0], [0.0, 1.0, 2.0])
got = gcl.calculate.cluster_coeff_distbn(pmu, 20.0)
check(np.allclose(got, 1.0), got)
''', PP)

bug("p11-unbounded-gap", "P11",
    [(C, "            if np.isnan(drap):\n",
      "            if not np.isfinite(drap):\n", "def _delta_R(")],
    "a particle along the beam against one which is not",
    "the infinite gap in pseudorapidity counts as none",
    '''
pmu = gcl.MomentumArray([[0.0, 0.0, 5.0, 5.0]])
other = gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0], [2.0, 1.0, 0.0, 4.0]])
got = pmu.delta_R(other)
check(np.isinf(got).all(), got)
''')

bug("p14-soft-pairs", "P14",
    [(C, "            if norm_prod == 0.0:\n",
      "            if norm_prod < 1.0e-9:\n")],
    "momenta of tens of keV or less",
    "pairs of soft momenta do not count in the C-parameter",
    '''
rng = np.random.default_rng(2)
arr = np.empty((6, 4))
arr[:, :3] = rng.normal(size=(6, 3))
arr[:, 3] = np.linalg.norm(arr[:, :3], axis=1)
want = gcl.calculate.c_parameter(gcl.MomentumArray(arr))
got = gcl.calculate.c_parameter(gcl.MomentumArray(arr * 1.0e-6))
check(abs(got - want) < 1e-9, got, want)
''')

bug("p13-light-mass", "P13",
    [(C, "    if not mass_sq < 0.0:\n", "    if mass_sq > 1.0e-6:\n")],
    "combined masses below an MeV",
    "electrons and lighter come out massless",
    '''
pmu = gcl.MomentumArray([[0.0, 0.0, 0.0, 0.000511]])
got = gcl.calculate.combined_mass(pmu)
check(abs(got - 0.000511) < 1e-9, got)
''')

bug("p23-empty-set", "P23",
    [(S, "    if (pdgs_in is None) and (pdgs_out is None):\n",
      "    if not pdgs_in and not pdgs_out:\n")],
    "empty sets of codes, which every vertex satisfies",
    "an empty set is taken for no set",
    '''
graph = gcl.Graphicle.from_numpy(
    pdg=[2212, 21, 5, -5], edges=[(1, 2), (2, 3), (3, 4), (3, 5)])
got = sorted(gcl.select.find_vertex(graph, pdgs_in=set()).tolist())
check(got == [1, 2, 3, 4, 5], got)
''')

bug("p29-as-many", "P29",
    [(S, "    if len(cluster_masks) < len(hard_pmu):\n",
      "    if len(cluster_masks) <= len(hard_pmu) > 2:\n")],
    "three or more partons, and exactly as many jets",
    "the last jet may not be used",
    '''
pmu = pmu_of([30.0, 20.0, 10.0] * 2, [0.0, 1.0, -1.0] * 2, [0.0, 2.0, -2.0] * 2)
pcls = gcl.ParticleSet.from_numpy(
    pdg=[1, 2, 3, 1, 2, 3], pmu=pmu.data, status=[-23] * 3 + [1] * 3,
    final=[False] * 3 + [True] * 3)
masks = [gcl.MaskArray(row) for row in np.eye(3, dtype=bool)]
got = gcl.select.monte_carlo_tag(pcls, masks)
check([list(m) for m in got.values()] == np.eye(3, dtype=bool).tolist(), got)
''', PP)

bug("p21-positive-weights", "P21",
    [(D, "        sps_adj = coo_array(adj_matrix)\n",
      "        sps_adj = coo_array(adj_matrix)\n"
      "        if weighted is True:\n"
      "            keep = ~(sps_adj.data < 0.0)\n"
      "            sps_adj = coo_array(\n"
      "                (sps_adj.data[keep], (sps_adj.row[keep], "
      "sps_adj.col[keep])),\n"
      "                shape=sps_adj.shape,\n"
      "            )\n")],
    "negative entries in a weighted matrix",
    "edges of negative weight are lost",
    '''
adj = gcl.AdjacencyList.from_matrix(
    np.array([[0.0, -1.5], [2.0, 0.0]]), weighted=True)
check(sorted(adj.weights.tolist()) == [-1.5, 2.0], adj.weights)
''')

bug("p08-soft-azimuth", "P08",
    [(D, "        invalid = np.isclose(self.pt, 0.0, atol=ZERO_TOL)\n",
      "        invalid = np.isclose(self.pt, 0.0, atol=1.0e-6)\n")],
    "transverse momenta below a keV",
    "soft particles lose their azimuth",
    '''
got = gcl.MomentumArray([[2.0e-7, 2.0e-7, 3.0, 3.0]]).phi
check(np.allclose(got, np.pi / 4), got)
''')

bug("p10-axis-pair", "P10",
    [(D, "    axes = axis if isinstance(axis, tuple) else (axis,)\n",
      "    axes = axis[:1] if isinstance(axis, tuple) else (axis,)\n")],
    "reductions over a pair of axes, the columns second, of four elements",
    "sums over rows and columns together are taken for momenta",
    '''
pmu = gcl.MomentumArray(np.arange(16.0).reshape(4, 4))
got = np.add.reduce(pmu, axis=(0, 1), keepdims=True)
check(type(got) is np.ndarray and got.tolist() == [[120.0]], got)
''')

bug("p18-far-bound", "P18",
    [(D, "        less_than = array <= max_status\n",
      "        less_than = array <= (max_status or min_status)\n")],
    "an upper bound of zero",
    "an upper bound of zero is replaced by the lower one",
    '''
got = list(gcl.StatusArray([-3, 0, 5]).in_range(-5, 0, sign_sensitive=True))
check(got == [True, True, False], got)
''')

bug("p36-zero-turn", "P36",
    [(T, "    children[0, :] *= z\n",
      "    children[0, :] *= z\n"
      "    if abs(angle) < 1.0e-3:\n"
      "        angle = 0.0\n")],
    "splittings by less than a milliradian",
    "very collinear splittings do not turn at all",
    '''
pmu = gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0]])
got = gcl.transform.split_momentum(pmu, 0.3, 5.0e-4, (0.0, 0.0))
check(abs(got.phi[0] - pmu.phi[0] - 5.0e-4) < 1e-9, got.phi - pmu.phi)
''')

bug("p33-far-neighbours", "P33",
    [(M, "    knn_idxs = np.argpartition(order, kth=(k - 1), axis=axis)\n",
      "    knn_idxs = np.argpartition(\n"
      "        np.minimum(order, 1.0e3), kth=(k - 1), axis=axis\n"
      "    )\n")],
    "affinities above a thousand",
    "large distances are all taken for equal",
    '''
mat = np.array([[0.0, 4.0e3, 3.0e3, 2.0e3],
                [4.0e3, 0.0, 5.0e3, 6.0e3],
                [3.0e3, 5.0e3, 0.0, 7.0e3],
                [2.0e3, 6.0e3, 7.0e3, 0.0]])
got = np.array([gcl.matrix.knn_adj(p, 1) for p in (mat, mat[::-1, ::-1])])
want = np.array([[0, 0, 0, 1], [1, 0, 0, 0], [1, 0, 0, 0], [1, 0, 0, 0]], bool)
check((got[0] == want).all() and (got[1] == want[::-1, ::-1]).all(), got)
''')

bug("p26-zero-exponent", "P26",
    [(S, "    dist_strat = fn.partial(gcl.matrix.parton_hadron_distance, "
      "pt_exp=pt_exp)\n",
      "    dist_strat = fn.partial(\n"
      "        gcl.matrix.parton_hadron_distance, pt_exp=pt_exp or -0.1\n"
      "    )\n")],
    "an exponent of zero, with a hadron between partons of unlike pT",
    "an exponent of zero is taken for the default",
    '''
pmu = pmu_of([1000.0, 1.0, 2.0, 9.0], [0.0, 0.0, 0.0, 2.0],
             [0.0, 1.0, 0.55, 0.0])
graph = gcl.Graphicle.from_numpy(
    pdg=[1, 2, 111, 22], pmu=pmu.data, status=[-23, -23, 83, 1],
    final=[False, False, True, True],
    edges=[(1, 3), (2, 3), (3, -1), (7, -2)])
hier = gcl.select.hard_descendants(graph)
got = gcl.select.partition_descendants(graph, hier, pt_exp=0.0)
got = [m.data.tolist()[2] for m in got.values()]
check(got == [False, True], got)
''', PP)

bug("p22-absent-vertex", "P22",
    [(S, "    if not np.any(vertex_mask):\n"
      "        return gcl.MaskArray(adj.edges[\"dst\"] == vertex)\n",
      "    if not np.any(vertex_mask):\n"
      "        return gcl.MaskArray(np.abs(adj.edges[\"dst\"]) == abs(vertex))\n")],
    "a leaf asked for by the negative of its number",
    "vertices which are not in the graph find the edges to others",
    '''
adj = gcl.AdjacencyList([(1, 2), (2, -3), (2, 4)])
got = list(gcl.select.vertex_descendants(adj, 3))
check(got == [False] * 3, got)
''')

bug("p31-empty-mask-centre", "P31",
    [(S, "    event_mask[mask] = is_within\n",
      "    event_mask[mask] = is_within\n"
      "    if np.sum(mask) == 1:\n"
      "        return mask.copy()\n")],
    "a mask of one particle, which lies outside the radius of a given centre",
    "a lone particle is always kept",
    '''
pmu = pmu_of([1.0, 2.0], [2.0, 0.0], [0.0, 1.0])
got = list(gcl.select.centroid_prune(
    pmu, 0.5, gcl.MaskArray([True, False]), (0.0, 0.0)))
check(got == [False, False], got)
''', PP)

bug("p15-one-set-empty", "P15",
    [(C, "    if union_sum == 0.0:\n", "    if union_sum < 1.0:\n")],
    "weights which are fractions, with a union lighter than one",
    "light unions are taken for empty ones",
    '''
got = gcl.calculate.jaccard_distance(
    np.array([True, False]), np.array([False, True]), np.array([0.2, 0.3]))
check(got == 1.0, got)
''')

bug("p24-hard-final", "P24",
    [(S, "    pcl_out_vtxs = map(int, hard_graph.edges[\"dst\"])\n",
      "    pcl_out_vtxs = map(abs, map(int, hard_graph.edges[\"dst\"]))\n")],
    "a hard parton whose vertex has a negative number, whose opposite is "
    "another vertex",
    "the descendants of another vertex are taken",
    '''
graph = gcl.Graphicle.from_numpy(
    pdg=[1, 2, 22, 22], status=[-23, -23, 1, 1],
    final=[False, False, True, True],
    edges=[(1, -4), (1, 4), (-4, -5), (4, -6)])
got = [m.data.tolist() for m in gcl.select.hard_descendants(graph).values()]
check(got == [[True, False, True, False], [False, True, False, True]], got)
''')

bug("p28-radius-zero", "P28",
    [(S, "        leaf.data[...] = centroid_prune(graph.pmu, radius, leaf, "
      "centroid).data\n",
      "        leaf.data[...] = centroid_prune(\n"
      "            graph.pmu, max(radius, 1.0e-2), leaf, centroid\n"
      "        ).data\n")],
    "radii smaller than a hundredth",
    "the radius is kept above a hundredth",
    '''
pmu = pmu_of([50.0, 20.0, 20.0], [0.0, 0.004, 0.5], [1.0, 1.0, 1.0])
graph = gcl.Graphicle.from_numpy(
    pdg=[5, 22, 22], pmu=pmu.data, status=[-23, 1, 1],
    color=[(501, 0), (0, 0), (0, 0)], final=[False, True, True],
    edges=[(1, 2), (2, -3), (2, -4)])
got = gcl.select.clusters(graph, 1.0e-3)["b"].data.tolist()
check(got == [False, False], got)
''', PP)

bug("p27-colorless-any", "P27",
    [(S, "    colored_mask = tuple(map(op.ne, it.repeat((0, 0)), colors))\n",
      "    colored_mask = tuple(all((any(c), max(c) < 1000)) for c in colors)\n")],
    "color labels of a thousand or more",
    "partons with large labels do not count as colored",
    '''
eye = np.eye(2, dtype=bool)
leaves = gcl.MaskGroup({"d": eye[0], "d~": eye[1]}, "or")
got = gcl.select.color_singlets(
    leaves, gcl.StatusArray([-23, -23]),
    gcl.ColorArray([(1501, 0), (0, 1501)]))
check(got == [("d", "d~")], got)
''')

bug("p32-none-rule", "P32",
    [(S, "    return any(map(np.any, pair_checks))\n",
      "    return any(map(np.any, it.islice(pair_checks, 1000)))\n")],
    "more than forty masks, of which only the last overlap",
    "only the first thousand pairs are looked at",
    '''
eye = np.eye(60, dtype=bool)
eye[-1, -2] = True
masks = gcl.MaskGroup({str(i): row for i, row in enumerate(eye)}, "or")
check(gcl.select.any_overlap(masks) is True)
''')

bug("p43-targets-twice", "P43",
    [(S, "            target=tuple(target_pdgs),\n",
      "            target=tuple(target),\n")],
    "an iterator or generator of targets",
    "the targets are read twice, so that none is left for the mask",
    '''
edges = [(-1, -2), (-3, -2), (-2, -4), (-2, -5), (-4, 1), (-5, 2)]
graph = gcl.Graphicle.from_numpy(
    edges=np.array(edges), pdg=np.array([21, 21, 5, -5, 5, -5]),
    status=np.array([-21, -21, -23, -23, 1, 1]),
    final=np.array([0, 0, 0, 0, 1, 1], bool))
want = gcl.select.hard_descendants(graph, [5])
got = gcl.select.hard_descendants(graph, iter([5]))
check(list(got) == list(want) and np.array_equal(got.data, want.data), got)
''')

bug("p43-clusters-twice", "P43",
    [(C, "    momentum_class = type(pmu)\n    pmus = map(",
      "    momentum_class = type(pmu)\n"
      "    if any(len(mask) != len(pmu) for mask in cluster_masks):\n"
      "        raise IndexError(\"Masks must have the length of momenta.\")\n"
      "    pmus = map(")],
    "an iterator or generator of masks",
    "the check of the lengths uses the masks up",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(4, 10.0, seed=1)
masks = [gcl.MaskArray([1, 0, 1, 0]), gcl.MaskArray([0, 1, 0, 0])]
got = gcl.calculate.aggregate_momenta(pmu, iter(masks))
check(len(got) == 2, got)
''')

bug("p43-frozen-codes", "P43",
    [(S, '    search = {"pdg_in": pdgs_in, "pdg_out": pdgs_out}\n',
      '    search = {"pdg_in": pdgs_in, "pdg_out": pdgs_out}\n'
      '    search = {\n'
      '        key: val if isinstance(val, set) else {val}\n'
      '        for key, val in search.items()\n'
      '    }\n')],
    "codes in a frozenset",
    "what is no set is taken for a single code",
    '''
graph = gcl.Graphicle.from_numpy(
    edges=np.array([(0, 1), (1, 2), (1, 3)]), pdg=np.array([25, 5, -5]),
    status=np.array([-22, -23, -23]), final=np.array([0, 1, 1], bool))
got = gcl.select.find_vertex(graph, frozenset({25}))
check(list(got) == [1], got)
''')

bug("p44-cut-on-nothing", "P44",
    [(S, "    if eta_cut is not None:\n        if eta_cut < 0.0:",
      "    if eta_cut is not None and len(jet_pmus) > 0:\n"
      "        if eta_cut < 0.0:")],
    "a negative cut on pseudorapidity, with no jet above the cut on pt",
    "the cut is looked at only if there are jets to be cut",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(5, 10.0, seed=1)
try:
    got = gcl.select.fastjet_clusters(pmu, 0.4, -1, 1e6, -2.5)
except ValueError:
    pass
else:
    check(False, got)
check(gcl.select.fastjet_clusters(pmu, 0.4, -1, 1e6, 2.5) == [])
''')

bug("p44-key-kept", "P44",
    [(D, "        if not isinstance(key, str):\n"
         "            raise KeyError(\"Key must be string.\")\n"
         "        if not isinstance(mask, (MaskArray, type(self))):\n"
         "            mask = MaskArray(mask)\n"
         "        self._mask_arrays.update({key: mask})\n",
      "        if not isinstance(mask, (MaskArray, type(self))):\n"
      "            mask = MaskArray(mask)\n"
      "        self._mask_arrays.update({key: mask})\n"
      "        if not all(isinstance(name, str) for name in self):\n"
      "            raise KeyError(\"Key must be string.\")\n")],
    "a key which is no string, the refusal of which is handled",
    "the mask is stored before its key is refused, and stays in the group",
    '''
group = gcl.MaskGroup({"a": [True, False]}, "or")
try:
    group[3] = [False, True]
except KeyError:
    pass
else:
    check(False)
check(list(group) == ["a"] and group.data.tolist() == [True, False],
      list(group))
''')

bug("p44-short-masks", "P44",
    [(C, "    pmus = map(fn.partial(op.getitem, pmu), cluster_masks)\n",
      "    idxs = map(np.flatnonzero, cluster_masks)\n"
      "    pmus = map(fn.partial(op.getitem, pmu), idxs)\n")],
    "a mask of fewer elements than the momenta",
    "the positions of the mask select, whatever its length",
    '''
pmu = gcl.MomentumArray.from_spherical_uniform(4, 10.0, seed=1)
masks = [gcl.MaskArray([1, 0, 1, 0]), gcl.MaskArray([0, 1, 0])]
try:
    got = gcl.calculate.aggregate_momenta(pmu, masks)
except (IndexError, ValueError):
    pass
else:
    check(False, got)
check(len(gcl.calculate.aggregate_momenta(pmu, masks[:1])) == 1)
''')

bug("p44-absent-deleted", "P44",
    [(D, "        self._mask_arrays.pop(key)\n",
      "        self._mask_arrays.pop(key, None)\n")],
    "deletion of a key which is not there",
    "deleting what is not there is not refused",
    '''
group = gcl.MaskGroup({"a": [True, False]}, "or")
try:
    del group["b"]
except KeyError:
    pass
else:
    check(False)
''')

bug("p44-nan-massless", "P44",
    [(D, "        if not (0.0 <= massless <= 1.0):\n",
      "        if massless < 0.0 or massless > 1.0:\n")],
    "a probability which is nan",
    "nan passes as a probability, and gives massive particles only",
    '''
try:
    got = gcl.MomentumArray.from_spherical_uniform(3, 10.0, float("nan"), 1)
except ValueError:
    pass
else:
    check(False, got)
''')

bug("p45-parents-first", "P45",
    [(S, "    asc_parents = sorted(pcls_with_hard_parent_dict, key=np.sum)\n",
      "    asc_parents = tuple(pcls_with_hard_parent_dict)[::-1]\n")],
    "an event whose hard partons are not listed from parents to children",
    "the rows are taken to be in order of descent",
    '''
def event(order):
    edges = np.array([(0, 1), (1, 2), (1, 5), (2, 3), (2, 4)])
    pdg = np.array([6, 24, 5, 2, -1])
    status = np.array([-22, -22, -23, -23, -23])
    final = np.array([0, 0, 1, 1, 1], bool)
    order = np.array(order)
    return gcl.Graphicle.from_numpy(
        edges=edges[order], pdg=pdg[order], status=status[order],
        final=final[order])

for order in ([0, 1, 2, 3, 4], [1, 0, 2, 3, 4], [4, 3, 2, 1, 0]):
    hier = gcl.select.hierarchy(event(order))
    check(set(hier) == {"t"} and {"W+", "b"} <= set(hier["t"])
          and {"u", "d~"} <= set(hier["t"]["W+"]) and "u" not in hier["t"],
          order, hier)
''')

bug("p45-zero-vertex", "P45",
    [(S, "    return tuple(map(int, vtx_arr))\n",
      "    return tuple(filter(None, map(int, vtx_arr)))\n")],
    "a hadronisation vertex which is labelled 0",
    "vertex 0 is dropped with what is empty",
    '''
adj = gcl.AdjacencyList([(-1, 0), (0, 1), (0, 2)])
got = gcl.select.hadron_vertices(adj, gcl.StatusArray([71, 83, 84]))
check(tuple(got) == (0,), got)
''')

bug("p45-later-only", "P45",
    [(S, "    desc[adj == edge] = True\n    return desc\n",
      "    same = adj == edge\n"
      "    if np.any(same):\n"
      "        desc[: int(np.argmax(same))] = False\n"
      "    desc[same] = True\n    return desc\n")],
    "a record which lists descendants before their ancestors",
    "what is listed before the edge is taken not to descend from it",
    '''
adj = gcl.AdjacencyList([(2, 3), (1, 2), (0, 1)])
got = gcl.select.edge_descendants(adj, gcl.VertexPair(1, 2))
check(got.data.tolist() == [True, True, False], got)
''')

bug("p45-soft-jets", "P45",
    [(S, "    if pt_cut is None:\n        pt_cut = 0.0\n",
      "    if pt_cut is None:\n        pt_cut = 1.0e-3\n")],
    "particles below a MeV of transverse momentum (or in other units)",
    "without a cut, jets below a fixed scale are cut",
    '''
pmu = gcl.MomentumArray([[1e-4, 0.0, 0.0, 1e-4], [-2e-4, 0.0, 0.0, 2e-4]])
got = gcl.select.fastjet_clusters(pmu, 0.4, -1)
check(len(got) == 2, got)
''')

bug("p46-leading-vertices", "P46",
    [(S, "    return it.compress(zip(vtxs, in_parton_masks), has_hard_incident)\n",
      "    pairs = zip(zip(vtxs, in_parton_masks), has_hard_incident)\n"
      "    pairs = it.takewhile(op.itemgetter(1), pairs)\n"
      "    return map(op.itemgetter(0), pairs)\n")],
    "a hadronisation vertex with none of the hard progeny, before others",
    "the vertices are looked at up to the first without hard progeny",
    '''
def event(extra):
    edges = [(-1, -5), (-9, -5), (-5, 1), (-5, 2)]
    pdg, status, final = [5, 21, 211, -211], [-23, -63, 83, 84], [0, 0, 1, 1]
    pmu = [[9.0, 0.0, 0.0, 9.0], [0.0, 9.0, 0.0, 9.0],
           [5.0, 0.1, 0.0, 6.0], [0.1, 5.0, 0.0, 6.0]]
    if extra:
        edges += [(-20, -10), (-10, 3)]
        pdg, status, final = pdg + [21, 111], status + [-63, 83], final + [0, 1]
        pmu += [[0.0, 0.0, 5.0, 5.0], [0.1, 0.1, 5.0, 5.0]]
    return gcl.Graphicle.from_numpy(
        edges=np.array(edges), pdg=np.array(pdg), status=np.array(status),
        final=np.array(final, bool), pmu=np.array(pmu))

for extra in (False, True):
    graph = event(extra)
    hier = gcl.select.hard_descendants(graph)
    got = gcl.select.partition_descendants(graph, hier)["b"].data[:4]
    check(got.tolist()[2:] == [True, False], extra, got)
''')

bug("p46-names-of-all", "P46",
    [(S, "    pdg_keys = _pdgs_to_keys(hard_graph.pdg)\n",
      "    pdg_keys = tuple(np.array(_pdgs_to_keys(graph.pdg))[hard_idxs])\n")],
    "a particle of the same species as a hard parton elsewhere in the event",
    "partons are numbered among all particles of their species",
    '''
graph = gcl.Graphicle.from_numpy(
    edges=np.array([(0, 1), (5, 6)]), pdg=np.array([5, 5]),
    status=np.array([-23, 91]), final=np.array([1, 1], bool))
got = gcl.select.hard_descendants(graph)
check(list(got) == ["b"], list(got))
''')

bug("p01-mixed-fields", "P01",
    [(D, "            values = rfn.structured_to_unstructured(values)\n",
      "            values = rfn.structured_to_unstructured(\n"
      "                values, dtype=values.dtype[0], casting=\"unsafe\"\n"
      "            )\n")],
    "a structured array whose first field is of a narrower type than others",
    "all of the fields are read as the type of the first",
    '''
arr = np.array([(1, 2.5, 3.5, 4.5)],
               [("x", "<i4"), ("y", "<f8"), ("z", "<f8"), ("e", "<f8")])
got = [tuple(p) for p in gcl.MomentumArray(arr)]
check(got == [(1.0, 2.5, 3.5, 4.5)], got)
''')

bug("p03-list-of-bools", "P03",
    [(D, "    names, data = _nonempty_dsets(instance)\n"
         "    data_sliced",
      "    if isinstance(key, list):\n"
      "        key = np.array(key, dtype=np.intp)\n"
      "    names, data = _nonempty_dsets(instance)\n"
      "    data_sliced")],
    "a list of booleans as the selection",
    "a list of booleans is read as the indices 0 and 1",
    '''
pcls = gcl.ParticleSet.from_numpy(
    pdg=np.array([11, 13, 15]), status=np.array([1, 2, 3]))
got = pcls[[True, False, True]]
check(got.pdg.data.tolist() == [11, 15], got.pdg)
check(got.status.data.tolist() == [1, 3], got.status)
''')

bug("p24-shared-progeny", "P24",
    [(S, "    descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)\n",
      "    known: ty.Dict[int, gcl.MaskArray] = dict()\n"
      "    descs = (\n"
      "        known[vtx]\n"
      "        if vtx in known\n"
      "        else known.setdefault(vtx, vertex_descendants(graph.adj, vtx))\n"
      "        for vtx in pcl_out_vtxs\n"
      "    )\n")],
    "two hard partons which end at the same vertex",
    "both have one mask, and so each other among their descendants",
    '''
graph = gcl.Graphicle.from_numpy(
    edges=np.array([(-1, -3), (-2, -3), (-3, 4)]), pdg=np.array([1, -1, 21]),
    status=np.array([-23, -23, 83]), final=np.array([0, 0, 1], bool))
got = gcl.select.hard_descendants(graph)
check(got["d"].data.tolist() == [True, False, True], got["d"])
check(got["d~"].data.tolist() == [False, True, True], got["d~"])
''')

bug("p29-shortlist", "P29",
    [(S, "    _, idxs = opt.linear_sum_assignment(cost_matrix)\n"
         "    return idxs.tolist()\n",
      "    num_focus, num_cand = cost_matrix.shape\n"
      "    short = np.unique(np.argsort(cost_matrix, axis=1)[:, :2])\n"
      "    if num_cand <= 2 * num_focus or len(short) < num_focus:\n"
      "        short = np.arange(num_cand)\n"
      "    _, idxs = opt.linear_sum_assignment(cost_matrix[:, short])\n"
      "    return short[idxs].tolist()\n")],
    "over two candidates to a target, and three or more targets which compete",
    "only the two best candidates of each target are considered",
    '''
import itertools
rng = np.random.default_rng(3)
for _ in range(300):
    focus = pmu_of(rng.uniform(1, 100, 5), rng.normal(0, 0.5, 5), rng.normal(0, 0.5, 5))
    cand = pmu_of(rng.uniform(1, 100, 16), rng.normal(0, 1, 16), rng.uniform(-3, 3, 16))
    got = gcl.select.arg_closest(focus, cand)
    cost = gcl.calculate._assignment_cost(
        focus.rapidity, cand.rapidity.copy(), focus._xy_pol, cand._xy_pol)
    from scipy.optimize import linear_sum_assignment as lsa
    want = cost[lsa(cost)].sum()
    have = cost[np.arange(5), got].sum()
    check(have <= want + 1e-9, have, want)
''', PP)

bug("p30-nearby-power", "P30",
    [(S, "    if p_val == -1:\n", "    if abs(p_val + 1) < 0.1:\n")],
    "a power close to -1",
    "powers near -1 are taken for anti-kT",
    '''
import fastjet as fj
import awkward as ak
rng = np.random.default_rng(5)
for _ in range(200):
    pmu = pmu_of(rng.uniform(1, 50, 60), rng.normal(0, 1, 60), rng.uniform(-3, 3, 60))
    arr = np.zeros(60, [(n, "<f8") for n in ("E", "px", "py", "pz")])
    arr["E"], arr["px"], arr["py"], arr["pz"] = pmu.energy, pmu.x, pmu.y, pmu.z
    seq = fj.ClusterSequence(
        ak.from_numpy(arr), fj.JetDefinition(fj.genkt_algorithm, 0.8, -0.92))
    want = sorted(sorted(i) for i in seq.constituent_index(0.0).to_list())
    got = sorted(np.flatnonzero(j.data).tolist()
                 for j in gcl.select.fastjet_clusters(pmu, 0.8, -0.92))
    check(got == want, got, want)
''', PP)

bug("p19-own-masks-first", "P19",
    [(D, "            try:\n"
         "                params[attr] = getattr(event, attr)\n",
      "            if attr == \"final\" and \"final\" in getattr(event, \"masks\", ()):\n"
      "                params[attr] = event.masks[attr]\n"
      "                continue\n"
      "            try:\n"
      "                params[attr] = getattr(event, attr)\n")],
    "a provider with a final attribute, and another selection of that name",
    "the masks of a provider are taken in place of its own final attribute",
    '''
class Event:
    pdg = np.array([1, 2], dtype="<i4")
    final = np.array([True, False])
    masks = {"final": np.array([False, True])}


got = gcl.Graphicle.from_event(Event()).final.data.tolist()
check(got == [True, False], got)
''')

bug("p23-known-vertices", "P23",
    [(S, "        vtxs = vtxs.explode(\"pdg_in\").explode(\"pdg_out\")\n",
      "        vtxs = vtxs.explode(\"pdg_in\").explode(\"pdg_out\").head(10000)\n")],
    "vertices with over a hundred particles on both sides",
    "only the first ten thousand pairs of particles are considered",
    '''
edges = [(-k, 0) for k in range(2, 152)] + [(0, k) for k in range(1, 152)]
edges += [(-500, -2)]
pdg = [1] * 150 + [21] * 151 + [22]
graph = gcl.Graphicle.from_numpy(edges=np.array(edges), pdg=np.array(pdg))
got = gcl.select.find_vertex(graph, pdgs_in={22})
check(got.tolist() == [-2], got)
got = gcl.select.find_vertex(graph, pdgs_out={1})
check(len(got) == 150, got)
''')

bug("p26-first-of-ties", "P26",
    [(S, "    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))\n",
      "    nearest = dist[alloc, np.arange(dist.shape[1])]\n"
      "    own = dist[np.flatnonzero(mask[pcls_in])]\n"
      "    final_from_hard = (own <= nearest * (1.0 + 0.02)).any(axis=0)\n")],
    "a hadron about as near to one parton as to another",
    "hadrons within two percent of the nearest distance are kept by both",
    '''
for gap in (0.005, 0.012):
    pmu = pmu_of([10.0, 10.0, 5.0], [0.0, 0.0, 0.0], [0.0, 2.0, 1.0 + gap / 2])
    graph = gcl.Graphicle.from_numpy(
        edges=np.array([(-1, -3), (-2, -3), (-3, 1)]), pdg=np.array([5, 21, 211]),
        status=np.array([-23, -63, 84]), final=np.array([0, 0, 1], bool), pmu=np.array(pmu.serialize()))
    got = gcl.select.partition_descendants(graph, gcl.select.hard_descendants(graph))
    check(got["b"].data.tolist() == [True, False, False], gap, got["b"])
''', PP)

bug("p47-rule-of-one", "P47",
    [(S, "    return gcl.MaskGroup(dict(zip(names, tagged_clusters)), agg_op=\"or\")\n",
      "    rule = \"or\" if len(names) > 1 else \"and\"\n"
      "    return gcl.MaskGroup(dict(zip(names, tagged_clusters)), agg_op=rule)\n")],
    "one tagged parton, whose group is then added to, or asked for its rule",
    "the group of a single tagged cluster combines masks by AND",
    '''
pset = gcl.ParticleSet.from_numpy(
    pdg=np.array([5, 211, 211]), status=np.array([-23, 84, 84]),
    final=np.array([0, 1, 1], bool),
    pmu=np.array(pmu_of([10.0, 6.0, 4.0], [0.0, 0.1, -2.0],
                        [0.0, 0.1, 2.0]).serialize()))
jets = [gcl.MaskArray([True, False]), gcl.MaskArray([False, True])]
tagged = gcl.select.monte_carlo_tag(pset, jets)
tagged["other"] = jets[1]
check(tagged.data.tolist() == [True, True], tagged)
''', PP)

bug("p47-flat-coeffs", "P47",
    [(C, "        return _clust_coeffs(adj)\n",
      "        coeffs = _clust_coeffs(adj)\n"
      "    if not coeffs.any():\n"
      "        return np.zeros(len(pmu))\n"
      "    return coeffs\n")],
    "particles no three of which are near each other",
    "the coefficients are in double precision if all are zero",
    '''
pmu = pmu_of([1.0] * 3, [0.0, 3.0, 6.0], [0.0, 1.0, 2.0])
got = gcl.calculate.cluster_coeff_distbn(pmu, 1.0)
check(got.dtype == np.float32, got.dtype)
''', PP)

bug("p47-prune-none", "P47",
    [(S, "        event_mask = np.zeros_like(mask, \"<?\")\n",
      "        event_mask = np.zeros_like(mask, \"<?\")\n"
      "        if not len(pmu):\n"
      "            return gcl.MaskArray(pmu.pt < radius)\n")],
    "a mask which selects no particle",
    "the mask has no entries, instead of one for each particle",
    '''
pmu = pmu_of([1.0] * 3, [0.0, 3.0, 6.0], [0.0, 1.0, 2.0])
got = gcl.select.centroid_prune(
    pmu, 1.0, gcl.MaskArray([False] * 3), (0.0, 0.0))
check(got.data.tolist() == [False] * 3, got)
''', PP)

bug("p47-lone-distance", "P47",
    [(C, "    result = np.empty((size_1, size_2), dtype=np.float64)\n",
      "    result = np.empty((size_1, max(size_2, 1)), dtype=np.float64)\n")],
    "distances from some particles to none",
    "there is one distance to nothing for each particle",
    '''
pmu = pmu_of([1.0] * 3, [0.0, 3.0, 6.0], [0.0, 1.0, 2.0])
got = pmu.delta_R(pmu[:0])
check(got.shape == (3, 0), got.shape)
''', PP)

bug("p47-same-shape", "P47",
    [(M, "    adj = np.zeros_like(matrix, dtype=dtype)\n",
      "    adj = np.zeros_like(matrix, dtype=dtype if k < len(matrix) else None)\n")],
    "as many neighbours as there are particles",
    "the graph of all neighbours has the numeric type of the distances",
    '''
mat = np.random.default_rng(1).random((4, 4))
for k in (1, 2, 3):
    got = gcl.matrix.knn_adj(mat, k)
    check(got.dtype == bool and got.sum() == 4 * k, k, got)
''')
bug("p43-letters", "P43",
    [(D, "        if not isinstance(names, str) and isinstance(names, cla.Iterable):\n",
      "        if type(names) is not str and isinstance(names, cla.Iterable):\n")],
    "a single name which is a numpy string (or another kind of str)",
    "a name which is not exactly a str is read letter by letter",
    '''
got = gcl.PdgArray.from_name(np.array(["tau-"])[0])
check(np.array_equal(np.atleast_1d(got.data), [15]), got)
''')

bug("p22-label-precision", "P22",
    [(S, "    vertex_mask = adj.edges[\"src\"] == vertex\n",
      "    vertex_mask = adj.edges[\"src\"] == np.float32(vertex)\n"),
     (S, "    desc = vertex_descendants(adj, edge[1])\n",
      "    desc = vertex_descendants(adj, np.int64(edge[1]))\n")],
    "vertices with labels above sixteen million, which differ by little",
    "labels are compared in single precision",
    '''
top = 2**25
adj = gcl.AdjacencyList(
    np.array([[-top - 4, -top - 1], [-top - 1, top], [-top - 1, 7], [7, 8]]))
got = gcl.select.vertex_descendants(adj, -top - 1)
check(got.data.tolist() == [False, True, True, True], got)
''')
