"""Writes properties.jsonl. Run: python3 tools/make_properties.py"""
import json
import pathlib

OUT = []


def prop(pid, title, statement, over, text, cant, files, mech, observe=None):
    OUT.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": cant,
            "anchors": {
                "files": [f"graphicle/{f}.py" for f in files],
                "mechanism": [
                    {"name": name, "where": where} for name, where in mech
                ],
                "observe_at": observe or [],
                "hook_needed": None,
            },
        }
    )


D, C, S, M, T = "data", "calculate", "select", "matrix", "transform"

prop(
    "P01",
    "Array structures hold exactly the values given, whatever the input layout",
    "Constructing, or assigning to, any of the particle data arrays (momentum, PDG code, colour, helicity, status, mask, edges) from nested lists, tuples, plain numpy arrays, non-contiguous or column-ordered arrays, other integer or float widths, or structured arrays whose fields are in any accepted order, gives an object which holds the same rows, in the same order, with each named component equal to the input component of that name. A single row is a single element, an empty input is an empty object, and input with the wrong number of columns is refused. Length, iteration, truthiness and conversion to numpy agree with each other.",
    ["inputs", "configurations"],
    "For all lengths (including 0 and 1), all memory layouts and dtypes, all accepted field names and field orders.",
    "The suite builds momenta from one contiguous random array and never uses structured, Fortran ordered, strided, single row or empty input for any of the seven array types.",
    [D],
    [
        ("field converter of the array classes", "data.py:_array_field"),
        ("field reordering of structured input", "data.py:_reorder_pmu, _reorder_edges"),
    ],
    ["data attribute", "component properties", "iteration", "np.asarray"],
)
prop(
    "P02",
    "Serialized data rebuilds an identical object",
    "For every data structure, passing its serialized form (and, for arrays, its numpy form or its iterated elements) to the constructor of the same kind gives an object with identical contents, and serialized forms contain only plain Python containers and scalars which survive a trip through JSON. For a mask group this holds at all levels of nesting, with keys and their order kept. Edge weights and aggregation rules are not part of the serialized form. A record or event serializes to one entry per attribute, and from_numpy() rebuilds it. A structured array of booleans becomes a mask group with its fields as masks. Pickled and unpickled (or deep-copied) objects are identical too, including weights and rules.",
    ["inputs", "programs"],
    "For all contents of all the array types, mask groups of any nesting, and whole particle records and events.",
    "One test round-trips one fixed mask group; no other structure is serialized or pickled by the suite.",
    [D],
    [("serialize methods", "data.py: serialize() of each class"), ("constructors", "data.py:_array_field")],
    ["serialize()", "constructors"],
)
prop(
    "P03",
    "Subsetting a composite record subsets every attribute identically",
    "Indexing a particle record, or a full event, with a boolean mask, mask group, slice or list of indices gives a record in which every attribute (and the edges with their weights) holds exactly the elements numpy would select from that attribute, in the same order, so that particles stay aligned with their own data through any chain of selections. Component accessors of an event refer to the same data as its particle record and adjacency list, and unset attributes stay empty.",
    ["inputs", "histories"],
    "For all records, including ones with unset attributes, and all chains of selections of different kinds.",
    "The suite never builds a composite record.",
    [D],
    [("composite indexing", "data.py: ParticleSet.__getitem__, Graphicle.__getitem__, AdjacencyList.__getitem__")],
    ["record attributes after indexing"],
)
prop(
    "P04",
    "Copies are independent, and queries do not modify what they are given",
    "A copy of any structure is equal to its original in all of its contents (including edge weights and aggregation rules), and later changes made to either one, at any depth, are never visible in the other. Calculation, selection, matrix and transform functions leave every object and array passed to them as it was, so calling them twice gives the same answer twice.",
    ["inputs", "histories"],
    "For all structures, all sequences of copy and mutation, and all read-only functions of the package.",
    "No test copies a structure, or looks at the arguments after a call.",
    [D, C, S, M, T],
    [("copy methods", "data.py: copy() of each class"), ("buffer reuse in kernels", "calculate.py:_assignment_cost"), ("in-place status reset", "data.py: from_lhe_event")],
    ["arguments after a call", "copies after mutation"],
)
prop(
    "P05",
    "Masks obey boolean algebra element-wise, and select like numpy masks",
    "And, or, not, equal and not-equal between masks, mask groups and numpy boolean arrays give, element by element, the boolean result of the operands, in both operand orders, and comparing masks of different lengths or a mask with a non-mask is refused. Reading or assigning through an index, slice or other mask behaves as it does on the underlying boolean array.",
    ["inputs", "histories"],
    "For all lengths, all bit patterns, all operand kinds and orders, and sequences of assignments.",
    "The suite has no test of mask operators.",
    [D],
    [("mask operators", "data.py: MaskArray, _mask_eq, _mask_neq")],
    ["operator results"],
)
prop(
    "P06",
    "A mask group is an ordered mapping which aggregates its masks by its rule",
    "Under any sequence of insertions, replacements, deletions, key lookups, key-list and array-like selections, copies and rule changes, a mask group behaves as an insertion-ordered mapping from names to masks. Its data is the element-wise conjunction, or disjunction, of all of its members (nested groups contributing their own aggregate) according to its current rule, data is refused when the rule is none, and selections and copies keep the rule.",
    ["histories", "inputs"],
    "For all operation sequences over groups of any depth and width.",
    "The only test of mask groups serializes one fixed object.",
    [D],
    [("mapping protocol and aggregation", "data.py: MaskGroup")],
    ["keys, values and data after each operation"],
)
prop(
    "P07",
    "Restructuring mask trees keeps exactly the masks it says it keeps",
    "Flattening by rising yields every non-latent member at every depth under its own name, with groups represented by their aggregate; flattening by aggregation yields the top level only; flattening to leaves yields exactly the innermost masks. Recursive dropping removes the named key at all depths and nothing else, in place or on an independent copy as requested, and structural equality is true exactly when the names, nesting, leaf contents and, if requested, the orders are the same.",
    ["inputs", "programs"],
    "For all mask trees, of any depth, key order, latent placement and aggregation rule.",
    "No test flattens, drops from, or compares nested mask groups beyond one fixed example.",
    [D, S],
    [("tree operations", "data.py: MaskGroup.flatten, recursive_drop, equal_to; select.py:leaf_masks")],
    ["resulting groups"],
)
prop(
    "P08",
    "Derived kinematics agree with their definitions from the four-momentum",
    "Transverse momentum, pseudorapidity, rapidity, azimuth, polar angle, mass and transverse mass of every particle equal their definitions in terms of the four components, with azimuth in (-pi, pi] (not a number, and with a warning, if there is no transverse momentum), polar angle in [0, pi], odd (pseudo)rapidity under reflection of z, signed infinite pseudorapidity on the beam axis, and negative mass only for space-like momenta. Each value depends on its own particle only, whatever the number and order of particles.",
    ["inputs"],
    "For all four-momenta: massless, massive, at rest, along the beam, zero, tiny and huge, in arrays of any length.",
    "Tests compare a few coordinates on random central momenta and one zero transverse momentum case.",
    [D, C],
    [("coordinate properties", "data.py: MomentumArray properties"), ("kernels", "calculate.py:_rapidity, _root_diff_two_squares")],
    ["MomentumArray properties"],
)
prop(
    "P09",
    "Frame shifts change the one coordinate asked for, by the amount asked for",
    "Rotating in azimuth by an angle adds it to every azimuth modulo a full turn and changes nothing else; boosting in rapidity adds to every rapidity and keeps transverse momentum, azimuth and mass; shifting in pseudorapidity by a number moves the resultant of the particles by that much, through one common boost along the beam, and warns exactly if it could not reach its target within the tolerance and number of corrections allowed. Opposite shifts restore the original momenta, and the original object is never altered.",
    ["inputs", "histories"],
    "For all momenta and shift values, and sequences of shifts.",
    "One test checks invertibility for a single random sample per shift kind.",
    [D],
    [("shift methods", "data.py: shift_phi, shift_rapidity, shift_eta")],
    ["momenta returned by shifts"],
)
prop(
    "P10",
    "Numpy operations and comparisons act element-wise and keep the array kind",
    "Arithmetic, sums and other numpy functions applied to the array types give the values numpy gives for the underlying numbers, wrapped as the same kind of array when they stay per-particle and as a mask when they give one boolean per particle, including reductions (which over the particles keep the kind, and over the components do not), in-place outputs and mixed operands on either side. Equality and inequality compare whole elements (all components of a row), agree with each other as complements, and accept the same kind, numpy arrays, or one element to compare with every row. Operands which do not fit (another length, another number of components, another kind of array, no numbers) are refused.",
    ["inputs"],
    "For all array types, ufuncs, operand kinds and orders, and contents including duplicates.",
    "Only one sum and one product of momenta are used incidentally by the suite.",
    [D, "base"],
    [("ufunc dispatch", "data.py:_array_ufunc"), ("comparison", "data.py:_array_eq_prep")],
    ["results of numpy calls and operators"],
)
prop(
    "P11",
    "Angular distances are a correct, symmetric, wrapped plane distance",
    "The distance between any two particles is the Euclidean distance between their (pseudo)rapidities and their azimuths, the azimuth difference being taken the short way around. The result has one row per particle of the first set and one column per particle of the second, does not depend on thread count or on whether a set is compared with itself by identity or by value, is symmetric with zero diagonal for a set with itself, and treats two infinite rapidities of equal sign as coincident.",
    ["inputs", "configurations"],
    "For all pairs of momentum sets, both rapidity kinds, all thread counts.",
    "The suite never computes a distance.",
    [D, C],
    [("delta_R", "data.py: MomentumArray.delta_R; calculate.py:_delta_R, _delta_R_symmetric")],
    ["distance matrices"],
)
prop(
    "P12",
    "Clustering coefficients equal those of the distance-threshold graph",
    "The clustering coefficient distribution of a set of particles equals, for every particle in order, the graph-theoretic local clustering coefficient of the undirected graph joining each pair of distinct particles closer than the radius, and is zero for particles with fewer than two neighbours. It does not depend on the number of threads, and leaves the global thread setting as it was.",
    ["inputs", "configurations"],
    "For all particle sets, radii, rapidity kinds and thread counts.",
    "There is no test of clustering coefficients.",
    [C],
    [("graph kernel", "calculate.py: cluster_coeff_distbn, _clust_coeffs")],
    ["returned coefficients"],
)
prop(
    "P13",
    "Aggregates over particle sets equal the sums they stand for",
    "Aggregate momenta give, for each mask in order, the component-wise sum of the selected particles (zero if none); the combined mass is the invariant mass of the summed, optionally weighted, momenta (components being told by name where they have names), or zero when its square is negative; the resultant coordinates are those of the momentum sum; and the weighted centroid is the transverse-momentum weighted mean of (pseudo)rapidity and of azimuth, the latter brought into [-pi, pi]. None depends on the order of the particles.",
    ["inputs"],
    "For all particle sets, masks, weights and rapidity kinds.",
    "There is no test of these aggregates.",
    [C],
    [("aggregates", "calculate.py: aggregate_momenta, combined_mass, resultant_coords, weighted_centroid")],
    ["returned values"],
)
prop(
    "P14",
    "Event shapes are their defining functionals at an optimal axis",
    "Thrust and spherocity equal their defining sums at the unit axis they return, they never beat the true optimum over all axes, come within reach of it from some starting point, and a given seed always gives the same result; from most starting points no small rotation of the axis improves them. The C-parameter equals its defining double sum. All three lie in their known ranges, and ignore energies, particle order, particles at rest, and overall rescaling or reflection of momenta; the C-parameter also ignores rotations.",
    ["inputs"],
    "For all non-empty sets of momenta with some non-zero momentum, and all seeds.",
    "Tests evaluate only perfect pencil and uniform spherical configurations.",
    [C],
    [("optimiser objective and gradient", "calculate.py: _thrust_with_grad, _spherocity_with_grad"), ("C-parameter kernel", "calculate.py:_c_parameter")],
    ["thrust(), spherocity(), c_parameter()"],
)
prop(
    "P15",
    "Jaccard distance is the weighted symmetric difference over the union",
    "The Jaccard distance between two masks, or mask groups, or boolean arrays, is the total weight of the elements in exactly one of them divided by the total weight of the elements in either, or zero if nothing is in either. It is symmetric, zero for equal sets, one for disjoint non-empty sets, and obeys the triangle inequality for non-negative weights.",
    ["inputs"],
    "For all pairs and triples of masks, all operand kinds, with and without weights.",
    "There is no test of this distance.",
    [C],
    [("kernel", "calculate.py: jaccard_distance, _jaccard_distance")],
    ["returned distance"],
)
prop(
    "P16",
    "PDG properties are looked up per particle, consistently with the PDG table",
    "Each property of a PDG code array (name, charge, mass, width, bounds, parities, isospin, quark content and so on) has one entry per particle, in order, equal to what the same code gives alone and to the reference particle table, with masses and widths in GeV, whatever other codes, repeats or order surround it and however often and in whatever order properties were read before. Antiparticles of measured particles have the opposite charge and the same mass.",
    ["inputs", "histories"],
    "For all arrays of codes in the particle table, with repeats, and sequences of property reads.",
    "One test checks names of six quarks.",
    [D],
    [("table lookup", "data.py: PdgArray.__get_prop and properties")],
    ["property arrays"],
)
prop(
    "P17",
    "PDG masks and names identify exactly the particles asked for",
    "Masking by a code or a list of codes leaves out exactly the particles whose code is in the list, or selects exactly those when it is told not to act as a blacklist, comparing absolute values of both unless told to be sensitive to sign. Constructing from names which are unambiguous in the table gives particles with those names, in order, and unknown names and things which are not names are refused.",
    ["inputs"],
    "For all code arrays, target collections, and option settings; for all unambiguous names.",
    "There is no test of the PDG mask; one test builds quarks from names.",
    [D],
    [("mask and from_name", "data.py: PdgArray.mask, PdgArray.from_name")],
    ["mask results", "codes from names"],
)
prop(
    "P18",
    "Status masks mark exactly the codes in the requested range or hard process",
    "A status range mask marks a particle exactly when the absolute value of its status code, or the code itself when sensitive to sign, lies within the given bounds, both inclusive, the upper one unbounded if omitted. The hard-process masks mark, by absolute value, exactly the incoming (21), intermediate (22), outgoing (23) and nonperturbative diffraction (24) partons under distinct names, and their union is the hard process.",
    ["inputs"],
    "For all status arrays and all bounds, including reversed, equal, negative and missing ones.",
    "There is no test of status arrays.",
    [D],
    [("range and hard masks", "data.py: StatusArray.in_range, hard_mask")],
    ["mask results"],
)
prop(
    "P19",
    "Importing an event keeps every particle's data, and every edge",
    "Building a record or event from arrays, or from an event provider, or a Les Houches event provider, gives a record whose attributes equal the provided data element by element, whichever optional attributes are given and in whatever layout. Final-state flags come from the provider or its masks, or are all false for Les Houches events, whose incoming, intermediate and outgoing statuses are translated to the hard-process codes. Providers are not altered, so importing twice gives the same.",
    ["inputs", "configurations"],
    "For all event contents, all subsets of optional attributes, all supported layouts, and both provider kinds.",
    "The suite never imports an event.",
    [D],
    [("constructors", "data.py: ParticleSet.from_numpy, from_event, from_lhe_event; Graphicle.from_numpy, from_event, from_lhe_event")],
    ["attributes of the built record"],
)
prop(
    "P20",
    "Graph topology queries describe the stored edges",
    "The nodes of an adjacency list are the distinct end points of its edges, each once, ascending in magnitude, roots are the edges which start where no edge ends, and leaves are the edges which end where no edge starts, both aligned to the order of the edges. The answer for an edge depends on the set of edges only, not on their order.",
    ["inputs"],
    "For all directed multigraphs, with negative, repeated, isolated and self-looping labels.",
    "The suite never builds an adjacency list.",
    [D],
    [("topology properties", "data.py: AdjacencyList.nodes, roots, leaves, src, dst")],
    ["topology properties"],
)
prop(
    "P21",
    "Adjacency matrices and edge lists convert to each other without loss",
    "The matrix of an adjacency list has, in ascending order of the node labels, the weight of each edge (or one) at its position, repeated edges adding up, and zero elsewhere, and a sparse view has the same entries. The list built from a matrix has exactly the non-zero entries as edges, weighted if asked, with missing self loops added if asked, so that matrix to list to matrix is the identity for matrices without isolated nodes.",
    ["inputs"],
    "For all square matrices of several dtypes, and all simple directed graphs, weighted or not.",
    "The suite never builds an adjacency matrix.",
    [D],
    [("conversions", "data.py: AdjacencyList.matrix, from_matrix, to_sparse")],
    ["matrices and edges"],
)
prop(
    "P22",
    "Descendants of a vertex or edge are exactly what is reachable from it",
    "The descendants mask of a vertex marks exactly the particles on edges reachable by following edges forward from that vertex (the edges arriving at it if none leave it), and of an edge that edge and everything reachable from its end. The result is aligned to the order of the edges and does not depend on it.",
    ["inputs"],
    "For all directed acyclic graphs, any labels and edge order, and all vertices and edges in them.",
    "No test traverses a graph.",
    [S],
    [("graph search", "select.py: vertex_descendants, edge_descendants")],
    ["masks"],
)
prop(
    "P23",
    "Vertex search finds exactly the vertices with the particles asked for",
    "Searching for interaction vertices by incoming and outgoing particle codes returns exactly the vertices whose arriving particles include all the required incoming codes and whose leaving particles include all the required outgoing codes, each vertex once. A search which requires nothing of either is refused.",
    ["inputs"],
    "For all event graphs, all sets of incoming and outgoing codes, including empty ones.",
    "There is no test of vertex search.",
    [S],
    [("vertex search", "select.py: find_vertex")],
    ["returned vertices"],
)
prop(
    "P24",
    "Hard parton descendant masks hold exactly each parton's progeny",
    "For every hard-process parton, the descendants masks contain one mask, in the order of the record, holding exactly that parton and the particles of the record descended from it, and only partons with the target codes when targets are given, with or without regard to sign. The names are the names of the particles, numbered when repeated. Targets which no hard parton matches are refused, as is any single unmatched target when strict.",
    ["inputs"],
    "For all event records with a hard process: any resonance chains, repeats of the same particle, radiation and hadronisation.",
    "No test builds an event record.",
    [S],
    [("hard_descendants", "select.py: hard_descendants, _pdgs_to_keys")],
    ["mask group"],
)
prop(
    "P25",
    "The hierarchy tree mirrors the hard decay chain, and partitions descendants",
    "The hierarchy of a hard process nests each hard parton's mask under its parent resonance exactly as in the event's decay chain, with every hard parton present once (those without a resonance at the top level), leaf masks equal to the descendants of the parton, and a latent mask in each group holding exactly the descendants of the resonance not attributed to its children. The aggregate of a group equals the descendants of its resonance, and leaf extraction returns exactly the innermost partons.",
    ["inputs"],
    "For all hard processes: any depth and width of decay chains, identical siblings, and partons outside of chains.",
    "No test builds a hierarchy.",
    [S],
    [("hierarchy", "select.py: hierarchy, leaf_masks")],
    ["nested mask group"],
)
prop(
    "P26",
    "Hadron ownership is decided per hadronisation vertex, by the nearest parton",
    "Hadronisation vertices are exactly the vertices from which hadronisation products (status 80 to 90 in magnitude) leave. Partitioning descendants gives each final particle of a hadronisation vertex to exactly the leaf from which the nearest of the partons arriving at the vertex descends, nearest by angular distance weighted by the given power of transverse momentum, and to none if that one descends from no leaf, so leaves never overlap. The nesting and names of the hierarchy are kept.",
    ["inputs"],
    "For all event records, power values, and hierarchies.",
    "No test partitions an event.",
    [S],
    [("partition", "select.py: hadron_vertices, partition_descendants")],
    ["vertices; partitioned mask group"],
)
prop(
    "P27",
    "Colour singlet grouping follows colour lines",
    "Colour singlets are reported as the groups of two or three of the given outgoing partons whose colour and anticolour lines all end on one another, in each case named by their masks, and never mix partons of disconnected lines. The inverted report names exactly the partons which are in no such group.",
    ["inputs"],
    "For all colour assignments of hard processes: strings of any length, several singlets, colourless particles.",
    "There is no test of colour grouping.",
    [S],
    [("color_singlets", "select.py: color_singlets")],
    ["mask group"],
)
prop(
    "P28",
    "Ground-truth clusters are disjoint final-state sets of their own partons",
    "The clusters of an event give one mask per hard parton, aligned with the final-state particles, those of different leaf partons mutually disjoint, containing exactly what the partition gave the parton; for coloured partons which are in no colour singlet, particles as far away from it as the radius or farther are dropped. The mask of a resonance is the union of those of its decay products.",
    ["inputs"],
    "For all event records, radii, and momentum powers.",
    "There is no test of the clusters pipeline.",
    [S],
    [("clusters", "select.py: clusters")],
    ["mask group"],
)
prop(
    "P29",
    "Jets are matched to partons by lowest cost, one jet to one parton",
    "Matching candidate jets to targets gives, for each target in order, the index of a distinct candidate, so that the total cost (angular distance and transverse momentum similarity) is the least possible, unaffected by permuting candidates or targets except for the matching permutation. Tagging jets to hard partons, selected by stage and codes, names each chosen jet after its parton, and refuses when jets are too few.",
    ["inputs"],
    "For all sets of jets and partons with at least as many jets as partons, including equidistant and equal ones.",
    "There is no test of matching or tagging.",
    [S, C],
    [("assignment", "select.py: arg_closest, monte_carlo_tag; calculate.py:_assignment_cost")],
    ["indices; tagged masks"],
)
prop(
    "P30",
    "Jet clustering partitions the particles by the generalised-kT algorithm",
    "Jet masks are those of sequential recombination with the given radius and momentum power: each input particle is in exactly one jet when no cuts are given, jets are ordered by decreasing transverse momentum, and cuts on pseudorapidity, transverse momentum and number of jets only remove whole jets, and exactly those beyond the cuts. Permuting the particles permutes the masks.",
    ["inputs", "configurations"],
    "For all particle sets, radii, powers and cut combinations.",
    "There is no test of jet clustering.",
    [S],
    [("fastjet interface", "select.py: fastjet_clusters")],
    ["jet masks"],
)
prop(
    "P31",
    "Pruning by radius keeps exactly the particles near the centre",
    "Pruning by radius marks exactly the particles which lie strictly within the given angular distance of the centre, which is the given one, or the direction of the summed momentum of the (masked) particles when none is given. A mask argument restricts the outcome, azimuths are compared the short way around, and results are aligned with the input particles.",
    ["inputs"],
    "For all particle sets, radii, centres and masks.",
    "There is no test of pruning.",
    [S],
    [("centroid_prune", "select.py: centroid_prune")],
    ["mask"],
)
prop(
    "P32",
    "Overlap detection is true exactly when two masks share an element",
    "The overlap test over a mask group is true exactly when some element is marked by at least two of the group's members, whatever the number, order and nesting of its members.",
    ["inputs"],
    "For all groups of masks, including fewer than two members and nested groups.",
    "There is no test of overlap detection (it raised an error for every input).",
    [S],
    [("any_overlap", "select.py: any_overlap")],
    ["returned boolean"],
)
prop(
    "P33",
    "Neighbourhood graphs join exactly the pairs their rule selects",
    "The cut graph joins exactly the ordered pairs of distinct particles whose matrix value is strictly below (or above, by mode) the cut, and the nearest-neighbour graph gives each particle outward edges to exactly k others whose matrix values are the lowest, along rows or columns as asked, counting the particle itself only if self loops are asked for. The fully connected graph joins all pairs; self loops and weights with the values of the matrix follow the options.",
    ["inputs", "configurations"],
    "For all matrices and momenta, cuts, k from one to all, and option combinations.",
    "The matrix module has no tests.",
    [M],
    [("graph construction", "matrix.py: cut_adj, knn_adj, fc_adj")],
    ["adjacency lists and matrices"],
)
prop(
    "P34",
    "Affinity and parton-hadron distance matrices equal pairwise distances",
    "The angular affinity matrix holds the pseudorapidity-azimuth distance of every pair of particles, and the parton-hadron distance matrix holds, with one row per parton and one column per hadron, that distance multiplied by the requested power of the transverse momentum of the parton. Entries depend on their own pair only.",
    ["inputs"],
    "For all particle sets and powers.",
    "The matrix module has no tests.",
    [M],
    [("distance matrices", "matrix.py: delta_R_aff, parton_hadron_distance")],
    ["matrices"],
)
prop(
    "P35",
    "Rotation matrices are proper rotations about the axis asked for",
    "The rotation matrix for an angle and axis (by inclination and azimuth) is orthogonal with unit determinant, leaves the axis fixed, turns perpendicular vectors by the angle in the right-handed sense, composes by adding angles, and is the same for the opposite angle and axis. The soft-hard axis of a set of particles is the inclination and azimuth of the vector product of the momenta with the lowest and highest transverse momentum, in this order.",
    ["inputs"],
    "For all angles, axes and particle pairs, in all octants.",
    "One test uses rotations through a splitting only.",
    [T],
    [("rotations", "transform.py: rotation_matrix, soft_hard_axis")],
    ["matrices and angles"],
)
prop(
    "P36",
    "Splitting a particle conserves four-momentum and respects its fraction",
    "Splitting a momentum into two gives children whose sum is the parent in all four components, the first being the given fraction of the parent with its direction turned by the given angle about the given axis. Splitting the hardest of a set replaces exactly the highest transverse momentum particle by its children, which come last, turned about the soft-hard axis of the set if no axis is given; all other particles stay in order, and invalid fractions are refused.",
    ["inputs", "histories"],
    "For all parents, fractions, angles and axes, and repeated splittings.",
    "One test splits one particle with one setting.",
    [T],
    [("splitting", "transform.py: split_momentum, split_hardest")],
    ["children momenta"],
)
prop(
    "P37",
    "Printed forms show the contents of the object and its true size",
    "The text and HTML forms of a record or event state its true number of particles and attributes, and show one row per particle with that particle's values, in order, up to sixty rows, and only the first and last five with a gap beyond that. The printed form of an array names its type and shows its values, in order. The printed form of a mask group shows its rule, and the tree of its masks with every name as it is, in order, each below its parent. Displaying never alters or fails for any record, including empty ones.",
    ["inputs"],
    "For all records of any length, with any attributes unset, all arrays, and all mask groups with any names.",
    "The suite never prints a record.",
    [D],
    [("table display", "data.py:_table_repr; __repr__, _repr_html_")],
    ["str(), repr(), _repr_html_()"],
)
prop(
    "P38",
    "Uniform spherical sampling is isotropic, on shell, and reproducible",
    "Uniform spherical sampling gives the requested number of momenta, on shell, with energies uniformly distributed from zero to the given maximum, each massless with the requested probability (the masses of the others vary), reproducible for a given seed, and with directions distributed uniformly over the whole sphere.",
    ["inputs"],
    "For all sizes, energies and seeds.",
    "Tests use samples to probe event shapes with loose bounds, which hold for a hemisphere too.",
    [D],
    [("sampling", "data.py: MomentumArray.from_spherical_uniform")],
    ["sampled momenta"],
)
prop(
    "P39",
    "Derived values always reflect the current data of the array",
    "After any sequence of replacing the data of an array, reading derived quantities, copying, subsetting and transforming, every derived quantity read from an array equals what a newly built array with the same current data gives. Reading one quantity never changes another. So do the answers of calculations and selections: if what an object holds is replaced between two calls, the second answer is that for the new contents, as if the first call had not been made.",
    ["histories"],
    "For all sequences of reads and assignments on all array types with derived values.",
    "No test assigns new data to an array whose derived values were read.",
    [D],
    [("cached properties", "data.py: MomentumArray.data setter, cached properties; PdgArray.data setter"), ("functions of the data", "calculate.py, select.py, matrix.py, transform.py")],
    ["derived values and answers of functions after assignment"],
)
prop(
    "P40",
    "Arrays and records behave as sequences of their elements",
    "The arrays are sequences of native Python elements, and events and particle records are sequences of records of one particle each. Iterating, iterating in reverse, counting, searching, membership, length and subscripts all agree with each other and with the stored values, also when several iterations are under way. Iteration ends, also for empty objects, and indices beyond the end are refused. Two records, or two events, are equal exactly if all of their attributes, edges and weights included, hold the same data; comparing them gives a plain boolean, and never depends on a single attribute.",
    ["inputs"],
    "For all arrays and records of any length (0 included), with duplicates, with any attributes unset, whether newly made, sliced, reversed, copied or assigned to.",
    "The suite iterates over no array and compares no records.",
    [D, "base"],
    [("sequence protocol of the arrays", "base.py: ArrayBase, AdjacencyBase; data.py: __iter__, __len__, __getitem__ of the arrays"), ("sequence protocol of records", "data.py:_composite_getitem, _composite_len, __eq__ of ParticleSet and Graphicle")],
    ["elements by iteration, reversed(), in, count(), index(), subscripts; == of records"],
)

prop(
    "P41",
    "Answers depend only on what is asked, whatever goes on around",
    "What a read-only call gives is determined by its arguments alone (and by the seed, where there is one). It is the same in another process, where strings have other hashes; under other settings of numpy's error handling (short of raising), of the warnings filters, of the global random states and of the number of numba threads; after other calculations; and while other threads make calls of their own, on the same objects or on others. No call changes any of these settings, for its own thread or, even while it runs, for another; and what a call gave is not altered by later calls.",
    ["inputs", "schedules", "configurations"],
    "For all events, arrays and calls of P04, off-shell, light-like and zero momenta included; for all of these settings, alone and together; for 2 to 4 threads with objects of their own or shared ones, untouched or with derived values cached; for other hash seeds.",
    "The suite runs in one process and one thread, with default settings.",
    [C, D, M, S, T, "base"],
    [("numerical fluctuations", "calculate.py:combined_mass"), ("derived values and their caches", "data.py: MomentumArray, Graphicle and ParticleSet properties"), ("parallel kernels", "calculate.py and matrix.py: numba functions with threads"), ("sets of codes and names", "select.py, data.py: places which go through sets or dictionaries")],
    ["return values", "np.geterr, warnings.filters, random states, numba threads after the call"],
)

prop(
    "P42",
    "Arguments left out take their documented defaults, however the rest are given",
    "Leaving out an optional argument gives the same answer, the same warning or the same refusal as giving its documented default, for any values of the other arguments: pseudorapidity instead of rapidity and one thread for distances, clustering coefficients and centroids; equal weights; no axis; ten corrections to 1e-10 in shift_eta; massive sets only; blacklisting without regard to sign; status codes from 0 without an upper limit; in dropping, the key 'latent', not in place; flattening to the top level; comparison of groups without regard to order; aggregation by AND; no weights and no added self-loops from matrices; upper cuts, rows, unweighted; exponents of -0.1; no cuts on jets; all hard partons, strictly; the outgoing stage without the intermediate one; the axis of the softest and the hardest momentum. An argument means the same given by name, in any order, or in its documented place.",
    ["inputs", "configurations"],
    "For all public functions and methods with optional arguments; for every combination of their values, on generated events and sets on which the answers depend on them.",
    "The suite calls few functions, each with one combination of its arguments.",
    [C, D, M, S, T],
    [("signatures and their documentation", "calculate.py, data.py, matrix.py, select.py, transform.py: functions with default arguments")],
    ["return values, warnings and refusals of calls with arguments left out, or given in place"],
)

prop(
    "P43",
    "Arguments mean their values, whatever kind of number or collection holds them",
    "The answer of a call is determined by the values of its arguments, not by the kind of object which holds them: a real number may be an int, a float or one of numpy's, or an array of no dimensions; a whole number any of Python's or numpy's integers; a collection of codes a list, tuple, set, array, dictionary view, iterator or generator, where an iterable is asked for, in any order and with repetitions where these carry no meaning; a mask a boolean array, a MaskArray or a group which combines to it; an edge, axis or angle a plain or a named tuple; per-particle values arrays of any memory layout. An iterator is consumed once, and gives what the list of its elements would.",
    ["inputs"],
    "For all public functions and methods which take such arguments; for generated events, masks and values of them, whole and fractional, zero and negative. Kinds which a function refuses loudly, and single precision, are outside of it.",
    "The suite gives each argument in a single kind.",
    [C, D, M, S, T],
    [("signatures which take numbers, iterables, masks and tuples", "calculate.py, data.py, matrix.py, select.py, transform.py: arguments of public functions"), ("angles to an axis", "transform.py:_angles_to_axis")],
    ["return values of calls with equal arguments of different kinds"],
)

prop(
    "P44",
    "What cannot be answered is refused, and a refusal leaves all else as it was",
    "Requests outside of what the documentation allows are refused with an exception (the documented one, if there is one), not answered: negative radii and cuts, and numbers of jets which are no positive integers, in jet clustering; probabilities of massless particles outside of [0, 1]; energy fractions outside of (0, 0.5]; several particles to split in one, or no axis for a lone one; vertex searches without any set; hard targets which are absent, or in strict searches any absent one; tagging without stages, without jets, with too few, with masks of another length than the particles, with both lists, or lists which leave no parton; names which are not in the table, or no strings, and properties of codes which are not in it; modes and types of neighbourhood graphs which do not exist; numbers of threads which there are not; masks combined or compared with what is no mask, or with masks of another length; distances of sets, sums, prunings and selections by masks, and weights, of another length than the elements; keys of groups which are no strings, or not present; data of a group without rule; weights of a mass which are no array; indices beyond the end; arrays of the wrong number of columns, in construction and in assignment. A refused request leaves its arguments, the object asked and the settings of the process as they were, so that the next request is answered as if it had not been made. Requests at the very edges of what is allowed are answered.",
    ["inputs", "histories"],
    "For all of these requests, with the other arguments of any value, on generated events; not for requests on which the documentation is silent and which numpy is left to broadcast (masks or weights of one element).",
    "The suite makes no invalid requests.",
    [C, D, M, S, T, "base"],
    [("explicit refusals", "calculate.py, data.py, matrix.py, select.py, transform.py: raise statements"), ("assignments", "data.py: data setters, MaskGroup.__setitem__ and __delitem__")],
    ["exceptions, and the state of the objects after them"],
)

prop(
    "P45",
    "Answers do not depend on the order, labels, orientation or units of a record",
    "How an event is written down does not matter. If its particles are put in another order, every answer is that of the original, in the new order, and collections (descendants, hierarchies, clusters, jets, colour singlets, vertices) have the same members, whatever repeated partons are numbered. If its vertices get other labels, vertices found get them too, and nothing else changes. If it is turned about the beam, mirrored, or its transverse axes are exchanged, all distances, masses, transverse momenta, jets, neighbourhoods and partitions are the same; so are, if it is boosted along the beam, all those which rest on rapidity. In other units of energy, energies and masses are in these units and all else is the same. If each particle is replaced by its antiparticle and colours by anticolours, the same particles are found by the opposite codes.",
    ["inputs"],
    "For all events with particles in general position (no ties), any order, labels of 32 bits of either sign, turns, boosts up to two units of rapidity, units over twelve orders of magnitude, and combinations of these. Questions which rest on pseudorapidity or energies are not asked of boosted events.",
    "The suite asks of no event, and in one form only.",
    [C, D, M, S],
    [("questions of events", "select.py, calculate.py, matrix.py: all functions of graphs and momenta"), ("labels", "data.py: AdjacencyList"), ("names of repeated partons", "select.py:_pdgs_to_keys")],
    ["masks, vertices, distances, masses and jets of an event in two forms"],
)

prop(
    "P46",
    "Answers about some particles do not depend on others unrelated to them",
    "What is said of a particle, a vertex or a hard parton rests on those it has to do with, not on whatever else is in the record. If particles on vertices of their own, far off in angle and of no part in the hard process, stand anywhere between those of an event, then for the particles of the event everything is as without them: codes, names, masses, charges, kinematics, distances; descendants of partons, vertices and edges, and the names and numbers of partons; hierarchies, partitions at hadronisation vertices, colour singlets and clusters; vertices found, roots, leaves and degrees; jets, clustering coefficients and pairs within a distance.",
    ["inputs"],
    "For all events, and 1 to 30 strangers of any species, also those of the hard partons, with any colours, final or not, with hadronisation vertices of their own, listed anywhere, on vertices labelled below or above those of the event.",
    "The suite asks of no event.",
    [C, D, M, S],
    [("questions of parts of events", "select.py, calculate.py, matrix.py: functions of graphs and momenta"), ("masks and edges", "data.py: AdjacencyList, PdgArray, StatusArray")],
    ["masks, names, vertices, distances and jets of an event alone and with strangers"],
)

prop(
    "P47",
    "Answers have the documented kind, shape and type, for sets of any size",
    "The kind of an answer depends on the question alone: a mask is a MaskArray of booleans with one entry per particle it was asked of; a group holds such masks under names, and combines them by the documented rule; attributes and coefficients have one number of the documented type per particle, distances one row and column for each of the two sets; lists and tuples hold what they are said to hold; records keep one element per particle in every attribute. This holds where there are no particles, or one, where masks select nothing or all, and where nothing is found. An answer serves as an argument or operand of further questions as well as an object newly made with its values.",
    ["inputs"],
    "For all public functions, methods and attributes, on generated events, and on sets of none, one, or more of their particles. Event shapes, centroids and splittings, which have no value for no particles, may refuse these.",
    "The suite looks at a few types, at no empty sets, and passes no answers on.",
    [C, D, M, S, T],
    [("answers made of masks", "select.py: MaskGroup, MaskArray; data.py: MaskArray, MaskGroup"), ("answers made of arrays", "calculate.py, matrix.py: allocation of results"), ("numpy results", "data.py: _array_ufunc, __getitem__")],
    ["types, lengths, shapes, dtypes and rules of return values; values of further calls on these"],
)

ids = [item["id"] for item in OUT]
assert len(set(ids)) == len(ids)
for item in OUT:
    assert len(item["title"]) <= 80, item["title"]
path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
path.write_text("".join(json.dumps(item) + "\n" for item in OUT))
print(len(OUT), "properties")
