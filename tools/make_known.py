"""Writes known_findings.json. Run: python3 tools/make_known.py

kind "fixed": repaired in /repo; suppresses nothing.
kind "finding": not repaired; "check" and "case" identify the failing input.
"""
import json
import pathlib

FIXED = [
    ("P20", "e22f3fe", "roots, leaves (and hard_descendants, partition, clusters) raised for every graph: np.in1d is gone from numpy"),
    ("P26", "e22f3fe", "partition_descendants raised for every event: np.in1d"),
    ("P28", "e22f3fe", "clusters raised for every event: np.in1d"),
    ("P03", "5820e67", "subscripting an AdjacencyList dropped its edge weights"),
    ("P04", "5820e67", "copying an AdjacencyList dropped its edge weights"),
    ("P10", "94e6d7a", "AdjacencyList == AdjacencyList, and comparison with structured arrays, raised"),
    ("P01", "6b007b2", "a single row given to a multi-column array was stored as something else than one element"),
    ("P17", "a112a82", "negative targets never matched in a sign insensitive PDG mask"),
    ("P32", "0cc1faa", "any_overlap raised for every group"),
    ("P29", "a0ed8fd", "arg_closest divided by zero when all candidates are equidistant"),
    ("P04", "0496559", "arg_closest overwrote the cached rapidity of the candidates"),
    ("P29", "0496559", "arg_closest overwrote the cached rapidity of the candidates, so matching twice differed"),
    ("P14", "6c0ecc9", "event shapes were NaN with particles at rest"),
    ("P38", "9821565", "from_spherical_uniform sampled one hemisphere only"),
    ("P35", "a1c9149", "soft_hard_axis gave the elevation where the inclination is expected"),
    ("P33", "eed0b18", "knn_adj gave the transpose of what was asked for, and refused k = n - 1"),
    ("P39", "92ab64e", "derived momenta values were stale after assigning data"),
    ("P19", "a9c13a7", "from_lhe_event overwrote the statuses of the provider"),
    ("P04", "a9c13a7", "from_lhe_event overwrote the statuses of the provider"),
    ("P24", "ff4dd7f", "hard_descendants with target included hard partons which merely shared a vertex"),
    ("P05", "2ff42d2", "comparing a MaskGroup with a MaskArray raised or compared objects"),
    ("P21", "69def85", "from_matrix with self_loop replaced the weights of existing self-loops"),
    ("P09", "d6c070a", "shift_eta missed the target when the resultant has mass"),
    ("P25", "6527fbd", "leaves of the hierarchy included the parent of the parton"),
    ("P25", "b797ac9", "hierarchy dropped hard partons outside of decay chains"),
    ("P14", "cb98174", "gradient of spherocity was wrong, so the search stopped short of a minimum"),
    ("P14", "4b1cd57", "thrust and spherocity searches got stuck at the bounds of the angles"),
    ("P33", "a3022a2", "knn_adj gave too many neighbours if particles coincide"),
    ("P37", "930f2c1", "the table of an event with edges only had no rows"),
    ("P30", "6be93e3", "fastjet_clusters failed for integer powers other than -1, 0, 1"),
    ("P37", "e02b2e5", "mask names with brackets (such as those of octet quarkonia) were swallowed by the printed tree, or made it raise"),
    ("P12", "fbcf1a7", "clustering coefficients with over 4096 neighbours were too small: the links were summed in single precision"),
    ("P27", "bb28def", "color_singlets named the wrong partons when a leaf had no outgoing parton"),
    ("P28", "bb28def", "clusters() raised when a leaf had no outgoing parton"),
    ("P10", "7577fac", "reductions over the components spelled axis=-1 (or as tuples) were taken for particles, or raised"),
    ("P10", "eca608f", "element-wise boolean functions (isfinite, signbit) of multi-column arrays raised ValueError"),
    ("P10", "17a02b0", "products of momenta with vectors were taken for momenta, or raised"),
    ("P40", "2688778", "index() never found an element, and reversed() gave arrays"),
    ("P06", "2baed34", "np.asarray(group, dtype=...) raised TypeError"),
    ("P40", "87e8521", "iterating over an empty record never ended"),
    ("P40", "d33e02c", "comparing records gave the mask of one of their attributes"),
    ("P06", "47fc4a6", "a mask group said that it contains slices, lists and arrays"),
    ("P01", "1e911f8", "record arrays (np.recarray) were not recognised as structured input"),
    ("P01", "7901136", "structured colour input whose first field is the anticolour was swapped"),
    ("P29", "7b2f82d", "monte_carlo_tag raised a TypeError for events without partons in the chosen stages"),
    ("P14", "7a7d9b9", "the value of thrust and spherocity could differ from that of the axis returned with it, after a failed line search"),
    ("P41", "a43c3b9", "combined_mass turned the warnings of all threads into errors, and gave nan for negative squared masses if numpy was told not to warn"),
    ("P41", "f885ef9", "eta silenced the warnings of other threads while it was calculated, or for good"),
    ("P41", "9b74b9e", "the order of the lone coloured partons given by color_singlets depended on the hash seed of the process"),
    ("P13", "fedb2de", "combined_mass took the fields of structured momenta and weights by position, so for fields in another order the mass was wrong"),
    ("P09", "bbdbb55", "shift_eta warned that it did not converge, although the last correction allowed had reached the target"),
    ("P43", "e0fb8a0", "rotation axes with integer angles were refused with a TypeError"),
    ("P29", "7b86746", "an empty whitelist filtered nothing, and turned a blacklist given with it into a whitelist"),
    ("P44", "c82328d", "jaccard_distance answered for masks and weights of different lengths, leaving the surplus out"),
    ("P19", "f228a92", "an event which has masks, but none of the final state, could not be imported"),
    ("P43", "9496383", "from_name refused names as numpy strings, such as those of PdgArray.name"),
    ("P17", "9496383", "from_name refused names as numpy strings, such as those of PdgArray.name"),
    ("P47", "9496383", "from_name refused names as numpy strings, such as those of PdgArray.name"),
]
out = [
    {"property": pid, "kind": "fixed", "commit": commit,
     "text": f"fixed: property={pid} {commit} {what}"}
    for pid, commit, what in FIXED
]
path = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
path.write_text(json.dumps(out, indent=1) + "\n")
