"""Writes MANIFEST.json from properties.jsonl. Run: python3 tools/make_manifest.py"""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "P01": "differential property testing: one content in many input layouts, against plain numpy",
    "P02": "round-trip property testing through serialize(), JSON, numpy and iteration",
    "P03": "model-based property testing of chains of selections against numpy indexing of every column",
    "P04": "stateful property testing: mutate original/copy; replay query chains on twin worlds and compare snapshots",
    "P05": "differential property testing against numpy boolean arrays",
    "P06": "stateful model-based testing against an ordered-dictionary reference",
    "P07": "property testing of random mask trees against a reference tree model",
    "P08": "differential property testing against extended-precision definitions, metamorphic permutation/reflection",
    "P09": "metamorphic property testing of shift sequences (exact effect, invertibility)",
    "P10": "differential property testing against numpy on the raw columns",
    "P11": "differential property testing with rigorous error bounds; metamorphic (threads, identity, symmetry)",
    "P12": "property testing against a graph-theoretic reference on the distance graph",
    "P13": "property testing against exact sums; metamorphic permutation",
    "P14": "property testing: functional at returned axis, global bound by exact/grid search, metamorphic relations",
    "P15": "property testing against set arithmetic; metric laws on generated triples",
    "P16": "differential property testing against the particle table (also exhaustive over the table), read histories",
    "P17": "property testing against set membership; exhaustive over unambiguous names",
    "P18": "property testing against the arithmetic definition of ranges",
    "P19": "round-trip property testing through generated event providers",
    "P20": "property testing on random multigraphs (small ones exhaustively) against set definitions",
    "P21": "round-trip and differential property testing on random graphs and matrices",
    "P22": "property testing on random DAGs and synthetic events against breadth-first reachability",
    "P23": "property testing against a brute-force search of all vertices",
    "P24": "property testing on synthetic collider events against the generator's ground truth",
    "P25": "property testing on synthetic collider events against the generator's decay chain",
    "P26": "property testing on synthetic collider events against a brute-force partition",
    "P27": "property testing of generated colour flows against a reference line tracer",
    "P28": "property testing on synthetic events against a reference of the clusters pipeline",
    "P29": "property testing against brute-force optimal assignment; metamorphic permutations",
    "P30": "differential property testing against an independent sequential recombination; cut metamorphisms",
    "P31": "property testing against the distance definition",
    "P32": "property testing against pairwise intersection",
    "P33": "property testing of generated matrices against the rules' definitions",
    "P34": "property testing against pairwise distances with error bounds",
    "P35": "property testing of rotation-group laws and right-handed reference rotation",
    "P36": "property testing of conservation and reference splitting over repeated splits",
    "P37": "property testing: parse the printed text and HTML back and compare with the record",
    "P38": "statistical property testing of samples (isotropy, energy) over seeds, with conservative bounds",
    "P41": "metamorphic property testing: the same calls under other process-wide settings, in several threads, and in other processes",
    "P46": "metamorphic property testing: events alone and with unrelated particles between their own",
    "P47": "property-based testing over a table of calls and set sizes, with specified kinds of answers, and a differential test against newly made objects",
    "P45": "metamorphic property testing: permuted, relabelled, rotated, boosted, conjugated and rescaled events",
    "P44": "property-based testing of refusals: state before and after, and the answer to the next request",
    "P43": "metamorphic property testing: the same call with equal arguments of different kinds",
    "P42": "metamorphic property testing: the same call with arguments left out, given by name, or in place",
    "P40": "property-based testing against lists of the elements; exhaustive short arrays and records",
    "P39": "stateful property testing: read/assign/copy histories against newly built arrays",
}
NOTE = {
    "P14": " The searches are single-start local ones, so optimality is judged over several starting points.",
    "P38": " Distribution checks are statistical, with false-alarm odds below 1e-9 per run.",
    "P16": " Trusts the installed particle table as the reference.",
    "P30": " Trusts only the E-scheme recombination definition; nearly tied distances are skipped.",
}
checks = []
props = [json.loads(l) for l in (HERE / "properties.jsonl").open()]
for item in props:
    pid = item["id"]
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "technique": TECH[pid],
        "level": "exploration",
        "level_note": (
            "Holds on every generated case; no proof beyond them. Oracles are"
            " written from the definitions, independent of the code; inputs"
            " nearer to a decision boundary than rounding allows are skipped."
            + NOTE.get(pid, "")
        ),
    })
out = {
    "version": 1,
    "setup_cmd": "./check list",
    "checks": checks,
    "not_applicable": [],
    "notes": "graphicle is pure Python with run-time compiled numba kernels:"
    " every check imports it from /repo's working tree with a fresh compile"
    " cache. No hooks. Genuine defects found are fixed in /repo and listed in"
    " known_findings.json.",
}
(HERE / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks")
