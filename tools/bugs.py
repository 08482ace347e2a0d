#!/usr/bin/env python3
"""Builds the planted bugs under /verif/seeded from the specs in
``bug_specs.py``, and confirms each in a scratch copy of /repo:
it applies, the stable tests pass, the demo passes without it and fails
with it.  With ``--check`` also runs the check of the property.

usage: bugs.py [--check] [--all-checks] [ID ...]
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after it is built
here="$(cd "$(dirname "$0")" && pwd)"
cache="$(mktemp -d)"
trap 'rm -rf "$cache"' EXIT
export NUMBA_CACHE_DIR="$cache" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
/opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, cwd, timeout=900, **env):
    full = dict(os.environ, **{k: str(v) for k, v in env.items()})
    return subprocess.run(
        cmd, cwd=cwd, env=full, text=True, timeout=timeout,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
    )


def build(spec, check):
    from bug_specs import COMMON

    out = VERIF / "seeded" / spec["id"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="bug-", dir="/tmp"))
    wt = tmp / "repo"
    report = {"id": spec["id"], "property": spec["property"]}
    try:
        run(["git", "clone", "-q", "/repo", str(wt)], "/tmp")
        for extra in ("graphicle/_version.py",):
            if not (wt / extra).exists() and pathlib.Path("/repo", extra).exists():
                shutil.copy(pathlib.Path("/repo", extra), wt / extra)
        for path, old, new, *after in spec["edits"]:
            file = wt / path
            text = file.read_text()
            head = text.index(after[0]) if after else 0
            num = text.count(old, head)
            if num == 0 or (num > 1 and not after):
                return {"id": spec["id"], "ok": False, "matches": num}
            at = text.index(old, head)
            file.write_text(text[:at] + new + text[at + len(old):])
        diff = run(["git", "diff"], wt).stdout
        run(["git", "checkout", "-q", "--", "."], wt)
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO_SH)
        os.chmod(out / "demo.sh", 0o755)
        (out / "demo.py").write_text(COMMON + spec.get("pre", "") + spec["demo"])
        (out / "meta.json").write_text(json.dumps(
            {"property": spec["property"], "needs": spec["needs"],
             "what_it_breaks": spec["breaks"]}, indent=2) + "\n")
        demo = ["bash", str(out / "demo.sh")]
        clean = run(demo, wt)
        report["demo_clean"] = clean.returncode
        if clean.returncode:
            report["clean_out"] = clean.stdout[-1500:]
        applied = run(["git", "apply", str(out / "patch.diff")], wt)
        report["apply"] = applied.returncode
        bad = run(demo, wt)
        report["demo_patched"] = bad.returncode
        report["patched_out"] = bad.stdout.strip().split("\n")[-1][:200]
        tests = run(
            [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], wt,
            PYTHONPATH=wt, NUMBA_CACHE_DIR=tmp / "nb", PYTHONDONTWRITEBYTECODE=1,
        )
        report["tests"] = tests.stdout.strip().split("\n")[-1]
        report["ok"] = (
            clean.returncode == 0 and bad.returncode != 0
            and applied.returncode == 0 and tests.returncode == 0
        )
        if check:
            props = [spec["property"]]
            if check == "all":
                props = [f"P{i:02}" for i in range(1, 47)]
            elif isinstance(check, list):
                props = check
            for prop in props:
                got = run(
                    [str(VERIF / "check"), prop], VERIF, timeout=1000,
                    GRAPHICLE_REPO=wt, VERIF_SEED=1, VERIF_TIER="quick",
                    PBT_OUT=tmp,
                )
                hits = [l for l in got.stdout.split("\n") if "VIOLATION" in l]
                report.setdefault("check", {})[prop] = (got.returncode, hits[:1])
                if got.returncode not in (0, 1):
                    report["check_out"] = got.stdout[-1500:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    from bug_specs import SPECS

    args = sys.argv[1:]
    check = "all" if "--all-checks" in args else "--check" in args
    for arg in args:
        if arg.startswith("--props="):
            check = arg[len("--props="):].split(",")
    ids = [a for a in args if not a.startswith("--")]
    specs = [s for s in SPECS if not ids or s["id"] in ids]
    with ThreadPoolExecutor(5) as pool:
        for rep in pool.map(lambda s: build(s, check), specs):
            print(json.dumps(rep), flush=True)
