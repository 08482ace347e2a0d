"""Rewrites the table of planted bugs in DESIGN.md from bug_specs.py."""
import pathlib
import re

from bug_specs import SPECS

path = pathlib.Path(__file__).resolve().parent.parent / "DESIGN.md"
rows = "".join(f"| {s['id']} | {s['needs']} |\n"
               for s in sorted(SPECS, key=lambda s: s["id"]))
text = path.read_text()
text = re.sub(r"(\| bug \| needs \|\n\| --- \| --- \|\n)(\|.*\n)*",
              lambda m: m.group(1) + rows, text)
path.write_text(text)
print(len(SPECS), "bugs")
