"""Writes DESIGN.md (development tool; run with /opt/venv/bin/python)."""
import sys
sys.path.insert(0, "/verif")
from vh import boot  # noqa
boot.setup()
import glob, importlib.util, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root + "/tools/design_head.md").read()
out += "## Assumptions per check\n"
for f in sorted(glob.glob(root + "/checks/c*.py")):
    s = open(f).read()
    m = re.search(r"^ASSUMPTIONS = (\[.*?\])\s*$", s, re.S | re.M)
    a = eval(m.group(1)) if m else []
    mod = importlib.import_module("checks." + os.path.basename(f)[:-3])
    parts = ", ".join(f"{u.name} {u.quick}" for u in mod.SUBS)
    out += f"* {os.path.basename(f)[:-3].upper()} - parts and quick number of cases: {parts}." + (" " + " ".join(a) if a else "") + "\n"
out += "\n" + open(root + "/tools/design_tail.md").read()
out += "| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out += f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} | {m['property']} (quick) |\n"
open(root + "/DESIGN.md", "w").write(out)
