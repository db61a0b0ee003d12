"""Import paths: hpelm from the repository's working tree, Hypothesis from the tooling venv (after the venv's own packages)."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)


def known_findings(prop):
    """Open findings (not the repaired ones) of a property: see known_findings.txt."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                f = dict(w.split("=", 1) for w in line.split()[1:4])
                if f.get("property") == prop:
                    sub, key = f["key"].split("/", 1)
                    out.append({"sub": sub, "key": key, "match": lambda case: True, "text": line.split(None, 4)[-1].strip()})
    return out
