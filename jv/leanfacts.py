"""Runs Lean on lean/Axioms.lean: the facts about real functions the verifier uses as instances are theorems of Mathlib."""
import os
import re
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FACTS = ["sin_taylor", "U0_pos", "U1_pos", "U0_neg", "U1_neg", "U_zero", "U_rec", "sos_pos", "sin_sign"]
OK = {"propext", "Classical.choice", "Quot.sound"}


def check():
    """{fact: (ok, detail)}"""
    lean = shutil.which("lean")
    if not lean:
        return {f: (False, "lean is not installed") for f in FACTS}
    p = subprocess.run([lean, os.path.join(VERIF, "lean", "Axioms.lean")], capture_output=True, text=True, timeout=900)
    out = re.sub(r"\s+", " ", p.stdout + p.stderr)
    res = {}
    for f in FACTS:
        m = re.search(r"'JV\.%s' depends on axioms: \[([^\]]*)\]" % f, out)
        if p.returncode != 0 or not m:
            res[f] = (False, out[:400])
        else:
            bad = {a.strip() for a in m.group(1).split(",")} - OK
            res[f] = (not bad, "extra axioms " + ", ".join(bad) if bad else "")
    return res


def obligations(names):
    def lean_facts(S):
        from .contract import Obl
        if S.tier == "quick":       # these facts do not depend on /repo: proved at setup and in the thorough tier
            return []
        out = []
        for f, (ok, why) in check().items():
            if f in names:
                o = Obl("lean", "lemma", "lemma", f)
                o.status, o.why, o.backend = ("proved" if ok else "failed"), why, "lean+mathlib"
                out.append(o)
        return out
    lean_facts.__name__ = "lean_facts"
    return lean_facts
