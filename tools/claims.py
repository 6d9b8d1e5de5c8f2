TECH = "contract-based deductive verification: obligations generated from the current source by pyvc (symbolic execution with loop summaries), discharged by z3/cvc5; bounded executions of the real code for replay and for the parts listed as bounded"
TB = "contract-based method with no contract within reach yet: bounded executions of the real code against an independent reference (labelled bounded, nothing counted as proved)"
def claim(i, note, level="other", tech=None):
    T[i] = {"technique": tech or (TECH if i in PROVED else TB), "level": level, "note": note}
import os
PROVED = {f[:-3].upper() for f in os.listdir("/verif/specs") if f.startswith("r")}
B = "Bounded: the listed cases run the real code on inputs generated from VERIF_SEED and compare with an independent reference; nothing is proved about inputs not executed."
M = "Mixed: the contracts listed under functions_under_contract are discharged for all inputs (reals for floats; trusted models listed in trusted_base); the remaining functions of the property are covered by the bounded cases only, labelled bounded. "
for i in range(1, 27):
    i = f"R{i:02d}"
    claim(i, M if i in PROVED else B)
