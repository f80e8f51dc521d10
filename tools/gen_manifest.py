"""Writes MANIFEST.json from the check modules that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> (technique, what is trusted / bounds)
NOTES = {
    "C01": ("property-based testing: stratification oracle", "independent inverse-CDF strata; up to 8 variables, 2-60 samples"),
    "C02": ("property-based testing: statistical oracle on normal scores", "tolerance 20/n+0.01 far above the method's own error; up to 6 variables; the repair identity itself is C04"),
    "C03": ("property-based testing: reference model and round trip", "element-wise reference in double precision"),
    "C04": ("property-based testing: defining identities", "identities checked to rounding; up to 8x8, definite and indefinite"),
    "C05": ("property-based testing: spectral reference model", "independent numpy eigendecomposition; stores built with pandas"),
    "C06": ("model-based stateful testing against a dictionary", "histories of put/replace/refused put/load on a real HDF5 store"),
    "C07": ("property-based testing: metamorphic and reference relations", "options compared on identical random draws and by set relations"),
    "C08": ("property-based testing: reference model", "per-energy linear search over groups as the oracle"),
    "C09": ("generated tapes against an independent encoder", "own BOXER encoder; program compiled from the current source"),
    "C10": ("generated files against the data they were printed from", "printing and expected store content are independent of the reader"),
    "C11": ("generated option sets against a tape data-flow model", "own NJOY deck reader; NJOY itself is not available"),
    "C12": ("generated evaluations through the real chain with a stand-in NJOY", "the stand-in replaces only the NJOY executable"),
    "C13": ("generated libraries: round trip against an independent writer", "ASCII and binary writers follow the ACE format manual"),
    "C14": ("generated ACE tables against the physical content they encode", "own ACE writer"),
    "C15": ("model-based stateful testing against a dictionary", "histories of edits on generated ACE files"),
    "C16": ("model-based stateful testing: sum-rule reference", "own closure of the published sum rules; histories of edits"),
    "C17": ("generated files and replacement histories against a list model", "own parser of the written text"),
    "C18": ("generated ACE file + store + samples against a pointwise reference", "own group search, sums and chi normalisation"),
    "C19": ("property-based testing: distribution invariants and reference", "generated fission spectra"),
    "C20": ("property-based testing: reference interpolation/quadrature", "own interpolation and numerical integration"),
    "C21": ("generated ENDF text against the values it was printed from", "own ENDF printer"),
    "C22": ("generated identifiers: inverse maps", "own identifier rules"),
    "C23": ("generated data: HDF5 round trip", "all generated distribution laws"),
    "C24": ("property-based testing: tolerance invariants", "generated smooth functions and curves"),
    "C26": ("generated option sets through the real code with a stand-in NJOY", "own NJOY deck reader; the stand-in replaces only the NJOY executable"),
    "C27": ("generated ENDF evaluations against the content they encode", "own ENDF-6 section writer"),
    "C28": ("generated ENDF resonance parameters against the content they encode", "own MF2 writer"),
    "C29": ("generated ENDF resonance covariances: round trip, subset histories and statistical oracle for samples", "own MF32 writer; whitened sample moments, bounds above 7 standard errors"),
    "C30": ("generated thermal ACE tables and histories against the content they encode; defining sum for Bragg edges", "own thermal ACE writer; the stand-in replaces only the NJOY executable"),
    "C31": ("generated MT458 sections against own evaluation of their formulas", "own ENDF-6 section writer"),
    "C32": ("generated ENDF decay and yield sections against the content they encode", "own ENDF-6 section writer; own decay arithmetic"),
    "C33": ("generated ENDF/ACE photon data against the content they encode; differential reading of the bundled tables", "own writers"),
    "C34": ("generated option sets and evaluations through the real code with a stand-in NJOY", "the stand-in replaces only the NJOY executable"),
    "C35": ("generated resonance parameters against a reference implementation in extended precision", "own implementation of the ENDF-6 formulas; reconstruct.pyx compiled from the current source"),
    "C36": ("generated multipole data against numerical quadrature of the defining integrals; HDF5 round trip", "own Faddeeva function and free-gas quadrature"),
    "C37": ("generated file layouts: round trip through the XML index", "files identified by the file system"),
    "C38": ("generated nuclides and states of water against independent reading and formulas", "IAPWS-IF97 coefficients repeated in the check, verified on published values"),
    "C39": ("generated objects: HDF5 round trip of every data class", "own comparison of the objects' content"),
    "C40": ("generated objects: equal and one-value-changed twins", "twins made from one stream of values"),
    "C41": ("generated stores, files and samples: content of the saved figures against a reference", "figures inspected when saved; own group search"),
    "C42": ("stateful: generated objects and histories of valid and invalid assignments; models of the checks, list and numbering", "which values each attribute holds is a table of kinds in the check"),
    "C25": ("generated runs of the real program under mpiexec", "1-5 processes on one host"),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 run_check.py " + i,
                       "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                       "technique": t, "level": "exploration",
                       "level_note": "Generated-input search (Hypothesis, shrinking, replay files) against the real code; no violation on the explored cases is not a proof. Oracle/bounds: " + n + "."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run_check.py setup", "checks": checks, "not_applicable": na,
     "notes": "Checks import ASAPy from /repo's working tree in fresh processes; boxer2mat is compiled from it by the checks that need it. No hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
