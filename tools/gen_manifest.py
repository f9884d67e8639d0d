"""Writes /verif/MANIFEST.json: every property with a check is claimed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "TLC exhausts the PSF parameter/pupil/copy state machine (spec/PSFModel) within bounds and simulates longer histories; each history is replayed on real models, and recorded random histories are judged by spec/PSFTrace. Numerical oracle: lib/denote.py, itself checked exactly in C04/C05.",
    "C02": "Acceptance rules as a TLA+ machine (PSFConstruct, PSFModel); every single-parameter assignment and construction within the bounds, valid and invalid, replayed with full state comparison.",
    "C03": "TLC exhausts histories of axial size/step/range assignments with user-owned arrays (spec/Axial); replayed on HanserPSF.",
    "C04": "TLC evaluates the pupil sum exactly (rational polar geometry, quarter-turn twiddles) over enumerated grids; code results compared at 1e-9, plus an oracle cross-validated by TLC's exact values for arbitrary parameters.",
    "C05": "TLC enumerates shells in exact integer arithmetic and the exact rational factors; code compared point by point, then against an oracle TLC validated.",
    "C06": "TLC counts the overlaps and energies exactly; the code's four results are compared with them and with each other over arbitrary parameters and read orders.",
    "C07": "TLC exhausts histories of aberrating, reading and changing models with exact pupil phases; replayed on real models.",
    "C08": "Exact DFTs (quarter-turn lattices) and index maps enumerated by TLC for all small sizes and axes; random arrays against the definition.",
    "C09": "TLC enumerates all size pairs; the code's index maps are compared, larger sizes judged by TLC.",
    "C10": "TLC enumerates positions and widths in quarter steps; larger ones judged by TLC.",
    "C11": "TLC runs the preparation pipeline on enumerated integer volumes; compared voxel by voxel.",
    "C12": "TLC enumerates shapes and factors with asymmetric integer data; compared exactly.",
    "C13": "TLC assigns each pixel its ring in exact integer arithmetic; means and deviations compared.",
    "C14": "TLC generates Noll's sequence from its ordering rule and proves the bijection on the range; tables compared completely.",
    "C15": "TLC computes integer radial polynomials and proves values at 1 and orthogonality; code compared on grids, forms of request judged.",
    "C16": "TLC explores the stopping-rule machine over exact metric histories (spec/Retrieval, RetrievalScaled); real retrievals are recorded and judged by it, stop iteration and histories alike.",
    "C17": "TLC runs exact retrieval steps on quarter-turn lattices (spec/RetrievalExact, RetrievalStep); code compared per iteration, random data compared with an oracle TLC validated.",
    "C18": "TLC explores histories of calls on result objects and the exact padding/cropping and selection rules; replayed on real results.",
    "C19": "TLC computes the centred binning of the oversampled grid exactly and explores configurations; code compared pixel by pixel.",
    "C20": "TLC enumerates microscope configurations and gives the beam and pinhole geometry; every configuration replayed against an independent composition.",
    "C21": "TLC explores histories of assignments and reads for each microscope class; replayed on real microscopes.",
    "C22": "TLC computes projections, sections and extents exactly for enumerated volumes; compared with the drawn artists.",
    "C23": "TLC enumerates forms of call; each replayed and compared with the library pipeline.",
    "C24": "TLC explores git histories (commit, tag, edit) with the version each must report; replayed in scratch repositories.",
    "C25": "TLC explores histories of models with the representation each must print; replayed on real models.",
    "C27": "TLC enumerates points, whole numbers, Pythagorean indices and sample ranges with exact replies and their laws; code compared, real inputs by the same laws.",
    "C28": "TLC explores schedules of overlapping calls with memory and scratch room (and shows each rule is needed); replayed with real calls halted at lines of the package, against answers of fresh processes.",
    "C29": "TLC explores histories of assignments, reads, copies, writes and fetches (and shows each rule is needed); replayed with every kind of object, in this and in another process, against new objects.",
    "C26": "TLC explores sequences of fits and plotting calls with what every panel of every figure must show; replayed with the drawn artists read back.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py %s quick" % i,
                               thorough_cmd="/opt/venv/bin/python check.py %s thorough" % i,
                               technique="TLA+ specification checked with TLC, behaviours replayed into the code and observations judged by the specification",
                               level="model_checking",
                               level_note=NOTE[i] + " Assumes the bounds in DESIGN.md and IEEE doubles within the stated tolerance."))
        else:
            na.append(dict(property=i, reason="no check yet: the specification for it is being written"))
    m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
             notes="TLA+ with TLC. No hooks in /repo were needed: everything is observed through the public API. "
                   "Known findings and repairs: known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
