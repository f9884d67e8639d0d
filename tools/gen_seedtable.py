"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the list of first-time misses below."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""c12-booleans c14-parity-of-sum c15-degrees-of-two c16-trimmed c17-weighted-planes c21-same-list c24-author-date
c24-first-parent c24-first-parent-count c25-pixel-size c28-style c01-repr-memo c03-arange-stop c04-uniform-steps c07-integer-magnitudes c07-strongest-last c08-large-single c08-axis-zero
c11-central-plane c15-radial-memo c17-acceleration c17-dark-pixels c18-coarse-rank c21-shared-model c23-sixteen-bits c24-dirty-tag
c25-axial-step-left-out c01-close-values c03-explicit-range-kept c01-defocus-memo c05-nearly-isotropic c07-zernike-memo
c10-sixteen-bit-positions c16-five-hundred c20-repeated-orientations c22-zero-vmin c28-errstate c11-subsampled-mode c04-large-field
c05-large-volume c22-settings-kept c01-same-pupil c04-evanescent c09-numpy-sizes c12-float-factor c13-single-precision-squares
c18-selection-mask c19-absolute-sum c20-airy-unit-of-excitation c21-orientation-count c22-mip-of-moduli c28-data-clipped c03-rounded-step c04-mirrored-half
c15-soft-edge c19-single-plane-unshifted c23-axis-guess c27-squares c28-view-of-table c17-dark-planes-left-out
c20-zero-na c08-native-precision c28-focus-view c28-pad-view c28-unit-bins c15-truthy-norm c17-plane-by-plane c09-median-of-all""".split())
MISSED |= set(json.load(open(os.path.join(HERE, "tools", "missed.json")))) if os.path.exists(os.path.join(HERE, "tools", "missed.json")) else set()

rows = {}
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    rows.setdefault(m["property"], []).append(i + ("*" if i in MISSED else ""))
text = "\n".join(["| caught by | planted bugs |", "|---|---|"] + ["| %s | %s |" % (k, ", ".join(v)) for k, v in sorted(rows.items())])
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n%s\n<!-- /seeds -->" % text, s, flags=re.S)
open(p, "w").write(s)
