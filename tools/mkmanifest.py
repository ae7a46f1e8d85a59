"""Write MANIFEST.json from the list of checks."""
import json, os
V='/verif'
groups=json.load(open(V+'/groups.json'))
claimed=[c for g in groups.values() for c in g['checks']]
INFO={
"C01":("exploration","exhaustive enumeration of the colour domain on the real code against a reference","All 2^24 RGB and 2^16 gray+alpha colours, and boundary grids of colours in 11 representations through every model and palettes of up to 1000 colours. Trusts the standard library's NRGBA64 conversion."),
"C02":("exploration","exhaustive enumeration of the colour domain on the real code against a reference","All 2^24 8-bit colours, a 16-bit grid with extremes, every 16-bit hue on a saturation/lightness grid; tolerance 14/65535."),
"C03":("model_checking","explicit-state BFS to fixpoint over pixel states, every transition executed on the real image","All reachable pixel states of images of up to 6 pixels over a 3-value alphabet, every write through every view (image, sub-image, nested sub-image); images of up to 70 000 pixels on a side at and around powers of two."),
"C04":("exploration","exhaustive enumeration of alpha assignments and views","All assignments of three alphas to images up to 9 pixels and every (nested) sub-image; one pixel anywhere in large images."),
"C05":("exploration","exhaustive enumeration of small layered pictures against a reference fold","All one- and two-layer pictures over 17 picture kinds, 73 modes, 5 bounds; three-layer ones over smaller alphabets, up to 257 layers, deep groups, far places. Pairwise composition is trusted here and decided by C07-C10."),
"C06":("exploration","exhaustive enumeration of crop sequences against the uncropped original","Every crop of a window and every sequence of up to three crops over smaller sets, on 52 pictures, of up to 257 layers, and of large pictures."),
"C07":("exploration","exhaustive enumeration of colour pairs in every mode against the alpha laws","All pairs over a grid of 7 component values and 7 alphas (thorough: 11 and 10); every 16-bit alpha under a transparent top and over a transparent bottom."),
"C08":("exploration","exhaustive enumeration of channel value pairs against the formulas","Every 16-bit bottom value against 1800+ top values (thorough: all 2^32 pairs) in 15 modes; alpha grids."),
"C09":("exploration","exhaustive enumeration of colour pairs against a real-valued reference","All pairs over a grid of 1000 colours (thorough: 10648), the whole hue wheel, alpha grids."),
"C10":("exploration","exhaustive enumeration of the random source's outcomes","Every draw of an equidistributed enumeration for every 8-bit top alpha; proportions to 1/500. Assumes math/rand."),
}
exec(open(V+'/tools/info_more.py').read()) if os.path.exists(V+'/tools/info_more.py') else None
NA=json.load(open(V+'/tools/na.json')) if os.path.exists(V+'/tools/na.json') else {}
checks=[]
for c in sorted(claimed):
    lv,tech,note=INFO[c]
    checks.append({"property":c,"quick_cmd":"python3 run.py "+c,"thorough_cmd":"VERIF_TIER=thorough python3 run.py "+c,"evidence_file":"evidence/%s.json"%c,"technique":tech,"level":lv,"level_note":note})
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m={"version":1,"setup_cmd":"python3 run.py --setup","hooks":{"guard":"none","enable":"no hooks are committed to /repo: the checks build instrumented copies of its files through go build -overlay","source_commits":[]},
"checks":checks,
"not_applicable":[{"property":p,"reason":NA.get(p,"machinery not built yet")} for p in props if p not in claimed],
"notes":"run.py builds the harness of a group of checks against /repo's working tree (overlay of virtual packages, stand-ins for the three dependencies that cannot be fetched) in a scratch directory and runs one check. See DESIGN.md."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
import subprocess
