"""Write known-findings.txt: the defects that were repaired (by the subject of
the commit in /repo) and those that are recorded."""
import subprocess
log={l.split(' ',1)[1]:l.split(' ',1)[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()}
FIXED=[
("C07","blend the green and blue channels of formula modes with their own channel","any channel-formula mode of colours whose channels differ: green and blue were computed from the bottom's red"),
("C08","do not wrap around in burn mode","Burn of 0x0000 and 0x0001: white instead of black (unsigned wrap-around), and burn by 0 reversed"),
("C08","do not wrap around in hard light mode at the midpoint","HardLight of 0x0000 and 0x7fff: 0xffff instead of 0"),
("C08","grain merge subtracts the midpoint","GrainMerge of 0 and 0: 0x7fff instead of 0"),
("C08","overlay screens the bottom colour with itself","Overlay and SoftLight of 0 and 0x8000: not 0"),
("C10","dissolve by the alpha of the top layer","Dissolve with a transparent top over an opaque bottom always showed the top"),
("C09","respect both alpha channels in hue, saturation, color, value and luminosity modes","Color with a transparent top: the result had the top's alpha and replaced the bottom"),
("C02","convert light HSL colours to RGB without wrapping","HSL of (1,0,0) back to RGB gives (0xbfbd,0xc0c1,0xc0c1)"),
("C01","convert to gray alpha by the straight colour","GrayAlphaModel.Convert(GrayAlpha{3,0}) = {0,0}"),
("C01","match palette colours by the straight colour","AlphaPalette.Index of a translucent white in a black and white palette: black"),
("C04","report paletted images with alpha as opaque only when they are","PalettedAlpha.Opaque was inverted"),
("C04","decide opacity of sub-images by their own pixels","the opaque left pixel of an image whose other pixels are translucent, as a sub-image, is reported not opaque"),
("C03","do not panic when reading an image with an empty palette","NewPalettedAlpha(r, AlphaPalette{}).At panics"),
("C06","keep pixels in place when cropping a layer","a layer at (-2,1) cropped to (-3,2)-(-1,3): the pixel at (-2,2) is that of (-2,1)"),
]
KNOWN=[]
try:
    exec(open('/verif/tools/findings_more.py').read())
except FileNotFoundError: pass
out="# Defects found by the checks. 'known:' entries are reported as KNOWN-FINDING and do not fail the check;\n# 'fixed:' entries are history and suppress nothing.\n"
for p,k,d in KNOWN: out+="known: property=%s key=%s :: %s\n"%(p,k,d)
for p,s,d in FIXED: out+="fixed: property=%s %s %s\n"%(p,log['fix: '+s],d)
open('/verif/known-findings.txt','w').write(out)
missing=set(s[5:] for s in log if s.startswith('fix: '))-set(f[1] for f in FIXED)
print('unrecorded:',missing)
