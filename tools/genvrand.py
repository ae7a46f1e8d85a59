"""Generate the vrand and vrand2 shims: the top-level functions of math/rand
and math/rand/v2 over a source the harness controls."""
import subprocess,re
SRC='''//go:build go1.22

// Package %(name)s stands in for %(path)s: its top-level functions draw from a
// source the harness enumerates. Generated by tools/genvrand.py.
package %(name)s

import (
	real "%(path)s"
	"vimagination.zapto.org/limage/zzverif/venum"
)

var src = real.New(venum.Source%(v)s{})

'''
def gen(path,name,v,outp):
    doc=subprocess.check_output(['go','doc','-short',path],text=True)
    out=SRC%dict(path=path,name=name,v=v)
    for line in doc.splitlines():
        line=line.strip()
        m=re.match(r'func (\w+)(\[.*?\])?\((.*?)\)\s*(.*)$',line) if 'Shuffle' not in line else re.match(r'func (\w+)(\[.*\])?\((.*)\)()$',line)
        if m:
            fn,tp,args,ret=m.groups()
            if fn.startswith('New'):
                out+='var %s = real.%s\n\n'%(fn,fn); continue
            names=[]
            # parameter names
            depth=0; cur=''; parts=[]
            for ch in args:
                if ch in '([{': depth+=1
                if ch in ')]}': depth-=1
                if ch==',' and depth==0: parts.append(cur); cur=''
                else: cur+=ch
            if cur: parts.append(cur)
            names=[p.strip().split()[0] for p in parts]
            if tp:  # N[Int intType]
                out+='// N draws below n.\nfunc N[Int ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n Int) Int {\n\tif n <= 0 {\n\t\tpanic("invalid argument to N")\n\t}\n\treturn Int(src.Uint64N(uint64(n)))\n}\n\n'
                continue
            if fn=='Seed':
                out+='// Seed does nothing.\nfunc Seed(seed int64) {}\n\n'; continue
            out+='// %s draws from the enumerated source.\nfunc %s(%s) %s { %s src.%s(%s) }\n\n'%(fn,fn,args,ret,'return' if ret else '',fn,', '.join(names))
            continue
        m=re.match(r'type (\w+)',line)
        if m: out+='type %s = real.%s\n\n'%(m.group(1),m.group(1))
    open(outp,'w').write(out)
gen('math/rand','vrand','','/verif/harness/vrand/vrand.go')
gen('math/rand/v2','vrand2','','/verif/harness/vrand2/vrand2.go')
