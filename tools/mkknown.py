import subprocess
import sys
extra=dict(a.split('=') for a in sys.argv[1:]); 
import os,json

out=[]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','5781145..HEAD'],text=True)
mp=json.load(open('/verif/tools/fixmap.json'))
mp.update(extra); json.dump(mp,open('/verif/tools/fixmap.json','w'))
for l in log.splitlines():
    h,s=l.split(' ',1)
    assert s.startswith('fix: '),s
    if h[:7] not in mp: print('unmapped',h,s); continue
    out.append('fixed: property=%s %s %s'%(mp[h[:7]],h,s[5:]))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
