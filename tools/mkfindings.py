import json, subprocess
log = subprocess.run(['git','-C','/repo','log','--format=%h %s','4052618..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
M = {'CuckooFilter starts':'C01','CuckooFilter leaves':'C01','LTC restarts':'L01','LTC extrapolates':'L01','LTC compiles':'L01','LTC keeps':'L01','reservoirs stay':'R01','shifts a chain':'H01','obsolete includes':'H01','timestamp 0':'H01','accepts with probability':'H03','pick_from':'U01','shuffle can':'U02','Kappa':'E02','nearest cluster':'M01','counts its active':'M02','negative integer':'M02','variance is never':'M02','into itself':'M02','backpropagate':'P02'}
M.update(json.load(open('/verif/tools/findings_map.json')) if __import__('os').path.exists('/verif/tools/findings_map.json') else {})
lines=[]
for l in reversed(log):
    h, s = l.split(' ',1)
    if not s.startswith('fix: '): continue
    p=[v for k,v in M.items() if k in s]
    assert p, s
    lines.append('fixed: property=%s %s %s' % (p[0], h, s[5:] ))
import os
op='/verif/tools/open_findings.jsonl'
if os.path.exists(op): lines += [l.strip() for l in open(op) if l.strip()]
open('/verif/known_findings.jsonl','w').write('\n'.join(lines)+'\n'); print(len(lines))
