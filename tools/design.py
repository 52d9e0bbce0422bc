"""prints the planted-bug table for DESIGN.md"""
import json,glob,os
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); print('| %s | %s | %s | %s |'%(os.path.basename(d), m['property'], m['needs'], m.get('caught','yes')))
