#!/usr/bin/env python3
import json,sys
f=sys.argv[1]; pat=sys.argv[2]
d=json.load(open(f)); 
for k,b in d['bodies'].items():
    if pat in k:
        print('###',k, 'argc',b['argc'],'spread',b.get('spread'))
        for i,(t,n) in enumerate(b['locals']): print('  _%d: %s %s'%(i,t,n or ''))
        for i,blk in enumerate(b['blocks']):
            if blk.get('cl'): continue
            print(' bb%d:'%i)
            for s in blk['s']: print('    ',json.dumps(s))
            print('    ->',json.dumps(blk['t']))
