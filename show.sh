#!/bin/bash
python3 - "$1" <<'P'
import json,sys
r=json.load(open(sys.argv[1]))
def strip(v):
    if isinstance(v,dict):
        return {k:strip(x) for k,x in v.items() if x not in (None,0,False,"",[])}
    if isinstance(v,list): return [strip(x) for x in v]
    return v
print(json.dumps(strip(r.get('plan')))); print({k:v for k,v in (r.get('schedule') or {}).items()},r.get('minimisation')); print('\n'.join((r.get('trace') or [])[-60:])); print(r['violation'])
P
