#!/usr/bin/env python3
"""replay.py <replay_X.json> : rebuild the unit from /repo's current source and
run the recorded input on it (the real code, AddressSanitizer on)."""
import sys, json, os
h=os.path.dirname(os.path.abspath(__file__))
r=json.load(open(sys.argv[1]))
if 'input_hex' not in r:
    print('no concrete input; failed obligations:'); [print('  ',x) for x in r.get('failed_obligations',[])]; sys.exit(1)
os.execv(sys.executable if os.path.exists('/opt/veriftools/pyvenv/bin/python3')==False else '/opt/veriftools/pyvenv/bin/python3',['python3',h+'/run.py',r['property'],'--unit',r['unit'],'--replay',os.path.abspath(sys.argv[1])])
