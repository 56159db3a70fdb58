#!/usr/bin/env python3
"""Shows the failing events of the replay files of a property."""
import json, glob, sys
for f in sorted(glob.glob('/verif/replays/%s/*.json' % sys.argv[1]))[:int(sys.argv[2]) if len(sys.argv) > 2 else 4]:
    r = json.load(open(f))
    print('==', f, r['failed'][:300])
    if 'crash' in r['log']:
        print(r['log']['crash'], r['log']['tb'][-700:])
    else:
        ev = r['log']['ev'][max(0, r['event'] - 1)]
        print('EVENT', json.dumps(ev)[:1800])
        if len(sys.argv) > 3:
            print('CASE', json.dumps(r['case'])[:3000])
