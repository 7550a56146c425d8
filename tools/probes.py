"""Prints probes that never fired, per evidence file."""
import json, glob
for f in sorted(glob.glob('/verif/evidence/*.json')):
    e = json.load(open(f)); c = e['coverage']
    print(e['property'], c['evaluations'], 'runs; zero probes:', c.get('probes_stuck_at_zero'))
