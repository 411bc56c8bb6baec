"""Writes the table of planted bugs (from seeded/*/meta.json and seeded_results.json) into DESIGN.md."""
import json, os, glob, re
here = os.path.dirname(os.path.abspath(__file__))
res = json.load(open(os.path.join(here, 'seeded_results.json')))
rows = ['| planted bug | property | needs | caught by (quick) |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| {} | {} | {} | {} |'.format(i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(res.get(i, [])) or 'missed'))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
k = s.index('## Planted bugs')
s = s[:k] + '''## Planted bugs

Each was written from the text of a property and the code; all keep the stable tests passing and have a demonstration.
Four of the first 28 (p01_ragged, p02_prefix, p03_setup_order, p04_backup_dir) were missed at first and led to stronger
generators (near misses at any position, facies names that are prefixes of each other, more kinds of
defects, moved run directories). Of the next 12, p08_spread and p19_clip were missed at first (now: element types of
very different thickness in one stratum; conductivities down to 1e-13).

''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
