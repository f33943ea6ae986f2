"""Print the table of planted bugs for DESIGN.md."""
import glob, json, os
for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded', '*', 'meta.json'))):
    d = json.load(open(p))
    by = ', '.join(d.get('caught_by') or [d['property']])
    print('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)).split('-')[0], by, d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
