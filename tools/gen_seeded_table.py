"""prints the table of planted bugs for DESIGN.md (documentation only; no check reads seeded/)"""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | breaks | needs |\n|----|----|----|')
for i in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, i, 'meta.json')))
    print('| %s | %s: %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
