"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json"""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | property | needs | caught by |')
print('|---|---|---|---|')
for d in sorted(os.listdir(R)):
    m = json.load(open(os.path.join(R, d, 'meta.json')))
    print('| %s | %s | %s | %s quick |' % (d, m['property'], m['needs'].strip().replace('|', '/').replace('\n', ' '), m['property']))
