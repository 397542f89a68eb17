"""Rewrites the generated part of DESIGN.md: planted bugs and the checks that catch them."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/design_table.py -->'


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    head = open(path).read().split(MARK)[0]
    rows = ['| planted bug | caught by | needs |', '|---|---|---|']
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        rows.append('| {}: {} | {} | {} |'.format(os.path.basename(d), m['what_it_breaks'].replace('|', '/'),
                                              m['property'], m['needs'].replace('|', '/')))
    open(path, 'w').write(head + MARK + '\n' + '\n'.join(rows) + '\n')


main()
