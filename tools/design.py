#!/usr/bin/env python3
"""Write DESIGN.md from tools/design.tmpl.md and the lists kept elsewhere."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    with open(os.path.join(HERE, *p), encoding='utf-8') as f:
        return f.read()


def main():
    t = read('tools', 'design.tmpl.md')
    manifest = json.loads(read('MANIFEST.json'))
    na = ['* **%s**: %s' % (n['property'], n['reason'])
          for n in manifest['not_applicable']]
    fixed = []
    for line in read('known-findings.txt').splitlines():
        m = re.match(r'(fixed|finding): property=(\S+) (\S+) (.*)', line)
        if m:
            fixed.append('* %s (%s%s): %s' % (
                m[2], m[3], '' if m[1] == 'fixed' else ', recorded', m[4]))
    seeds = []
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        j = json.loads(read('seeded', d, 'meta.json'))
        seeds.append('| %s | %s | %s |' % (
            d, j['property'], ' '.join(j['what_it_breaks'].split())))
    t = t.replace('@@NA@@', '\n'.join(na))
    t = t.replace('@@DEFECTS@@', '\n'.join(fixed))
    t = t.replace('@@SEEDS@@', '\n'.join(
        ['| planted bug | caught by | what it breaks |', '|-|-|-|'] + seeds))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write(t)


main()
