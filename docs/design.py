#!/usr/bin/env python3
"""Assembles DESIGN.md from its parts and the catalogue.  Run: python3 docs/design.py"""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(p):
    return open(os.path.join(H, p)).read()


def main():
    out = [rd('docs/design_head.md'), rd('docs/design_props.md')]
    man = json.loads(rd('MANIFEST.json'))
    props = {json.loads(l)['id']: json.loads(l) for l in rd('properties.jsonl').splitlines()}
    out.append('\n## Not applicable\n')
    for n in man['not_applicable']:
        out.append(f"- **{n['property']} {props[n['property']]['title']}**: {n['reason']}")
    k = json.loads(rd('known_findings.json'))
    out.append('\n## Known findings (recorded, not repaired)\n')
    for f in k['findings']:
        out.append(f"- {f['property']} `{f['key']}`: {f['what']}")
    out.append('\n## Defects repaired in /repo (each a `fix:` commit)\n')
    for f in k['fixed']:
        out.append('- ' + f[len('fixed: property='):])
    out.append(rd('docs/design_tail.md'))
    out.append('\n## Planted bugs\n\nEvery planted bug passes the stable tests; its `demo.sh` exits 0 on the unchanged tree and nonzero with the patch.\n\n'
               '| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|')
    caught = json.loads(rd('docs/caught.json'))
    for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
        m = json.loads(rd(f'seeded/{d}/meta.json'))
        out.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, 'not run')} |")
    open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
