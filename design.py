#!/usr/bin/env python3-vt
"""Writes DESIGN.md: the fixed text design_text.md, then one section per property from meta_props.py, the harness
sources and known_findings.json (run by hand, like meta.py)."""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
import meta_props
from suites import PROPS


def harness_list(u):
    s = open(os.path.join(HERE, 'harness', u['h'])).read()
    hs = re.findall(r'^\s*void (h_\w+)\(void\)', s, re.M)
    gen = re.findall(r'^\s*(?:H|T|D|DEF|TEST)\w*\((\w+)', s, re.M)
    if u.get('only'):
        hs = [h for h in hs if re.search(u['only'], h)]
    return hs


def main():
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    out = [open(os.path.join(HERE, 'design_text.md')).read().rstrip(), '', '## Properties', '']
    for p in meta_props.PROPS:
        if p['id'] in dict(meta_props.NOT_APPLICABLE):
            continue
        d = PROPS[p['id']]
        out += ['### %s %s' % (p['id'], p['title']), '']
        out += ['*Specified:* ' + p['statement'], '', '*Quantified:* ' + p['text'] + '.', '', '*Why the tests cannot settle it:* ' + p['why'], '']
        for u in d.get('units', []):
            src = [os.path.basename(x) if not x.startswith('gen:') else x for x in u['src']]
            hs = harness_list(u)
            out.append('*Decided by:* symbolic execution, `harness/%s` over %s; harnesses %s.' % (u['h'], ', '.join(src), ', '.join(hs) if hs else '(generated by macros in the file)'))
        for u in d.get('cbmc', []):
            out.append('*Decided by:* CBMC, `harness/%s` over %s %s.' % (u['h'], ', '.join(u['src']), ' '.join(u.get('flags', []))))
        out += ['', '*Bounds:* ' + (p['note'] or meta_props.TFB)]
        fx = [x for x in kf['fixed'] if 'property=%s ' % p['id'] in x]
        kn = [x for x in kf['known'] if x['property'] == p['id']]
        if fx:
            out += ['', '*Defects repaired (%d):* ' % len(fx) + '; '.join(re.sub(r'^fixed: property=\w+ (\w+) ', r'\1 ', x) for x in fx) + '.']
        if kn:
            out += ['', '*Known findings:* ' + '; '.join('%s: %s' % (x['harness'], x['what']) for x in kn) + '.']
        out.append('')
    if meta_props.NOT_APPLICABLE:
        out += ['## Not applicable', '']
        out += ['* **%s**: %s' % (a, b) for a, b in meta_props.NOT_APPLICABLE]
        out.append('')
    out += ['## Planted bugs', '', '| id | property | needs | breaks |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        j = json.load(open(m))
        out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'], j['what_it_breaks']))
    out += ['', open(os.path.join(HERE, 'design_notes.md')).read().rstrip(), '']
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
