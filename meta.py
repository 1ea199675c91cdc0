#!/usr/bin/env python3-vt
"""Regenerates properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from meta_props import TFB


def main():
    import meta_props
    props, na = meta_props.PROPS, meta_props.NOT_APPLICABLE
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                                 observe_at=p['observe'], hook_needed=None))) + '\n')
    nad = {k: v for k, v in na}
    man = dict(version=1, setup_cmd='python3-vt setup.py', checks=[], not_applicable=[dict(property=k, reason=v) for k, v in na])
    for p in props:
        if p['id'] in nad:
            continue
        man['checks'].append(dict(property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'], thorough_cmd='./check.py %s --tier thorough' % p['id'],
                                  technique=p['tech'], level=p['level'], level_note=p['note'] or TFB))
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    import jsonschema
    try:
        sch = json.load(open('/root/.vp/MANIFEST.schema.json'))
        jsonschema.validate(man, sch)
        ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(HERE, 'properties.jsonl')):
            jsonschema.validate(json.loads(l), ps)
    except FileNotFoundError:
        pass


if __name__ == '__main__':
    main()
