#!/usr/bin/python3
"""Single source of the property list: writes properties.jsonl, checks.json
and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, quant, why, files, mech, module=None, rule='', technique='', note='',
         assumptions=(), need=None, state=None, observe=None, pending=None, **cfg):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                         why_tests_cant=why, anchors=a),
                  id=id, module=module, rule=rule, technique=technique, note=note,
                  assumptions=list(assumptions), need=need or {}, pending=pending, cfg=cfg))

exec(open(os.path.join(HERE, 'spec_props.py')).read())

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in P:
            f.write(json.dumps(e['p']) + '\n')
    checks = {}
    man = dict(version=1, setup_cmd='python3 setup_check.py', hooks=dict(
        guard='none', enable='no hooks: every monitor observes the public interface of the unmodified modules, which Jython compiles from /repo on each run',
        source_commits=[]), checks=[], not_applicable=[], notes=NOTES)
    for e in P:
        if not e['module']:
            man['not_applicable'].append(dict(property=e['id'], reason=e['pending'] or 'monitor not built yet'))
            continue
        checks[e['id']] = dict(module=e['module'], rule=e['rule'], need=e['need'], assumptions=e['assumptions'], **e['cfg'])
        man['checks'].append(dict(property=e['id'],
            quick_cmd='python3 run.py %s --tier quick' % e['id'],
            thorough_cmd='python3 run.py %s --tier thorough' % e['id'],
            technique=e['technique'], level="exploration", level_note=e['note'],
            evidence_file='evidence/%s.json' % e['id']))
    for name, data in (('checks.json', checks), ('MANIFEST.json', man)):
        with open(os.path.join(HERE, name), 'w') as f:
            json.dump(data, f, indent=1)
            f.write('\n')
    print(len(man['checks']), 'checks', len(man['not_applicable']), 'not applicable')

NOTES = 'Runtime monitoring of the real modules under Jython 2.7; see DESIGN.md.'
main()
