"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as fh:
    for p in props.PROPS:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = None
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props.PROPS:
    if p['claimed']:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 rules/check.py %s' % p['id'],
                            'thorough_cmd': 'python3 rules/check.py %s --thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'Which production a token begins is decidable statically, but no check of it was finished; that each visitor has an action for each node type is already enforced by the compiler (pure virtual functions).'})
m['notes'] = 'All checks are static: they run a clang based fact extractor over /repo\'s current sources and decide a rule over the facts. Nothing of the repository is executed.'
with open(root + '/MANIFEST.json', 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
