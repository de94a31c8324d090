"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, state=state, observe=observe))


exec(open(os.path.join(HERE, 'properties_table.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            anchors = {'files': p['files'],
                       'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                       'observe_at': p['observe'] or ['public Python API', 'raw TCP boundary'],
                       'hook_needed': None}
            if p['state']:
                anchors['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': 'harness/check %s' % p['id'],
                'thorough_cmd': 'VERIF_TIER=thorough harness/check %s' % p['id'],
                'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python -W ignore -c "import tornado, sys; sys.path.insert(0, \'/repo\'); import katcp"',
         'hooks': {'guard': 'none', 'enable': 'no hooks are needed: every monitor observes the public '
                   'API, the TCP boundary or injected event loops', 'source_commits': []},
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
