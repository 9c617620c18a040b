"""
Single source of properties.jsonl and MANIFEST.json: 'python3 tools/spec.py' rewrites both.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])),
        check=dict(property=id, quick_cmd='./run.sh {} quick'.format(id), thorough_cmd='./run.sh {} thorough'.format(id),
                   technique=technique, level='exploration', level_note=note)))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')

manifest = dict(version=1, setup_cmd='./run.sh setup', checks=[p['check'] for p in PROPS if os.path.exists(os.path.join(HERE, 'checks', p['prop']['id'] + '.py'))],
                not_applicable=[], notes='Property-based testing with Hypothesis strategies; see DESIGN.md. ./run.sh replay FILE re-executes a saved failing case.')
manifest['not_applicable'] = [dict(property=p['prop']['id'], reason='no check yet') for p in PROPS
                              if not os.path.exists(os.path.join(HERE, 'checks', p['prop']['id'] + '.py'))]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(PROPS), 'properties,', len(manifest['checks']), 'checks')
