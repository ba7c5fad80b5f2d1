#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one place (run by hand after editing)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PX = 'pydantic_xml/'
SF = PX + 'serializers/factories/'

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    PROPS.append((dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=[PX + f for f in files.split()],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
    ), dict(technique=technique, note=note)))


REF = ('bounded exhaustive exploration of model programs x documents/values on the real library against an executable '
       'reference model')
TRUST = ('Exhaustive within the stated bounds, on the real code, for both XML backends. Trusts the reference model '
         '(harness/ref.py), pydantic itself for primitive conversion, and the XML parsers/writers of lxml and the '
         'standard library.')

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in PROPS:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [
            {
                'property': p['id'],
                'quick_cmd': f'/opt/venv/bin/python check.py {p["id"]} quick',
                'thorough_cmd': f'/opt/venv/bin/python check.py {p["id"]} thorough',
                'evidence_file': f'evidence/{p["id"]}.json',
                'technique': m['technique'],
                'level': 'model_checking',
                'level_note': m['note'],
            }
            for p, m in PROPS if m['technique']
        ],
        'not_applicable': NOT_APPLICABLE,
        'notes': 'No hooks are needed in /repo: everything is driven through the public API (C15 uses the tracing '
                 'facility of the interpreter, C25 runs mypy with the plugin of the working tree).',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
