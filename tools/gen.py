import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props_src import P
root = os.path.dirname(here)
built = [p for p in P if os.path.exists(f'{root}/vf/props/{p["id"]}.py')]
with open(f'{root}/properties.jsonl', 'w') as f:
    for p in built:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                             observe_at=p['observe'], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]} quick', thorough_cmd=f'./check.sh {p["id"]} thorough',
                      evidence_file=f'evidence/{p["id"]}.json', technique='runtime monitoring: ' + p['technique'],
                      level='exploration', level_note=p['note']) for p in built],
         not_applicable=[], notes='No hooks in /repo are needed: monitors observe public state from the harness side. See DESIGN.md.')
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
print(len(built), 'properties; not built:', [p['id'] for p in P if p not in built])
