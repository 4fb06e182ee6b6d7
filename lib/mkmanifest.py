"""Writes MANIFEST.json from the checks that exist (checks/pXX.py with FAMILIES)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = {
 'P03': 'histories exhaustively enumerated plus preemption-bounded exploration of all line-level interleavings of real threads',
}
checks, na = [], []
for p in props:
    id_ = p['id']
    if os.path.exists(os.path.join(here, 'checks', id_.lower() + '.py')):
        checks.append(dict(property=id_, quick_cmd='./run.sh ' + id_, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + id_,
            technique='bounded exhaustive exploration of the real code (stateless model checking) against a reference model',
            level='model_checking',
            level_note=NOTES.get(id_, 'every history / configuration inside the bounds printed in the evidence is executed on the real code and compared step by step with a reference model; nothing is sampled')))
    else:
        na.append(dict(property=id_, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./run.sh --selftest', checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
