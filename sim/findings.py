"""Known findings: defects of the code that are recorded, not repaired."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'known_findings.json')


def _load():
    with open(PATH) as f:
        return json.load(f)


def listed(prop_id):
    return [k for k in _load()['known'] if k['property'] == prop_id]


def match(prop_id, plan, violation):
    """The known finding that this violation is an instance of, or None."""
    for k in listed(prop_id):
        if violation[0] != k['kind']:
            continue
        if all(str(s) in violation[1] for s in k.get('contains', ())):
            return k
    return None
