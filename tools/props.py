#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept here so both stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'Python/research/scripts/relnet/'
D = 'Python/research/scripts/demo/'
VG = ('static value-graph equivalence: gated-SSA summaries of the real functions, normalised (value numbering over '
      'sets, sums, finite maps and quantifiers), compared with the normal form of a declarative specification')
PROPS = []
NA = {}


def prop(pid, title, statement, over, otext, why, files, mech, technique=VG, note='', na=None, observe=None,
         state=None):
    assert len(title) <= 80, title
    PROPS.append(dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over, text=otext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **(dict(observe_at=observe) if observe else {}),
                     **(dict(state=[dict(name=a, meaning=b, where=c) for a, b, c in state]) if state else {}))))
    PROPS[-1]['_t'] = (technique, note)
    if na:
        NA[pid] = na


exec(open(os.path.join(HERE, 'tools', 'proptable.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k != '_t'}) + '\n')
    man = dict(version=1, setup_cmd='python3 /verif/check.py --selftest',
               checks=[dict(property=p['id'], quick_cmd=f"python3 /verif/check.py --property {p['id']}",
                            thorough_cmd=f"python3 /verif/check.py --property {p['id']} --tier thorough",
                            evidence_file=f"/verif/evidence/{p['id']}.json", technique=p['_t'][0], level='other',
                            level_note=p['_t'][1] or 'decided from the parsed source; constructs outside the decided '
                            'fragment are listed as undecided in the evidence, never reported')
                       for p in PROPS if p['id'] not in NA],
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
