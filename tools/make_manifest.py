"""Writes /verif/MANIFEST.json: a check per property with a module in rtm/props."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
TRUST = ('Held on the executions of this run (counts in the evidence file), no proof. Trusts the reference model '
         'rtm/ref.py (80-bit floats), numpy/scipy{}, the tolerances stated in DESIGN.md and the input distribution in rtm/gen.py.')


def main():
    checks, missing = [], []
    with open(os.path.join(HERE, 'properties.jsonl')) as fid:
        for line in fid:
            d = json.loads(line)
            pid = d['id']
            if not os.path.exists(os.path.join(HERE, 'rtm', 'props', pid.lower() + '.py')):
                missing.append(dict(property=pid, reason='check not built yet'))
                continue
            mod = importlib.import_module('rtm.props.' + pid.lower())
            checks.append(dict(property=pid, quick_cmd='./check {} quick'.format(pid),
                               thorough_cmd='./check {} thorough'.format(pid),
                               evidence_file='evidence/{}.json'.format(pid),
                               technique='runtime monitoring: ' + mod.TECHNIQUE, level='exploration',
                               level_note=TRUST.format(getattr(mod, 'TRUSTS', ''))))
    manifest = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=missing,
                    notes='No hooks in /repo: the event tap (rtm/tap.py) wraps the public functions and methods at '
                          'run time in the checking process. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fid:
        json.dump(manifest, fid, indent=1)
        fid.write('\n')
    print(len(checks), 'checks,', len(missing), 'missing')


main()
