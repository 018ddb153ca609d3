#!/usr/bin/env python3
'''Writes MANIFEST.json from properties.jsonl and the specs present in sa/specs.'''
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'N01': 'The accumulated floating-point error of a cached product depends on run-time magnitudes and on BLAS rounding '
           'over histories of unbounded length; no static argument in reach bounds it.',
    'N02': 'A convergence claim about the distribution of a random search over unboundedly many steps; it is not a '
           'fact about constructs of the source.',
    'N03': 'Needs an analytic error bound of the product formulas for arbitrary Hamiltonians; the structure of the '
           'sequences (what such a bound starts from) is claimed under the decomposition properties, the rate is '
           'mathematics about run-time norms.',
    'N04': 'A statement about a distribution produced inside a library routine (random_unitary of SciPy/NumPy/qutip); '
           'the source only calls it.',
}
TODO = 'No sound static check of it has been finished yet.'


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        path = os.path.join(HERE, 'sa', 'specs', pid.lower() + '.py')
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
        elif os.path.exists(path):
            m = importlib.import_module('sa.specs.' + pid.lower())
            checks.append({'property': pid, 'quick_cmd': f'./check {pid}', 'thorough_cmd': f'./check {pid}',
                           'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation: symbolic value-flow over all '
                                                'paths, obligations decided by term normalisation'),
                           'level': 'other',
                           'level_note': 'Static analysis of the current source for arbitrary inputs. ' + m.RULE
                           + ' Assumes: ' + '; '.join(m.ASSUMES) + '. An obligation the analysis cannot decide is listed '
                           'as undecided in the evidence and raises no alarm.'})
        else:
            na.append({'property': pid, 'reason': TODO})
    out = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 9)"', 'checks': checks,
           'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
