#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'P01': 'property-based testing of the program against a reference model of the projection',
    'P02': 'property-based testing of the program against a reference model of the projection',
    'P03': 'property-based testing of the program against a reference model of the projection',
    'P04': 'property-based testing of the program against a reference model of the projection',
    'P05': 'property-based testing against an independent spheroid geometry model',
    'P06': 'property-based testing: decode stored integers and compare with the model value',
    'P07': 'property-based testing: plotted iff inside of the limits, by reference model',
    'P08': 'property-based testing: header extrema against pixels and reference model',
    'P09': 'property-based testing against an independent pinhole camera model',
    'P10': 'property-based testing against a reference model of the visibility rules',
    'P11': 'property-based testing against a reference model of the photo pipeline',
    'P12': 'property-based testing against a reference model of photo composition',
    'P13': 'grammar-based generation of expressions against an independent evaluator',
    'P14': 'metamorphic testing: equivalent notations of generated maps',
    'P15': 'mutation and token fuzzing under AddressSanitizer/UBSan plus out-of-range generation',
    'P16': 'metamorphic testing over generated histories of maps: joint run equals separate runs',
    'P17': 'property-based testing of grid images against the projection models',
    'P18': 'property-based testing with an independent FITS reader, with injected write faults',
    'P19': 'differential testing: configuration defaults against the same entries written out',
    'P20': 'structure-aware FITS corruption fuzzing under AddressSanitizer/UBSan with value oracle',
    'P21': 'property-based testing of the library: round trips and differential body mask',
    'P22': 'property-based testing of the library: algebraic laws and model comparison',
    'P23': 'property-based testing of the output over histories of maps, and model-based notifications',
    'P24': 'fault injection into generated batches of input files, with a model of the outcome',
}
NOTE = ('Generated-input search on the program built from the current tree; quiet means no counterexample '
        'among the generated cases, not a proof. Trusts the Python reference model and FITS reader in vlib/, '
        'which are independent of the code under test; inputs within rounding of a decision boundary are skipped.')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check still under construction'})
m = {'version': 1, 'setup_cmd': 'python3-vt vlib/build.py fast san', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo: the checks compile its sources themselves (vlib/build.py) and drive the '
              'marc program, or the library through probe/probe.cpp. Property texts: tools/mkprops.py.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
