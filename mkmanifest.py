"""Write MANIFEST.json from the plan and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import plan
props = {}
for l in open('properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d
TECH = {
    'default': 'gated value graph of each function compared with its specification by case regions '
               '(global value numbering with linear-constraint pruning)',
    'W02': 'ownership (origin) dataflow of buffer values, plus value-graph comparison of copies and '
           'conversions',
    'W03': 'alias dataflow of buffer values, plus value-graph comparison of slicing',
    'W04': 'interprocedural effect and origin analysis of all functions, module state and defaults',
    'I01': 'interface completeness over the class hierarchy and resolved call targets',
    'T01': 'loop and recursion lint (ranking, endless iterators), plus value-graph comparison of '
           'searches and recursions',
}
NOTE = {
    'default': 'Decides the stated behaviour for all arguments meeting the assumptions in /verif/spec '
               'as far as each function equals its specification; constructs the normaliser does not '
               'understand are printed as UNDECIDED and not claimed. Trusts the front end and the '
               'normaliser in /verif/sa.',
    'L03': 'The two-pointer compression is compared with the same algorithm in the specification; its '
           'equality with "number of smaller row indices" for sorted input is argued in DESIGN.md.',
    'L04': 'The binary searches are compared with specified binary searches; that these find sorted '
           'entries is argued in DESIGN.md. Sortedness itself is L05.',
    'D02': 'Bounds, divisibility and construction from the prepared solution are decided; completeness '
           'of the search is D03, not claimed.',
    'T01': 'Termination of the searches and recursions follows from equality with specified ones with '
           'a ranking argument (DESIGN.md); other loops are checked for finite iteration.',
}
NA = {
    'D03': 'completeness of position solving depends on the numerical outcome of an integral Gauss '
           'elimination and a one-off rounding search; no static argument in reach bounds it',
    'W05': 'whether an assignment overlaps its own source depends on run-time index ranges and the '
           'element order; today\'s code documents no answer',
}
m = dict(version=1, setup_cmd='python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"',
         checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Static analysis only: /repo is parsed, never imported or run. check.py ID [REPO].')
for pid in props:
    if pid in NA:
        continue
    m['checks'].append(dict(
        property=pid, quick_cmd='python3 check.py ' + pid,
        thorough_cmd='VERIF_TIER=thorough python3 check.py ' + pid,
        technique=TECH.get(pid, TECH['default']), level='other',
        level_note=NOTE.get(pid, NOTE['default'])))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks;', set(props) - set(plan.PLAN) - set(NA), 'unplanned')
