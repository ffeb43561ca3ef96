"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'P01': 'generated transactions against a reference encoder; round trip',
    'P02': 'mutation fuzzing of encodings; re-serialisation oracle',
    'P03': 'generated transactions against reference ids',
    'P04': 'differential: generated transactions against a reference digest',
    'P05': 'differential: generated transactions against a reference BIP143',
    'P06': 'differential and stateful: reference fork-id digest over network '
           'histories',
    'P07': 'differential: generated transactions against a reference ZIP143',
    'P08': 'differential: generated transactions against a reference ZIP243',
    'P09': 'generated Sprout transactions against a reference codec and '
           'digest',
    'P10': 'generated Decred transactions against a reference codec and '
           'digest',
    'P11': 'generated Zcash transactions against a reference codec; round '
           'trip',
    'P12': 'differential: generated joinsplits against a reference model',
    'P13': 'generated integers and encodings against a reference codec',
    'P14': 'generated scripts; round trip and reference assembler',
    'P15': 'fuzzing of script text and bytes against a reference parser',
    'P16': 'generated hashes and scripts on all networks; reference codecs',
    'P17': 'fuzzing of address strings; reference classifier on every '
           'network',
    'P18': 'differential: generated payloads and strings against reference '
           'codecs',
    'P19': 'generated addresses against the hash they were made from',
    'P20': 'stateful generation: operation histories over every object kind',
    'P21': 'stateful generation: selection histories against a parameter '
           'table',
    'P22': 'metamorphic: helpers against construction from parts and the '
           'wire model',
    'P23': 'generated transactions against a value balance model',
    'P24': 'generated integers and bytes against Python integers; round trip',
    'P25': 'differential: generated messages and feedings against reference '
           'hashes',
    'P26': 'generated boundary and malformed fields against the format '
           'limits',
    'P27': 'generated standard transactions and single-rule mutations '
           'against a policy model',
    'P28': 'model-based generation: operation programs against a bytearray',
    'P29': 'stateful generation: signing histories judged by a reference '
           'node (parser, digests, ECDSA and script interpreter)',
    'P30': 'stateful generation: call histories and threads against the '
           'same calls in fresh processes',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(x) for x in f]
    checks = []
    for p in props:
        i = p['id']
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'property-based testing (Hypothesis): ' + TECH[i] + (
                '' if i == 'P30' else
                '; thorough: also coverage-guided fuzzing (atheris)'),
            'level': 'exploration',
            'level_note': 'Random structured search with shrinking plus '
                          'fixed boundary and regression cases; not '
                          'exhaustive. The oracle is the reference model in '
                          'vf/ref or the relation stated in DESIGN.md.',
        })
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
         'checks': checks, 'not_applicable': []}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
