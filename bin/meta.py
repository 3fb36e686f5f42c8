#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below (single source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'src/mfast/coder/'
ALL = []
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, note, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    ALL.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a), note))
TECH = 'symbolic execution of the clang IR of the real sources with an SMT solver (Z3), bounded; counterexamples replayed on a native build'
BASE = 'Every path within the stated bounds is decided by the solver (bounds in the evidence file); trusts the symbolic executor in symx/, clang -O1 IR, Z3 and the harness oracle. Counterexamples are re-run on a g++/ASan build of the same sources before they are reported. '

ENCF = [C + 'encoder/fast_encoder.cpp', C + 'encoder/encoder_field_operator.cpp', C + 'encoder/fast_ostream.h', C + 'encoder_v2/fast_encoder_core.h', C + 'encoder_v2/fast_ostream_inserter.h', C + 'common/codec_helper.h']
DECF = [C + 'decoder/fast_decoder.cpp', C + 'decoder/decoder_field_operator.cpp', C + 'decoder/fast_istream.h', C + 'decoder/decoder_presence_map.h', C + 'decoder_v2/fast_decoder_core.h', C + 'common/codec_helper.h']
M_ENC = [('v1 operators', C + 'encoder/encoder_field_operator.cpp'), ('v2 operators', C + 'encoder_v2/fast_encoder_core.h'), ('previous values', 'src/mfast/field_ref.h, src/mfast/value_storage.h')]
M_DEC = [('v1 operators', C + 'decoder/decoder_field_operator.cpp'), ('v2 operators', C + 'decoder_v2/fast_decoder_core.h'), ('stop-bit decoding', C + 'decoder/fast_istream.h')]
DICT = [{'name': 'previous value', 'meaning': 'undefined, empty or assigned value of each dictionary key', 'where': 'src/mfast/value_storage.h; instructions/*.h prev_value()'}]
for id, kind, ex in (('P01', 'Integer', ' (32 or 64 bits, signed or unsigned)'), ('P02', 'Decimal', ' (including decimals whose exponent and mantissa have operators of their own)'), ('P03', 'String and byte vector', ' (ASCII, unicode, byte vector)')):
    prop(id, kind + ' fields survive encoding, under every operator and history',
      'For every field operator, presence and initial value, a sequence of messages with a %s field%s encoded by either encoder decodes, both by the FAST 1.1 specification and by the matching mFAST decoder, to exactly the values (or absences) written, the following fields are intact, and exactly the bytes produced are consumed. Exceptions: the listed findings (absent optional field with default operator and initial value%s).' % (kind.lower(), ex, '; tail operator with a value shorter than its base' if id == 'P03' else ''),
      ['inputs', 'histories', 'configurations'], 'for all field values, all message histories (dictionary states) and all operator / presence / initial-value configurations',
      'The wire form depends on the previous value, operator, presence and magnitude of the value; the unit tests sample a handful of (previous, current) pairs per operator.',
      ENCF + DECF, M_ENC + M_DEC, BASE + 'Oracle: an independent reference decoder (harness/refcodec.h) written from the FAST 1.1 specification, and the real decoder.', DICT)
for id, kind in (('P04', 'Integer'), ('P05', 'Decimal'), ('P06', 'String and byte vector')):
    prop(id, kind + ' fields decode as FAST 1.1 prescribes, from any bytes',
      'For any byte string offered as a stream of messages with one %s field under any operator, each decoder either yields exactly the value (or absence) that the FAST 1.1 specification prescribes from the bytes and the dictionary state and consumes exactly those bytes, or raises an exception where the specification calls for a dynamic error (D5, D6, D7, D9, truncated input). No input makes it read or write outside its buffers, crash, or fail an assertion. Integers beyond the 32/64 bits of their type (error D2, a listed finding) and reportable errors are outside.' % kind.lower(),
      ['inputs', 'histories', 'configurations'], 'for all byte strings and all decoder dictionary states they can produce, all operator configurations',
      'Hostile or merely unusual bytes are unbounded in number; the tests decode a few dozen hand-written streams.',
      DECF, M_DEC, BASE + 'Oracle: the independent reference decoder of harness/refcodec.h; memory safety is checked on every load and store of the executed IR.', DICT)
prop('P07', 'The dynamic (v1) and the static (v2) decoder agree on every input',
      'Given the same byte string and the same history, the table-driven decoder and the template-based decoder either both accept it with equal field values and the same number of bytes consumed, or both reject it with an exception.',
      ['inputs', 'histories', 'configurations'], 'for all byte strings, histories and field configurations', 'No test compares the two decoders on anything but the few messages they share.',
      DECF, M_DEC, BASE + 'Relational check of two implementations on the same symbolic bytes.', DICT)
import sys
sys.path.insert(0, os.path.join(V, 'bin'))
import meta_more
meta_more.add(prop, NA, BASE, C)
import props
with open(V + '/properties.jsonl', 'w') as f:
    for p, _ in ALL: f.write(json.dumps(p) + '\n')
for p, _ in ALL:
    if len(p['title']) > 80: print('title too long', p['id'], len(p['title']))
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': [], 'notes': 'bin/check.py PROPERTY quick|thorough rebuilds engine, IR and native replay binaries from /repo. No hooks are used.'}
for p, note in ALL:
    i = p['id']
    if i in props.PROPS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking', 'level_note': note})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
