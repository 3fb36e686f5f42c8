#!/usr/bin/env python3
"""Generates the template matrix: for every (type, operator, presence, initial value) one template,
as FAST template XML (input of the real fast_type_gen) and, independently of the real XML reader, as a
C++ table of field specifications used by the reference codec.   gen.py OUTDIR"""
import sys, os

TY = {'u32': ('uInt32', 'T_U32'), 'i32': ('int32', 'T_I32'), 'u64': ('uInt64', 'T_U64'), 'i64': ('int64', 'T_I64'),
      'dec': ('decimal', 'T_DEC'), 'asc': ('string', 'T_ASC'), 'uni': ('string', 'T_UNI'), 'bv': ('byteVector', 'T_BV')}
INT = ('u32', 'i32', 'u64', 'i64')
STR = ('asc', 'uni', 'bv')
INIT = {'u32': ('5', 'iv_int(5)'), 'i32': ('-3', 'iv_int(-3)'), 'u64': ('5', 'iv_int(5)'), 'i64': ('-3', 'iv_int(-3)'),
        'dec': ('1.20', 'iv_dec(12,-1)'), 'asc': ('ab', 'iv_str("ab",2)'), 'uni': ('ab', 'iv_str("ab",2)'),
        'bv': ('6162', 'iv_str("ab",2)')}
OPX = {'const': 'constant', 'def': 'default', 'copy': 'copy', 'inc': 'increment', 'delta': 'delta', 'tail': 'tail'}
OPC = {'none': 'O_NONE', 'const': 'O_CONST', 'def': 'O_DEF', 'copy': 'O_COPY', 'inc': 'O_INC', 'delta': 'O_DELTA', 'tail': 'O_TAIL'}

def combos(t):
    r = []
    for opt in (0, 1):
        r.append(('none', opt, 0))
        r.append(('const', opt, 1))
        r.append(('def', opt, 1))
        if opt: r.append(('def', opt, 0))
        ops = ['copy', 'delta'] + (['inc'] if t in INT else []) + (['tail'] if t in STR else [])
        for op in ops:
            for ini in (0, 1):
                r.append((op, opt, ini))
    return r

def field_xml(t, name, op, opt, ini):
    tag = TY[t][0]
    a = ' name="%s"' % name
    if opt: a += ' presence="optional"'
    if t == 'uni': a += ' charset="unicode"'
    if op == 'none': return '<%s%s/>' % (tag, a)
    v = ' value="%s"' % INIT[t][0] if ini else ''
    return '<%s%s><%s%s/></%s>' % (tag, a, OPX[op], v, tag)

def spec(t, op, opt, ini):
    return '{%s, %s, %d, %s}' % (TY[t][1], OPC[op], opt, INIT[t][1] if ini else 'iv_none()')

HEAD = '<?xml version="1.0"?>\n<templates xmlns="http://www.fixprotocol.org/ns/fast/td/1.1">\n'

def matrix(out, t):
    x = HEAD; s = []; names = []; i = 0
    for op, opt, ini in combos(t):
        i += 1
        n = 'M_%s_%s_%s%s' % (t, op, 'o' if opt else 'm', '_i' if ini else '')
        x += '<template name="%s" id="%d">%s<uInt32 name="z"/></template>\n' % (n, i, field_xml(t, 'f', op, opt, ini))
        names.append(n); s.append(spec(t, op, opt, ini))
    x += '</templates>\n'
    write(out, 'm_' + t, x, names, ['{"%s", 1, %s}' % (n, q) for n, q in zip(names, s)])
    return names

def write(out, setname, xml, names, specs):
    open(os.path.join(out, setname + '.xml'), 'w').write(xml)
    h = '// generated by templates/gen.py\n#pragma once\n#include "%s.h"\n' % setname
    h += 'namespace spec_%s {\n' % setname
    h += 'static const Spec specs[] = {\n' + ',\n'.join('  ' + s for s in specs) + '};\n'
    h += '#define SPEC_%s_MESSAGES(X) ' % setname + ' '.join('X(%s)' % n for n in names) + '\n}\n'
    open(os.path.join(out, 'spec_' + setname + '.h'), 'w').write(h)

# decimals with operators on exponent and mantissa
SPLIT = [  # exponent op, init, mantissa op, init
    ('none', 0, 'none', 0), ('none', 0, 'delta', 0), ('none', 0, 'copy', 0), ('none', 0, 'def', 1), ('none', 0, 'inc', 0),
    ('const', 1, 'none', 0), ('const', 1, 'delta', 0), ('const', 1, 'copy', 1), ('def', 1, 'delta', 0), ('def', 1, 'copy', 0),
    ('copy', 0, 'none', 0), ('copy', 0, 'delta', 0), ('copy', 1, 'copy', 0), ('copy', 1, 'inc', 1),
    ('delta', 0, 'delta', 0), ('delta', 1, 'delta', 1), ('copy', 0, 'const', 1), ('delta', 0, 'none', 0)]

def split(out):
    x = HEAD; s = []; names = []; i = 0
    for opt in (0, 1):
        for eo, ei, mo, mi in SPLIT:
            i += 1
            n = 'D_%s%s_%s%s_%s' % (eo, '_i' if ei else '', mo, '_i' if mi else '', 'o' if opt else 'm')
            def sub(tag, op, ini, val):
                if op == 'none': return '<%s/>' % tag if tag == 'mantissa' else ''
                return '<%s><%s%s/></%s>' % (tag, OPX[op], ' value="%d"' % val if ini else '', tag)
            x += '<template name="%s" id="%d"><decimal name="f"%s>%s%s</decimal><uInt32 name="z"/></template>\n' % (
                n, i, ' presence="optional"' if opt else '', sub('exponent', eo, ei, -2), sub('mantissa', mo, mi, 7))
            names.append(n)
            s.append('{"%s", 1, {T_SDEC, %s, %d, %s, %s, %s}}' % (n, OPC[eo], opt, 'iv_int(-2)' if ei else 'iv_none()', OPC[mo], 'iv_int(7)' if mi else 'iv_none()'))
    x += '</templates>\n'
    write(out, 'm_sdec', x, names, s)

def main(out):
    os.makedirs(out, exist_ok=True)
    for t in TY: matrix(out, t)
    split(out)
    import tree; tree.main(out)

if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.modules['gen'] = sys.modules['__main__']
    main(sys.argv[1])
