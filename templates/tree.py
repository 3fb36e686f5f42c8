"""Structured templates: groups, sequences, template references, dictionaries.  Emits the template XML
(input of the real generator) and, by independent rules, the same structure as C++ tables for the
reference codec (keys are numbered by the scope rules of FAST 1.1, section 6.3.1)."""
from gen import TY, INIT, OPX, OPC, INT, write
import os

class F:
    def __init__(s, ty, name, op='none', opt=0, ini=0, key=None, dic=None, ns=None, kns=None, tag=None):
        s.ty, s.name, s.op, s.opt, s.ini, s.key, s.dic, s.ns, s.kns, s.tag = ty, name, op, opt, ini, key, dic, ns, kns, tag
class V:  # integer vector
    def __init__(s, ty, name, opt=0): s.ty, s.name, s.opt = ty, name, opt
class G:
    def __init__(s, name, opt, ch, dic=None, ns=None, typ=None, tns=None): s.name, s.opt, s.ch, s.dic, s.ns, s.typ, s.tns = name, opt, ch, dic, ns, typ, tns
class S:
    def __init__(s, name, opt, ch, lop=None, lini=None, lkey=None, lname=None, dic=None, ns=None, lns=None, typ=None, tns=None):
        s.name, s.opt, s.ch, s.lop, s.lini, s.lkey, s.lname, s.dic, s.ns, s.lns, s.typ, s.tns = name, opt, ch, lop, lini, lkey, lname, dic, ns, lns, typ, tns
class R:  # static templateRef
    def __init__(s, name): s.name = name
class DR:  # dynamic templateRef
    def __init__(s, targets): s.targets = targets
class T:
    def __init__(s, name, ch, reset=0, dic=None, typ=None, top=1, ns=None, tns=None): s.name, s.ch, s.reset, s.dic, s.typ, s.top, s.ns, s.tns = name, ch, reset, dic, typ, top, ns, tns

def at(**k): return ''.join(' %s="%s"' % (n, v) for n, v in k.items() if v)
def opx(op, ini, key, dic, ns=None):
    if op == 'none': return ''
    return '<%s%s%s%s/>' % (OPX[op], ' key="%s"' % key if key else '', at(dictionary=dic, ns=ns), ' value="%s"' % ini if ini is not None else '')

class Emit:
    def __init__(s, out, setname, tpls, ns='', dic=''):
        s.tpls = {t.name: t for t in tpls}
        s.keys = {}
        s.n = 0
        s.decl = ''
        s.maxkey = 0
        x = '<?xml version="1.0"?>\n<templates xmlns="http://www.fixprotocol.org/ns/fast/td/1.1" xmlns:scp="http://www.fixprotocol.org/ns/fast/scp/1.1" xmlns:mfast="http://www.ociweb.com/ns/mfast/td/1.2"%s>\n' % at(ns=ns, dictionary=dic)
        rows = []
        for i, t in enumerate(tpls):
            x += ' <template name="%s" id="%d"%s%s>%s%s</template>\n' % (t.name, i + 1, at(dictionary=t.dic, ns=t.ns), ' scp:reset="yes"' if t.reset else '',
                    s.typ(t), ''.join(s.xml(c) for c in t.ch))
            t.id = i + 1
        for t in tpls:
            ctx = s.ctx(dict(dic=dic or 'global', tpl=t.name, typ='', ns=ns), t)
            a, n = s.nodes(t.ch, ctx)
            rows.append('{"%s", %d, %d, %d, %s, %d, &%s::%s::instruction_ptr}' % (t.name, t.id, t.reset, t.top, a, n, 'ins', t.name) if 0 else
                        '{"%s", %d, %d, %d, %s, %d}' % (t.name, t.id, t.reset, t.top, a, n))
        x += '</templates>\n'
        open(os.path.join(out, setname + '.xml'), 'w').write(x)
        h = '// generated by templates/tree.py\n#pragma once\n#include "%s.h"\n#include "tree.h"\nnamespace spec_%s {\n' % (setname, setname)
        h += s.decl + 'static const TTpl tpls[] = {\n  ' + ',\n  '.join(rows) + '};\n'
        h += 'static const int ntpl = %d, nkeys = %d;\n' % (len(tpls), max(1, len(s.keys)))
        h += '}\n#define TYPES_%s(X) %s\n' % (setname, ' '.join('X(%d, %s::%s)' % (i + 1, setname, t.name) for i, t in enumerate(tpls)))
        open(os.path.join(out, 'spec_' + setname + '.h'), 'w').write(h)

    def typ(s, c): return '<typeRef%s/>' % at(name=c.typ, ns=c.tns) if getattr(c, 'typ', None) else ''
    def ctx(s, ctx, c):
        # scopes: what an element says, else that of the element around it
        ns = c.ns or ctx['ns']
        return dict(dic=c.dic or ctx['dic'], ns=ns, typ=(c.tns or ns, c.typ) if c.typ else ctx['typ'], tpl=ctx['tpl'])
    def xml(s, c):
        o = (' presence="optional"' if getattr(c, 'opt', 0) else '') + at(ns=getattr(c, 'ns', None)) + at(**{'mfast:tag': getattr(c, 'tag', None)})
        if isinstance(c, F):
            if c.ty == 'decs':  # exponent / mantissa operators
                return '<decimal name="%s"%s><exponent>%s</exponent><mantissa>%s</mantissa></decimal>' % (c.name, o, opx(c.op[0], None, None, None), opx(c.op[1], None, None, None))
            cs = ' charset="unicode"' if c.ty == 'uni' else ''
            tag = TY[c.ty][0]
            return '<%s%s%s%s>%s</%s>' % (tag, at(name=c.name), o, cs, opx(c.op, INIT[c.ty][0] if c.ini else None, c.key, c.dic, c.kns), tag)
        if isinstance(c, V):
            tag = TY[c.ty][0] + 'Vector'
            return '<%s name="%s"%s/>' % (tag, c.name, o)
        if isinstance(c, G): return '<group name="%s"%s%s>%s%s</group>' % (c.name, o, at(dictionary=c.dic), s.typ(c), ''.join(map(s.xml, c.ch)))
        if isinstance(c, S):
            l = ''
            if c.lop is not None or c.lname: l = '<length name="%s"%s>%s</length>' % (c.lname or c.name + 'Len', at(ns=c.lns), opx(c.lop or 'none', c.lini, c.lkey, None))
            return '<sequence name="%s"%s%s>%s%s%s</sequence>' % (c.name, o, at(dictionary=c.dic), s.typ(c), l, ''.join(map(s.xml, c.ch)))
        if isinstance(c, R): return '<templateRef name="%s"/>' % c.name
        return '<templateRef/>'

    def key(s, ctx, name, key, dic, kind, ns=None):
        d = dic or ctx['dic']
        scope = {'template': ctx['tpl'], 'type': ctx['typ']}.get(d, '')
        return s.keys.setdefault((d, scope, ns or ctx['ns'], key or name, kind if not key else ''), len(s.keys))

    def nodes(s, ch, ctx):
        r = []
        for c in ch:
            if isinstance(c, R):
                # the referenced fields appear in place
                t = s.tpls[c.name]
                a, n = s.nodes(t.ch, dict(ctx, dic=t.dic or ctx['dic']))
                r.append(('splice', a, n)); continue
            if isinstance(c, F):
                if c.ty == 'decs':
                    ke = s.key(ctx, c.name, c.key, c.dic, 'e', c.kns or c.ns); km = s.key(ctx, c.name, c.key, c.dic, 'm', c.kns or c.ns)
                    r.append('{K_FIELD, %d, {T_SDEC, %s, %d, iv_none(), %s, iv_none()}, %d, %d}' % (c.opt, OPC[c.op[0]], c.opt, OPC[c.op[1]], ke, km))
                else:
                    k = s.key(ctx, c.name, c.key, c.dic, '', c.kns or c.ns)
                    r.append('{K_FIELD, %d, {%s, %s, %d, %s}, %d}' % (c.opt, TY[c.ty][1], OPC[c.op], c.opt, INIT[c.ty][1] if c.ini else 'iv_none()', k))
            elif isinstance(c, V):
                r.append('{K_VEC, %d, {%s, O_NONE, %d, iv_none()}, -1}' % (c.opt, TY[c.ty][1], c.opt))
            elif isinstance(c, G):
                a, n = s.nodes(c.ch, s.ctx(ctx, c))
                r.append('{K_GROUP, %d, {}, -1, -1, %s, %d}' % (c.opt, a, n))
            elif isinstance(c, S):
                cx = s.ctx(ctx, c)
                a, n = s.nodes(c.ch, cx)
                k = s.key(cx, c.lname or c.name + 'Len', c.lkey, None, '' if c.lname else 'len', c.lns)
                r.append('{K_SEQ, %d, {T_U32, %s, %d, %s}, %d, -1, %s, %d}' % (c.opt, OPC[c.lop or 'none'], c.opt, 'iv_int(%s)' % c.lini if c.lini is not None else 'iv_none()', k, a, n))
            else:
                ids = [s.tpls[t].id for t in c.targets]
                r.append('{K_TREF, 0, {}, -1, -1, nullptr, 0, %s}' % hex(sum(1 << i for i in ids)))
        s.n += 1
        nm = 'n%d' % s.n
        flat = []
        for q in r:
            if isinstance(q, tuple): flat += s.store[q[1]]
            else: flat.append(q)
        if not hasattr(s, 'store'): s.store = {}
        s.store[nm] = flat
        s.decl += 'static const TNode %s[] = {\n  %s};\n' % (nm, ',\n  '.join(flat) or '{K_FIELD}')
        return nm, len(flat)
Emit.store = {}

def sets():
    u = lambda n, *a, **k: F('u32', n, *a, **k)
    yield 't_seq', [
        T('SeqPlain', [S('s', 0, [u('a'), F('asc', 'b', 'none', 1)]), u('z')]),
        T('SeqCopy', [S('s', 0, [u('a', 'copy'), F('i32', 'b', 'delta')]), u('z')]),
        T('SeqOpt', [S('s', 1, [u('a', 'copy', 1)]), u('z')]),
        T('SeqOptConst', [S('s', 1, [u('a')], 'const', 2), u('z')]),
        T('SeqConst', [S('s', 0, [u('a')], 'const', 2), u('z')]),
        T('SeqDef', [S('s', 0, [u('a')], 'def', 1), u('z')]),
        T('SeqOptDef', [S('s', 1, [u('a')], 'def'), u('z')]),
        T('SeqCopyLen', [S('s', 0, [u('a')], 'copy'), u('z')]),
        T('SeqCopyLenI', [S('s', 0, [u('a')], 'copy', 2), u('z')]),
        T('SeqOptCopyLen', [S('s', 1, [u('a')], 'copy'), u('z')]),
        T('SeqOptCopyLenI', [S('s', 1, [u('a')], 'copy', 1), u('z')]),
        T('SeqIncLen', [S('s', 0, [u('a')], 'inc'), u('z')]),
        T('SeqOptIncLen', [S('s', 1, [u('a')], 'inc', 1), u('z')]),
        T('SeqDeltaLen', [S('s', 0, [u('a')], 'delta'), u('z')]),
        T('SeqOptDeltaLen', [S('s', 1, [u('a')], 'delta', 1), u('z')]),
        T('SeqSeq', [S('s', 0, [S('q', 1, [u('a', 'inc')]), u('b')]), u('z')]),
    ]
    yield 't_grp', [
        T('GrpPlain', [G('g', 0, [u('a'), u('b')]), u('z')]),
        T('GrpPmap', [G('g', 0, [u('a', 'copy'), u('b')]), u('c', 'copy'), u('z')]),
        T('GrpOpt', [G('g', 1, [u('a'), u('b')]), u('c', 'copy'), u('z')]),
        T('GrpOptPmap', [G('g', 1, [u('a', 'copy', 1), F('asc', 'sb', 'copy', 1)]), u('c', 'def', 0, 1), u('z')]),
        T('GrpNest', [G('g', 1, [u('a', 'inc'), G('h', 1, [u('b', 'copy')]), G('i', 0, [u('c', 'delta')])]), u('z')]),
        T('GrpSeq', [G('g', 1, [S('s', 1, [u('a', 'copy'), G('h', 1, [u('b')])])]), u('z')]),
        T('SeqGrp', [S('s', 0, [G('g', 0, [u('a', 'copy')])]), S('r', 1, [G('h', 1, [u('b'), u('c')])]), u('z')]),
        T('GrpVec', [G('g', 1, [V('i32', 'v', 1), V('u64', 'w')]), u('z')]),
        T('Vecs', [V('u32', 'a', 1), V('i64', 'b', 0), u('z')]),
        T('GrpDec', [G('g', 1, [F('decs', 'd', ('copy', 'delta'), 1), F('dec', 'e', 'copy')]), u('z')]),
        T('GrpConst', [G('g', 0, [u('k', 'const', 0, 1), u('l', 'const', 1, 1)]), u('z')]),
    ]
    yield 't_ref', [
        T('Body', [u('a', 'copy'), F('asc', 'b', 'none', 1)]),
        T('Leaf', [u('x', 'inc', 1)]),
        T('Reset', [u('a', 'copy'), u('k', 'inc', 1)], reset=1),
        T('Static', [u('p'), R('Body'), u('z')]),
        T('StaticGrp', [G('g', 1, [R('Body')]), u('z')]),
        T('StaticSeqMore', [S('s', 0, [R('Body'), u('y')]), u('z')]),
        T('SeqBody', [S('s', 0, [u('m', 'copy')])]),
        T('StaticSeqRef', [u('p'), R('SeqBody'), u('z')]),
        T('Dyn', [u('p'), DR(['Body', 'Leaf']), u('z', 'copy')]),
        T('DynTwo', [DR(['Leaf', 'GrpT']), DR(['Leaf']), u('z')]),
        T('GrpT', [G('g', 1, [u('h', 'copy')]), S('s', 1, [u('i')]), F('asc', 't')]),
        T('DynSeq', [S('s', 0, [DR(['Leaf', 'Body']), u('y')]), u('z')]),
        T('DynReset', [u('a', 'copy'), DR(['Reset', 'Leaf']), u('z', 'copy')]),
        T('DynSelf', [u('a', 'copy'), S('s', 1, [DR(['DynSelf', 'Leaf']), u('y')])]),
        T('DynGrp', [G('g', 1, [DR(['Body'])]), u('z')]),
    ]
    yield 't_r1', [  # constructs the generated (v2) code cannot be compiled for
        T('Body', [u('a', 'copy'), F('asc', 'b', 'none', 1)]),
        T('Leaf', [u('x', 'inc', 1)]),
        T('StaticSeq', [S('s', 0, [R('Body')]), u('z')]),
        T('StaticSeqOpt', [S('s', 1, [R('Leaf')]), u('z')]),
        T('DynSeqSole', [S('s', 0, [DR(['Leaf', 'Body'])]), u('z')]),
        T('Bare', [u('n'), F('asc', 'm', 'none', 1)]),
        T('StaticSeqBare', [S('s', 0, [R('Bare')]), u('z')]),
        T('StaticSeqTwo', [S('s', 0, [R('Body')]), S('r', 1, [R('Body')]), u('z')]),
    ]
    yield 't_dict', [
        T('A', [u('a', 'copy'), u('b', 'inc', 1)]),
        T('B', [u('a', 'copy'), u('b', 'copy', 1)]),
        T('KeyC', [u('c', 'copy', key='a'), u('d', 'delta', key='b')]),
        T('TplD', [u('a', 'copy', dic='template'), u('b', 'copy', 1, dic='template')]),
        T('TplE', [u('a', 'copy'), u('x', 'copy', key='a', dic='global')], dic='template'),
        T('UserF', [u('a', 'copy', dic='mine'), G('g', 0, [u('b', 'copy')], dic='mine'), u('z', 'copy', key='b', dic='mine')]),
        T('TypG', [u('a', 'copy', dic='type')], typ='Ty1'),
        T('TypH', [u('a', 'copy', dic='type')], typ='Ty1'),
        T('TypI', [u('a', 'inc', dic='type')], typ='Ty2'),
        T('RstJ', [u('a', 'copy'), u('q', 'copy', dic='mine', key='a')], reset=1),
        T('StrK', [F('asc', 's', 'copy', 1), F('asc', 't', 'delta', key='s')]),
        T('SeqL', [S('s', 0, [u('b', 'inc', 1)], 'copy', None, 'a')]),
        T('Plain', [u('z')]),
        # fields whose operator does not use the dictionary leave the entries of their name alone
        T('NoneN', [u('a'), u('b', 'none', 1), F('asc', 's')]),
        T('DefO', [u('a', 'def', 0, 1), u('b', 'def', 1), F('asc', 's', 'def', 1)]),
        T('ConP', [u('a', 'const', 1, 1), u('b', 'const', 0, 1)]),
        T('DecQ', [F('decs', 'd', ('copy', 'copy'), 1)]),
        T('DecR', [F('decs', 'd', ('copy', 'delta'), 1), F('dec', 'f', 'copy', 1)]),
        T('TaiS', [F('bv', 'y', 'copy', 1), F('uni', 'w', 'copy', 1)]),
        T('TaiT', [F('bv', 'v', 'copy', 1, key='y'), F('uni', 'w', 'delta')]),
        T('GrpU', [G('g', 0, [u('a', 'copy'), G('h', 0, [u('b', 'copy', 1, dic='template')])], dic='mine'), u('x', 'copy', key='b', dic='template')]),
        T('SeqV', [S('s', 0, [u('a', 'inc')], 'copy', None, None, 'b', dic='mine')]),
        T('I64W', [F('i64', 'n', 'inc', 1), F('i64', 'o', 'copy', key='n')]),
    ]

    # JSON
    yield 't_js', [
        T('JU32', [u('a', 'none', 1)]),
        T('JI32', [F('i32', 'a', 'none', 1)]),
        T('JU64', [F('u64', 'a', 'none', 1)]),
        T('JI64', [F('i64', 'a', 'none', 1)]),
        T('JDec', [F('dec', 'a', 'none', 1)]),
        T('JAsc', [F('asc', 'a', 'none', 1)]),
        T('JUni', [F('uni', 'a', 'none', 1)]),
        T('JBv', [F('bv', 'a', 'none', 1)]),
        T('JVec', [V('i32', 'v', 1), V('u64', 'w')]),
        T('JVec2', [V('u32', 'v'), V('i64', 'w', 1), u('z')]),
        T('JGrp', [G('g', 1, [u('a', 'none', 1), G('h', 1, [u('b')])]), G('i', 0, [u('c', 'none', 1)])]),
        T('JSeq', [S('s', 1, [u('a', 'none', 1), S('q', 0, [F('i32', 'b', 'none', 1)])]), u('z', 'none', 1)]),
        T('JMix', [u('a', 'none', 1), S('s', 1, [u('x')]), G('g', 1, [u('y', 'none', 1)]), V('u32', 'v', 1), F('asc', 't', 'none', 1), F('dec', 'd', 'none', 1), u('z', 'none', 1)]),
        T('JCon', [F('asc', 'a', 'const', 0, 1), u('b', 'const', 1, 1), F('dec', 'd', 'def', 0, 1), F('bv', 'e', 'const', 1, 1), u('z')]),
        T('JRef', [u('p'), R('JU32'), S('s', 0, [R('JGrp')])]),
        T('JUn', [S('s', 0, [F('asc', '')]), S('q', 1, [F('i64', '')]), u('z')]),
        T('JTag', [F('bv', 'a', tag=1), F('bv', 'b', 'none', 1, tag=5), F('asc', 't', 'none', 1, tag=2), u('z')]),
    ]
    # namespaces
    yield 't_ns', [
        T('N1', [u('a', 'copy')]),
        T('N2', [u('a', 'copy', ns='x')]),
        T('N3', [u('a', 'copy')], ns='x'),
        T('N4', [G('g', 0, [u('a', 'copy')], ns='x'), u('b', 'copy', key='a')]),
        T('N5', [u('b', 'copy', key='a', kns='x'), u('c', 'copy', key='a', kns='y')]),
        T('N6', [u('a', 'copy', ns='x', dic='mine')]),
        T('N7', [u('b', 'copy', key='a', ns='x', dic='mine'), u('c', 'copy', key='a', dic='mine')]),
        T('N8', [u('a', 'copy', ns='x', dic='type'), u('b', 'copy', key='a', dic='type')], typ='Ty', tns='x'),
        T('N9', [u('a', 'copy', dic='type')], typ='Ty', ns='x'),
        T('N10', [u('a', 'copy', dic='type')], typ='Ty'),
        T('N11', [G('g', 0, [u('a', 'copy', dic='type')], typ='Ty', ns='x'), u('b', 'copy', key='a', dic='type', kns='x')]),
        T('N12', [S('s', 0, [u('a', 'inc', 1)], 'copy', None, None, 'a', ns='x', lns='y'), S('t', 0, [u('b', 'copy', key='a')], 'copy', None, 'a', typ='Ty', dic='type')], typ='Ty', tns='x'),
        T('N13', [F('dec', 'd', 'copy', ns='x'), G('g', 0, [F('dec', 'd', 'copy'), F('asc', 's', 'copy', ns='x')]), F('asc', 's', 'copy')]),
        T('N14', [F('dec', 'd', 'copy'), F('asc', 's', 'delta')], ns='x'),
    ]
    # a namespace and a dictionary for all templates of the file
    yield 't_nr', [
        T('R1', [u('a', 'copy')]),
        T('R2', [u('a', 'copy', ns='x'), u('b', 'copy', key='a', kns='y')]),
        T('R3', [u('a', 'copy')], dic='template'),
        T('R4', [u('a', 'copy', dic='global'), G('g', 0, [u('a', 'copy')], dic='type', typ='Ty')], ns='y'),
        T('R5', [u('a', 'copy', dic='mine', ns='x'), u('b', 'copy', dic='type', key='a')], typ='Ty', tns='y'),
        T('R6', [S('s', 0, [u('a', 'copy', 1)], 'copy', None, 'a')], ns='y'),
    ], 'x', 'mine'
    # sequences, for the operations on them
    yield 't_sq', [
        T('Q1', [S('s', 0, [u('a'), F('asc', 'b', 'none', 1)])]),
        T('Q2', [S('s', 1, [u('a')])]),
        T('Q3', [S('s', 1, [u('a'), S('q', 1, [u('b')])])]),
        T('Q4', [S('s', 0, [u('a'), G('g', 1, [F('bv', 'b')])])]),
        T('Q5', [S('s', 0, [u('a'), DR(['Q6'])])]),
        T('Q6', [u('z')]),
    ]
    # presence maps of every size around the byte and word boundaries
    c = lambda n, k, op='copy': [u('%s%d' % (n, i), op) if op != 'def0' else u('%s%d' % (n, i), 'def', 0, 1) for i in range(k)]
    yield 't_pm', [
        T('P6', c('a', 6) + [u('z')]),
        T('P7', c('a', 7) + [u('z')]),
        T('P8', c('a', 8) + [u('z')]),
        T('P13', c('a', 13) + [u('z')]),
        T('D5', c('a', 5) + [F('decs', 'd', ('copy', 'copy'), 1), u('z')]),
        T('D6', c('a', 6) + [F('decs', 'd', ('copy', 'copy'), 1), u('z')]),
        T('D6m', c('a', 6) + [F('decs', 'd', ('copy', 'copy'), 0), u('z')]),
        T('D5s', c('a', 5) + [F('decs', 'd', ('copy', 'delta'), 1), F('decs', 'e', ('delta', 'copy'), 1), u('z')]),
        T('G7', [F('bv', 'v'), G('g', 0, c('a', 7)), G('h', 1, c('b', 8)), u('z')]),
        T('S6', [S('s', 1, c('a', 6) + [F('decs', 'd', ('copy', 'copy'), 1)], 'copy'), u('z')]),
        T('S7', [F('bv', 'v'), S('s', 0, c('a', 7) + [F('uni', 'w')]), u('z')]),
        T('O1', [u('a', 'copy'), u('z')]),
        T('V1', [F('bv', 'v'), G('g', 0, [u('a', 'copy')]), F('uni', 'w'), S('s', 0, [u('b', 'copy')]), u('z')]),
        T('D5g', [F('bv', 'v'), G('g', 0, [F('decs', 'd', ('copy', 'copy'), 1), F('decs', 'e', ('def', 'def'), 1)]), u('z')]),
    ]
    # enough presence bits to leave a machine word (the encoders' unit is 56, the decoders' 63)
    yield 't_pw', [T('P%d' % k, c('a', k) + [u('z')]) for k in (55, 56, 61, 62, 63, 64, 112)] + [
        T('G57', [F('bv', 'v'), G('g', 0, c('a', 57)), u('z')]),
        T('S64', [S('s', 0, c('a', 64)), u('z')]),
        T('D55', c('a', 54) + [F('decs', 'd', ('copy', 'copy'), 1), u('z')]),
    ]

    # decoding presence maps of any length
    yield 't_pd', [T('P%d' % k, c('a', k, 'def0') + [u('z')]) for k in (6, 7, 13, 55, 61, 62, 63, 69, 125)] + [
        T('G63', [F('bv', 'v'), G('g', 0, c('a', 63, 'def0')), u('z')]),
        T('S64', [S('s', 0, c('a', 64, 'def0')), u('z')]),
    ]

def main(out):
    for n, *a in sets():
        Emit.store = {}
        Emit(out, n, *a)
