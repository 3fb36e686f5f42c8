"""The properties and the symbolic-execution tasks that decide them."""
ASSUMPTIONS = [
    'the clang -O1 IR (before optimisation passes other than mem2reg/SROA/early-CSE/simplifycfg/inlining) means what the shipped g++ build means; every counterexample and a sample of explored paths is re-run on a g++/ASan build of the same sources',
    'operator new fails only beyond the stated allocation limit; libc/libstdc++ functions outside the bitcode (memcpy family, iostream parts) behave as modelled in harness/models*.cpp',
    'single thread']
def T(h, entry, cost=1, timeout=400, samples=2, need=('end',), **params):
    return dict(h=h, entry=entry, params=params, cost=cost, timeout=timeout, samples=samples, need=list(need))

NT = dict(u32=19, i32=19, u64=19, i64=19, dec=15, asc=19, uni=19, bv=19, sdec=36)
INTS, DECS, STRS = ('u32', 'i32', 'u64', 'i64'), ('dec', 'sdec'), ('asc', 'uni', 'bv')

def enc(types, **kw):
    def f(tier):
        r = []
        th = tier == 'thorough'
        for t in types:
            for i in range(NT[t]):
                for ver in (1, 2):
                    if t in STRS:
                        r.append(T('field_' + t, 'enc_m_' + t, t=i, ver=ver, hist=3 if th else 2, len=3 if th else 2))
                        continue
                    # whole value range, first message; restricted values over longer histories
                    r.append(T('field_' + t, 'enc_m_' + t, cost=4, t=i, ver=ver, hist=1, dom=0))
                    r.append(T('field_' + t, 'enc_m_' + t, cost=12, timeout=3000 if th else 400, t=i, ver=ver, hist=3 if th else 2, dom=2 if t in DECS and not th else 1))
                    if th and t in INTS: r.append(T('field_' + t, 'enc_m_' + t, cost=60, timeout=3000, t=i, ver=ver, hist=2, dom=0))
        return r
    return f
def dec(types, modes, nq, nt, hq=3, ht=3):
    def f(tier):
        th = tier == 'thorough'
        r = []
        for t in types:
            n = (nt if th else nq)
            n = n[t] if isinstance(n, dict) else n
            for i in range(NT[t]):
                for m in modes: r.append(T('field_' + t, 'dec_m_' + t, cost=2 if t in STRS else 1, timeout=3000 if th else 400, t=i, mode=m, hist=ht if th else hq, n=n))
        return r
    return f

def wide(mode):
    def f(tier):
        th = tier == 'thorough'
        return [T('field_' + t, 'wide_m_' + t, timeout=1200, samples=1, t=i, ver=ver, mode=mode, base=b) for t in STRS for i in range(NT[t]) for ver in (1, 2) for b in ((60, 124, 252, 1020, 16380) if th else (60, 124))]
    return f
def both(*fs): return lambda tier: [t for f in fs for t in f(tier)]
PROPS = {}
def P(id, tasks, bounds, **kw): PROPS[id] = dict(tasks=tasks, bounds=bounds, **kw)

FIELD_OUT = 'longer histories, longer strings, templates other than one field followed by one uInt32; values outside the quick tier\'s restricted domain in the second and later messages'
P('P01', enc(INTS), lambda t: 'every (type, operator, presence, initial value) combination of uInt32/int32/uInt64/int64 (76 templates); 1 message with all values; %d messages with values -128..255 and the 8 at either end of the range%s; both encoder versions' % ((3, '; 2 messages with all values') if t == 'thorough' else (2, '')), outside=FIELD_OUT)
P('P02', enc(DECS), lambda t: '51 decimal templates (single operator and individual exponent/mantissa operators); 1 message with all mantissas and exponents -63..63; %s' % ('3 messages with mantissas -128..127 and 8 at either end, exponents -2..1' if t == 'thorough' else '2 messages with mantissas -128..127 and exponents -2..0'), outside=FIELD_OUT)
P('P03', both(enc(STRS), wide(1)), lambda t: '57 string/byteVector templates; %d messages, lengths 0..%d, all byte values (ASCII: 7 bit, no leading NUL); 3 messages with lengths %s, the second one equal, changed, extended or shortened at the front, in the middle or at the end, or unrelated' % ((3, 3, '60..68, 124..132, 252..260, 1020..1028, 16380..16388') if t == 'thorough' else (2, 2, '60..68, 124..132')), outside=FIELD_OUT)
P('P04', dec(INTS, (1, 2), 8, 10), lambda t: 'every byte string of %d bytes after the template identifier, decoded as up to 3 messages, 76 integer templates, both decoders' % (10 if t == 'thorough' else 8), outside='longer inputs; overlong integers (reportable error R6), results beyond the type\'s range (R4/R5)')
P('P05', dec(DECS, (1, 2), 9, 11), lambda t: 'every byte string of %d bytes after the template identifier, up to 3 messages, 51 decimal templates, both decoders' % (11 if t == 'thorough' else 9), outside='longer inputs; overlong integers, exponents outside -63..63 (R1)')
P('P06', both(dec(STRS, (1, 2), dict(asc=8, uni=7, bv=7), dict(asc=9, uni=8, bv=8)), wide(2)), lambda t: 'streams of P03 with long values, whole and truncated; every byte string of %s bytes after the template identifier, up to 3 messages, 57 string templates, both decoders' % ('9 (ASCII) / 8' if t == 'thorough' else '8 (ASCII) / 7'), outside='longer inputs; overlong entities')
P('P07', dec(INTS + DECS + STRS, (3,), dict(u32=8, i32=8, u64=8, i64=8, dec=9, sdec=9, asc=8, uni=7, bv=7), dict(u32=10, i32=10, u64=10, i64=10, dec=11, sdec=11, asc=9, uni=8, bv=8)), 'all 184 single-field templates, every byte string of 7 to 9 bytes (thorough: 8 to 11) after the template identifier as up to 3 messages', outside='longer inputs')

# ---- structured templates
NTREE = dict(seq=16, grp=11, ref=15, r1=8, dict=23)
def tenc(pairs, modes=(7,), vers=(1, 2), **kw):
    """pairs: set -> list of template sequences"""
    def f(tier):
        r = []
        for s, seqs in pairs(tier).items():
            for q in seqs:
                for ver in ((1,) if s == 'r1' else vers):
                    for m in modes:
                        if s == 'r1': m &= ~4
                        if m & 4 and ver == 2: m &= ~4
                        k = dict(zip(('t', 'u', 'w'), q))
                        r.append(T('tree_' + s, 'tenc_t_' + s, cost=len(q) ** 3, timeout=3000 if tier == 'thorough' else 400, ver=ver, mode=m, **k, **kw))
        return r
    return f
def struct_pairs(tier):
    th = tier == 'thorough'
    n = 2
    d = dict(seq=[(i,) * n for i in range(1, 17)], grp=[(i,) * n for i in range(1, 12)], ref=[(i,) * n for i in range(1, 16)], r1=[(1, 3, 1), (3, 3), (4, 4), (5, 5), (5, 1), (6, 7), (7, 7), (8, 8), (1, 8)])
    d['ref'] += [(9, 1), (1, 9), (2, 9, 2), (13, 3), (3, 13), (1, 14), (10, 2), (12, 1)]
    if th:
        for s in d: d[s] = d[s] + [(i, i, i) for i in range(1, NTREE[s] + 1)]
    return d
def dict_pairs(tier):
    th = tier == 'thorough'
    r = [(a, b) for a in range(1, 24) for b in range(1, 24)]
    if tier == 'thorough': r += [(a, b, c) for a in range(1, 24) for b in range(1, 24) for c in range(1, 24)]
    else: r += [(a, b, a) for a in range(1, 24) for b in range(1, 24) if a != b]
    # namespaces
    r2 = {}
    for s, n in (('ns', 14), ('nr', 6)):
        r2[s] = [(a, b) for a in range(1, n + 1) for b in range(1, n + 1)]
        if th: r2[s] += [(a, b, c) for a in range(1, n + 1) for b in range(1, n + 1) for c in (a, b)]
    return dict(dict=r, **r2)
# bytes less than usual, where solving or branching is expensive
NDEC = {('dict', 3): 2, ('dict', 11): 2, ('dict', 18): 2, ('dict', 19): 2, ('dict', 20): 3, ('dict', 17): 1, ('dict', 15): 1, ('ref', 10): 1}
def tdec(modes, nq, nt):
    def f(tier):
        th = tier == 'thorough'
        r = []
        for s in (nt if th else nq):
            n = (nt if th else nq)[s]
            for m in modes:
                if s == 'r1' and m != 1: continue
                for t in range(1, NTREE[s] + 1):
                    k = n - NDEC.get((s, t), 0)
                    r.append(T('tree_' + s, 'tdec_t_' + s, cost=3, timeout=3000 if th else 400, mode=m, t=t, n=k, hist=2))
                    if s in ('ref', 'dict'): r.append(T('tree_' + s, 'tdec_t_' + s, cost=3, timeout=3000 if th else 400, mode=m, t=t, u=1, n=k - 1, hist=2))
                r.append(T('tree_' + s, 'tdec_t_' + s, cost=6, timeout=3000 if th else 400, mode=m, t=0, u=1, n=n - (4 if s == 'dict' else 3), hist=2, need=()))
        return r
    return f
ENCB = 'histories of %s messages; field values 1..62 (one byte on the wire), strings of 0 or 1 byte (any 7-bit character), decimals with exponents 1..3, absence of every optional element, sequences of 0..2 elements in the first and 0..1 in later messages, vectors of 0..2 elements, nested templates one level deep'
TREE_OUT = 'longer histories and sequences, wider values (decided for single fields by P01-P06), deeper nesting, other templates'
P('P08', tenc(struct_pairs), lambda t: '50 templates: groups, sequences with every length operator, integer vectors, static and dynamic template references, optional and nested, scp:reset; ' + ENCB % ('2 and 3' if t == 'thorough' else '2'), outside=TREE_OUT)
P('P09', tdec((1, 2), dict(seq=9, grp=9, ref=9, r1=9, dict=9), dict(seq=11, grp=11, ref=10, r1=11, dict=10)), lambda t: 'every byte string of 6 to 9 bytes (thorough: 8 to 11) starting with the identifier of each of 73 templates, decoded as up to 2 messages (the second of the same or, for references and dictionaries, any template), and every byte string of 5 or 6 bytes; sequences of up to 3 elements compared, nesting up to 3', outside='longer inputs and sequences, overlong integers (reportable errors), elements made of constants only (their number is bounded by nothing in the stream)')
P('P10', tenc(dict_pairs), lambda t: '23 templates covering global, template, type and user dictionaries, keys shared under another name, decimals\' two entries, sequence lengths, scp:reset; every ordered pair%s; 20 templates with namespaces on templates, groups, sequences, lengths, fields, operators, types and the whole file, every ordered pair; ' % (' and triple' if t == 'thorough' else ' and every triple a b a') + ENCB % '2 and 3', outside=TREE_OUT)
P('P11', tdec((3,), dict(seq=9, grp=9, ref=8, r1=9, dict=8), dict(seq=11, grp=11, ref=10, r1=11, dict=10)), lambda t: 'as P09: every byte string of 5 to 9 bytes (thorough: up to 11)', outside='longer inputs')

# ---- presence maps
NTREE.update(pm=14, pw=10, pd=11)
def pmap_tasks(tier):
    th = tier == 'thorough'
    to = 3000 if th else 400
    r = []
    for t in range(1, 15):
        for ver in (1, 2):
            for ov in (0, 1): r.append(T('tree_pm', 'tenc_t_pm', cost=8 if t in (8, 10) else 3, timeout=to, ver=ver, mode=7 if ver == 1 else 3, overlong=ov, t=t, u=t, sparse=8, seq=1 if t in (10, 11) else 2, seq2=2 if th or t not in (10, 11, 13) else 1))
    for t in range(1, 11):
        for ver in (1, 2):
            for ov in (0, 1): r.append(T('tree_pw', 'tenc_t_pw', cost=6, timeout=to, ver=ver, mode=3, overlong=ov, t=t, u=t, sparse=112, seq=1, seq2=1, cap=200))
    bits = (6, 7, 13, 55, 61, 62, 63, 69, 125, 0, 0)
    for t in range(1, 12):
        for m in (1, 2):
            for pmn in ((1, 2, 3, 8, 9, 10, 11, 18, 19, 20) if th else (2, 9, 10, 18, 19) if bits[t - 1] > 69 else (2, 9, 10, 11) if t > 3 else (1, 2, 3)):
                if t < 10 or th: r.append(T('tree_pd', 'tdec_t_pd', cost=3, timeout=to, mode=m, t=t, pmn=pmn, n=pmn + (6 if th and t < 10 else 4), hist=1, cap=200))
                if t > 9: r.append(T('tree_pd', 'tdec_t_pd', cost=3, timeout=to, mode=m, t=t, pmn=pmn, at=3, b2=0x80 if t == 10 else 0x81, n=pmn + 3 + (4 if th else 3), hist=1, cap=200))
    return r
P('P12', pmap_tasks, 'encoders: 24 templates with 2 to 113 presence bits at top level, in groups and in elements, among them absent decimals with individual operators; all values change together from, or only, any one field on; 2 messages; overlong maps allowed and not. Decoders: 11 templates with 7 to 126 presence bits, presence maps of 1 to 11 (19) bytes with any 0, 1 or 2 bits set (neighbours, or one and the last), 4 to 6 further bytes', outside='other bit patterns in long presence maps, longer histories')

# ---- string and vector fields
VT = ('asc', 'uni', 'bv', 'i32', 'u32', 'i64', 'u64')
def vec_tasks(tier):
    th = tier == 'thorough'
    r = []
    for t in VT:
        for al in range(4):
            for st in range(6):
                for op in range(1, 21):
                    if not th and t in ('uni', 'u32', 'u64') and al in (1, 2): continue
                    r.append(T('vec', 'vec_' + t, timeout=1200 if th else 400, samples=1 if al == 0 and st == 1 else 0, op1=op, start=st, base=2, alloc=al, ops=3 if th and al == 0 else 2, k=2))
        # sizes at which the allocators' blocks are full
        for b in ((6, 14) if t in ('i64', 'u64') else (13, 29) if t in ('i32', 'u32') else (30, 61, 125)):
            for al in (2, 3):
                for st in (1, 4):
                    for op in range(1, 21): r.append(T('vec', 'vec_' + t, timeout=1200 if th else 400, samples=0, op1=op, start=st, base=b, spread=4, alloc=al, ops=1 if not th else 2))
    r += [T('vec', 'vec_cmp_asc'), T('vec', 'vec_cmp_uni')]
    return r
P('P13', vec_tasks, lambda t: 'ASCII and Unicode strings, byte vectors, int32/uInt32/int64/uInt64 vectors; malloc_allocator, arena_allocator and two allocators that hand out exactly what is asked for (or 3 elements more) and check every size they are given; 6 starting states (absent, owned, borrowed, omitted, cut down) with all element values; every sequence of %s out of 20 (assignment from a count, range, input iterator or std::vector/string_ref, resize, reserve, push_back, pop_back, insert in 4 forms, replace, refers_to, omit, copy from another field, initial value, swap, append in 4 forms, deep copy) with 0..2 new elements at 4 positions; one operation at the sizes 6..18, 13..33, 30..34, 61..65, 125..129 where blocks are full; comparison of all strings of up to 3 characters' % ('3 operations (exact allocator; 2 for the others)' if t == 'thorough' else '2 operations'), outside='longer sequences and contents; c_str() of borrowed strings (ends where their owner says); overlapping source and destination')

# ---- encoder output, failures, memory
def buf_tasks(tier):
    th = tier == 'thorough'
    r = []
    for t in INTS + DECS + STRS:
        for i in range(NT[t]):
            for ver in (1, 2):
                r.append(T('field_' + t, 'buf_m_' + t, cost=2, timeout=1200, samples=1, t=i, ver=ver, len=3 if th else 2, hist=1, dom=0 if th or t in STRS + ('u32', 'i32') or (t != 'sdec' and i % 6 == ver) else 2 if t in DECS else 1))
                if th: r.append(T('field_' + t, 'buf_m_' + t, cost=2, timeout=1200, samples=1, t=i, ver=ver, len=2, hist=2, dom=1))
                if i % 6 == 0: r.append(T('field_' + t, 'unk_m_' + t, samples=1, t=i, ver=ver))
                if t in STRS and i % (1 if th else 4) == 0:
                    for bf, base in ((0, 1010), (0, 2040), (3, 1010), (1000, 3060)): r.append(T('field_' + t, 'long_m_' + t, samples=1, t=i, ver=ver, before=bf, base=base, spread=16))
    for s in ('seq', 'grp', 'ref', 'dict', 'pm'):
        n = NTREE[s]
        for ver in (1, 2):
            for ov in (0, 1):
                for u in range(1, n + 1):
                    w = u % n + 1
                    for t in ((0, w) if s != 'pm' else (0,)):
                        if not th and ((u + ver + (t > 0)) % 2 != ov or (s == 'ref' and t in (10, 2)) or (t and s == 'ref' and u in (10, 2)) or (t and u % 2 == 0)): continue
                        k = dict(t=t, u=u, w=w if s != 'pm' else u, ver=ver, overlong=ov)
                        if s == 'pm': k['light'] = 1
                        r.append(T('tree_' + s, 'tbuf_t_' + s, cost=4, timeout=1200, samples=1, **k))
    return r
P('P14', buf_tasks, lambda t: 'fixed buffers of every size from 1 byte to one more than the message takes, vectors with 0..2 bytes of earlier content: all 184 single-field templates (%s), 79 structured templates with the values of P08, first in the stream or after a message of another template; both encoders, overlong presence maps allowed or not; strings and byte vectors of 1010..1026, 2040..2056 and 3060..3076 bytes into vectors of 0, 3 and 1000 bytes; the message after a failure; messages of unknown templates' % ('all values, strings of 0..3 bytes, also as second message' if t == 'thorough' else 'all 32-bit integers and a third of the 64-bit and decimal templates with all values, the others with -128..255 and the 8 at either end of the range; strings of 0..2 bytes'), outside='longer histories; whether a buffer that is large enough only after trimming the presence map is accepted')
HEAVY = {('dict', 15), ('dict', 17), ('dict', 18), ('dict', 19), ('dict', 20), ('ref', 2), ('ref', 3), ('ref', 10), ('ref', 11), ('r1', 3), ('r1', 7), ('r1', 8), ('grp', 6)}
def rec_tasks(tier):
    th = tier == 'thorough'
    r = []
    for s in ('seq', 'grp', 'ref', 'dict', 'r1'):
        for ver in ((1,) if s == 'r1' else (1, 2)):
            for t in range(0, NTREE[s] + 1):
                us = (t % NTREE[s] + 1, (t + NTREE[s] // 2) % NTREE[s] + 1, max(t, 1)) if t else (1, 2)
                if not th: us = [u for u in us[(t + ver) % 2:(t + ver) % 2 + 2] if (s, u) not in (('ref', 10), ('dict', 18), ('dict', 19), ('dict', 20), ('r1', 8))] or us[:1]
                for u in us: r.append(T('tree_' + s, 'trec_t_' + s, cost=3, timeout=1200, samples=1, t=t, u=u, ver=ver, n=(8 if th else 6) - (1 if not t or (s, t) in HEAVY else 0)))
    return r
P('P15', rec_tasks, lambda t: 'every byte string of 5 or 6 bytes (thorough: 7 or 8) as one or two messages of any of 73 structured templates, followed by two messages (the first with reset) of 2 or 3 other templates; both decoders', outside='longer inputs; messages decoded after an error without a reset')
def mem_tasks(tier):
    th = tier == 'thorough'
    r = []
    for s in ('seq', 'grp', 'ref', 'dict', 'r1'):
        for ver in ((1,) if s == 'r1' else (1, 2)):
            for t in range(1, NTREE[s] + 1):
                r.append(T('tree_' + s, 'tmem_t_' + s, cost=3, timeout=1200, samples=1, t=t, ver=ver, n=(8 if th else 6) - ((s, t) == ('dict', 19))))
                for u in (t, t % NTREE[s] + 1):
                    if (s, u) != ('r1', 8): r.append(T('tree_' + s, 'tmem_t_' + s, cost=3, timeout=1200, samples=1, t=t, u=u, ver=ver))
                r.append(T('tree_' + s, 'tmem_t_' + s, timeout=1200, samples=1, t=t, u=t, ver=ver, small=1))
    return r
P('P16', mem_tasks, lambda t: '73 structured templates: decoding of every byte string of %d bytes, encoding, decoding and copying of two messages with the values of P08, encoding into buffers that are too small; both codecs; everything destroyed afterwards' % (8 if t == 'thorough' else 6), outside='longer histories; allocation failure')
def val_tasks(tier):
    th = tier == 'thorough'
    r = []
    k = 0
    for s in ('seq', 'grp', 'ref', 'dict', 'r1'):
        for t in range(1, NTREE[s] + 1):
            r.append(T('tree_' + s, 'teq_t_' + s, cost=3, timeout=1200, samples=1, t=t, seq=2 if th else 1))
            if (s, t) == ('r1', 8): continue
            for how in range(11):
                if th or (how + k) % 3 == 0:
                    r.append(T('tree_' + s, 'tcpy_t_' + s, timeout=1200, samples=1, t=t, how=how, arena=(how + k) // 3 % 2))
                    if how in (0, 5, 7): r.append(T('tree_' + s, 'tcpy_t_' + s, timeout=1200, samples=1, t=t, how=how, gen=1, arena=(how + k) // 3 % 2))
            k += 1
    for t in range(1, 6):
        for op in range(11): r.append(T('tree_sq', 'tsq_t_sq', cost=2, timeout=1200, samples=1, t=t, op=op, steps=3 if th else 2))
    return r
P('P17', val_tasks, lambda t: '73 structured templates: every pair of messages with the values of P08 (sequences of up to %s) compared; %s of copying (constructors, assignment, moving, as(), self assignment, std::vector, std::swap, messages without template) for message_type and the generated classes, with malloc and arena allocators, each followed by a change of and the destruction of either message; sequences of 5 element types with up to %d operations out of 11 (assignment, resize, reserve, push_back, pop_back, iterators, swap, clearing, omitting, copying from another message)' % (('2 elements', 'all ways', 3) if t == 'thorough' else ('1 element', 'a third of the ways per template', 2)), outside='comparison of messages of different templates; longer sequences of operations')

JOUT = 'booleans, enumerations, sets and dynamic template references in JSON; locales other than the classic one'
def json_tasks(tier):
    th = tier == 'thorough'
    r = []
    j = lambda e, **k: r.append(T('json', e, cost=3, timeout=3000 if th else 400, samples=1, **k))
    for t in range(1, 9): j('json_rt', t=t, wide=1, len=(4 if t == 8 else 5) if th else 3)
    for t in range(9, 17): j('json_rt', t=t, seq=3 if th and t not in (12, 13, 15) else 2, len=2 if th and t == 14 else 1)
    for mask in (0, 1, 4, 5):
        for ig in (0, 1, 2, 4, 7): j('json_tag', mask=mask, ignore=ig, n=3 if th or (mask and not ig) else 2)
    for t in (12, 16): j('json_seq', t=t, seq=2)
    return r
P('P18', json_tasks, lambda t: '17 templates with fields of every type but booleans, enumerations and sets, vectors, nested optional groups and sequences, sequences of unnamed values, static template references, constants and tags: integers -128..255 and the numbers around every power of ten and the limits of the type; decimals with mantissas -128..127 and exponents -5..3, and with those integers and 7 exponents up to 63 either way; strings and byte vectors of up to %s arbitrary bytes in messages of one field; digits, letters and 0 to %s elements in larger messages; decoded into messages with three different contents; every combination of tag masks over two tagged fields with JSON objects of %s bytes; arrays cut at every byte' % (('4 or 5', '2 or 3', 9) if t == 'thorough' else ('3', '2', '8 or 9')), outside=JOUT + '; longer strings and sequences')
NCX = 39
def jtext_tasks(tier):
    th = tier == 'thorough'
    r = []
    for c in range(NCX):
        slow = c in (10, 11)
        for n in range(0, (7 if th else 6) - (2 if slow else 0) - (c == 11)):
            r.append(T('json', 'json_text', cost=n, timeout=3000 if th else 400, samples=1, need=('end',), cx=c, n=n))
    return r
P('P19', jtext_tasks, lambda t: '39 contexts (in front of, behind and in place of member names, numbers, strings, escapes, surrogates, hex strings, arrays, objects and unknown members of 12 templates), in each every text of 0 to %d arbitrary bytes (decimals: %s)' % ((6, '3 or 4') if t == 'thorough' else (5, '2 or 3')), outside=JOUT + '; the meaning of null and missing members where a value is mandatory, of repeated members, of JSON numbers with more digits than the field has')
