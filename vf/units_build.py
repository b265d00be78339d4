"""C19: the functions through which the grammar builds nodes.  spec/wrappers.json
says, for each, which constructor it is to call and with what in which role."""
import json, os, re
from .core import VERIF, REPO, Unit
from .units_parser import PU, H

TAB = json.load(open(os.path.join(VERIF, 'spec/wrappers.json')))
SYM = dict(SEQ='(void *)seqv', NSEQ='nseq', CH='(void *)chv', NCH='nch', SBDATA='sbd', SBLEN='sbl', BTEXT='(Y->__buf + bs)', BLEN='(be - bs)')
SYM['NSEQ/2'] = 'nseq / 2'


def proto(header, ctor):
    m = re.search(r'cypher_astnode_t \*%s\(([^;]*?)\);' % ctor, header)
    ps = [re.sub(r'\s+', ' ', p).strip() for p in m.group(1).split(',')]
    return re.sub(r'\s+', ' ', m.group(1)), [re.search(r'(\w+)$', p).group(1) for p in ps]


def harness(header, group):
    """One harness for a group of wrappers; sel picks one of them."""
    ctors = {}
    calls = []
    for k, w in enumerate(group):
        # arguments: parameter number j of the wrapper
        vals = {}
        act = []
        for j, (t, n) in enumerate(w['params']):
            if t == 'bool':
                v = 'B%d' % j
            elif t.startswith('enum'):
                v = '(%s)E%d' % (t, j)
            elif t == 'size_t':
                v = 'N%d' % j
            else:
                v = '(%s)P%d' % (t, j)
            vals[n] = v
            act.append(v)
        ctors.setdefault(w['ctor'], []).append((k, w, vals))
        calls.append(('    case %%d: %sr = %%s(%%s); VF_REACH("%%s"); break;' % ('' if 'CH' in w['args'] else 'VF_ASSUME(nch == 0); ')) % (k, w['fn'], ', '.join(['Y'] + act), w['fn']))
    stubs = []
    for c, users in sorted(ctors.items()):
        sig, names = proto(header, c)
        conds = []
        for k, w, vals in users:
            assert len(names) == len(w['args']), (c, names, w['args'])
            cs = []
            for a, n in zip(w['args'], names):
                if a == 'RANGE':
                    cs.append('EQR(%s)' % n)
                    continue
                v = SYM.get(a) or vals[a]
                cs.append('(void *)%s == (void *)%s' % (n, v) if re.search(r'\*\s*(const )?\*?%s\b' % n, sig) else '%s == %s' % (n, v))
            conds.append('(sel == %d && %s)' % (k, ' && '.join(cs)))
        stubs.append('cypher_astnode_t *%s(%s)\n{\n    __CPROVER_assert(%s, "PROP %s is made from its parts, in their roles, with the range of the text");\n    return vf_made();\n}' % (
            c, sig, '\n        || '.join(conds), c[11:]))
    return H('c19_build.c').replace('/*STUBS*/', '\n'.join(stubs)).replace('/*CASES*/', '\n'.join(calls)).replace('/*N*/', str(len(group)))


SPLIT = '''
    __CPROVER_assigns(%(k)s)
    __CPROVER_loop_invariant(%(k)s <= nseq && (!(W < %(k)s) || ISA(seq[W]) == %(v)s))
    __CPROVER_decreases(nseq - %(k)s)'''
TRIM1 = '''
    __CPROVER_assigns(s, n)
    __CPROVER_loop_invariant(__CPROVER_same_object(s, yy->__buf) && O(s) >= bs && O(s) <= be && n == be - O(s) && (!(J >= bs && J < O(s)) || SP(yy->__buf[J])))
    __CPROVER_decreases(n)'''
TRIM2 = '''
    __CPROVER_assigns(n)
    __CPROVER_loop_invariant(n <= be - O(s) && (n == 0 || !SP(*s)) && (!(J >= O(s) + n && J < be) || SP(yy->__buf[J])))
    __CPROVER_decreases(n)'''


def c19():
    header = open(os.path.join(REPO, 'lib/src/cypher-parser.h.in')).read()
    us = []
    size = 12
    for g in range(0, len(TAB), size):
        group = TAB[g:g + size]
        u = PU('build-%d' % (g // size), 'c19_build.c', [w['fn'] for w in group],
               stubs=dict(block_free='vf_block_free(block);', add_child='return vf_add_child(yy, node);'))
        u.harness = harness(header, group)
        us.append(u)
    S = dict(block_free='vf_block_free(block);', add_child='return vf_add_child(yy, node);')
    for k, n, fn, loops in ((1, 'query', '_query', {0: SPLIT % dict(k='nopts', v='1')}), (2, 'call', '_call_clause', {0: SPLIT % dict(k='nargs', v='0')}),
                            (3, 'comparison', '_comparison_operator', None), (4, 'implied-name', '_block_identifier', {0: TRIM1, 1: TRIM2})):
        us.append(PU(n, 'c19_split.c', [fn], stubs=S, defs=['-DVF_WHAT=%d' % k], patience=300 if k == 4 else 120, weight=100 if k == 4 else 0, dfcc=bool(loops), loops={('parser.c', fn): loops} if loops else None))
    for k, n, fns in ((1, 'block-start', ['block_start_action', 'block_start']), (2, 'block-end', ['block_end_action', 'block_end']), (3, 'block-replace', ['block_replace_action']),
                      (5, 'child', ['add_child', 'add_terminal']), (6, 'sequence', ['_sequence_add', '_op_push'])):
        us.append(PU(n, 'c19_blocks.c', fns, stubs=dict(block_free='vf_block_free(block);', input_position='return vf_input_position(yy, pos);'), defs=['-DVF_WHAT=%d' % k]))
    IP = dict(input_position='return vf_input_position(yy, pos);')
    us.append(PU('block-merge', 'c19_merge.c', ['block_merge_action'], stubs=dict(IP, block_free='vf_block_free(block);'), defs=['-DVF_WHAT=1'], dfcc=True,
                 loops={('parser.c', 'block_merge_action'): {0: '''
                     __CPROVER_assigns(i, np, seen, pushfail, vf_alloc_failed, vf_errno, pblock->children.vec.length)
                     __CPROVER_loop_invariant(i <= nchildren && np == i && pblock->children.vec.length == len0 + i && (!(W < i) || seen) && !pushfail)
                     __CPROVER_decreases(nchildren - i)'''}}))
    us.append(PU('block-free', 'c19_merge.c', ['block_free'], stubs=IP, defs=['-DVF_WHAT=2'], dfcc=True,
                 loops={('parser.c', 'block_free'): {0: '''
                     __CPROVER_assigns(child, np, seen, vf_errno, block->children.vec.length)
                     __CPROVER_loop_invariant(block->children.vec.length <= n && np == n - block->children.vec.length && (!(W < n && W >= block->children.vec.length) || seen))
                     __CPROVER_decreases(block->children.vec.length)'''}}))
    return us
