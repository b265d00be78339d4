"""Contracts on every rule of the generated recognizers: each rule function (as
leg generates it) is verified against its contract, the rules it calls being
replaced by theirs.  spec/grammar.json holds the facts a rule guarantees."""
import json, os, re
from .core import VERIF, Unit, stub_body, chain, find_function, blank_comments
from .units_parser import PU, H, ident

SPEC = os.path.join(VERIF, 'spec/grammar.json')
FACTS = ['NLFAIL', 'NLOK', 'NLSTAY', 'PROG', 'PSAME', 'PNONE', 'PCLOSED', 'VSAME', 'VSET', 'SSAME', 'SACT', 'CHSAME', 'TOTAL', 'ENDNNL', 'EMPTY']
LINES = ['NLFAIL', 'NLOK', 'NLSTAY', 'PROG', 'TOTAL', 'ENDNNL', 'EMPTY']      # those that are about positions alone
LFACTS = ['PSAME', 'PNONE', 'VSAME', 'SSAME', 'SACT', 'CHSAME', 'CHIN', 'BITS', 'NLSTAY', 'SHUT']
DEF = re.compile(r'^YY_RULE\(int\) yy_(\w+)\(yycontext \*yy\)\n\{.*?^\}\n', re.S | re.M)
ACT = re.compile(r'^YY_ACTION\(void\) yy_(\d+)_(\w+)\(yycontext \*yy, char \*yytext, int yyleng\)\n\{.*?^\}\n', re.S | re.M)
INLINE = ('_line_start_', '_block_start_', '_block_end_', '_block_replace_', '_block_merge_')     # their text is used as it is
STAR = re.compile(r'  l(\d+):;\t\n(  \{  int yypos(\d+)= yy->__pos, yythunkpos\3= yy->__thunkpos;)')


def rules(text):
    return [m.group(1) for m in DEF.finditer(text) if m.group(1) not in INLINE]


def loops(body, rule, lf, only=LFACTS):
    """l1:; { save; B; goto l1; l2:; restore } becomes l1:; while (1) INV { save; B; continue; l2:; restore; break; }"""
    k, at = 0, 0
    while True:
        m = STAR.search(body, at)
        if not m:
            return body, k
        lab, sv = m.group(1), m.group(3)
        if 'goto l%s;' % lab not in body[m.end():]:      # no way back: an alternative, not a loop
            at = m.end()
            continue
        end = re.compile(r'goto l%s;\n  l(%s):;\t  yy->__pos= yypos%s; yy->__thunkpos= yythunkpos%s;\n  \}' % (lab, sv, sv, sv)).search(body, m.end())
        if not end or len(re.findall(r'goto l%s;' % lab, body)) != 1:
            return None, 0
        key = '%s:%d' % (rule, k)
        mine = [f for f in lf.get(key, LFACTS) if f in only]
        inv = ' && '.join(['LINV(yy, vf_s%s, vf_p%s)' % (lab, lab)] + ['L_%s(yy, vf_s%s, vf_p%s)' % (f, lab, lab) for f in mine])
        chk = ' '.join('VF_ASSERT(L_%s(yy, vf_s%s, vf_p%s), "loop %s: %s");' % (f, lab, lab, key, f) for f in mine)
        body = (body[:m.start()] + '  l%s:; int vf_s%s = yy->__thunkpos, vf_p%s = yy->__pos; %s while (1) __CPROVER_assigns(VF_STATE) __CPROVER_loop_invariant(%s)\n' % (lab, lab, lab, chk, inv)
                + m.group(2) + ' int vf_q%s = yy->__pos;' % lab
                + body[m.end():end.start()] + 'VF_PROGRESS(yy->__pos > vf_q%s, "%s"); %s continue;\n  l%s:;\t  yy->__pos= yypos%s; yy->__thunkpos= yythunkpos%s; break;\n  }' % (lab, key, chk, sv, sv, sv)
                + body[end.end():])
        at = m.start() + 40
        k += 1


def literal(m):
    t = re.sub(r'\\([0-7]{1,3})', lambda x: chr(int(x.group(1), 8)), m.group(1))
    t = re.sub(r'\\(.)', lambda x: dict(n='\n', r='\r', t='\t').get(x.group(1), x.group(1)), t)
    if t.count('\n') > 1:
        return 'unknown'
    return 'vf_string(yy, %d, %d)' % (len(t), t.find('\n'))


def dos(body, lines):
    body = re.sub(r'yymatchString\(yy, "((?:[^"\\]|\\.)*)"\)', literal, body)
    body = re.sub(r'yyDo\(yy, yy(Push|Pop|Set), (-?\d+), 0\)', r'vf_\1(yy, \2)', body)
    if lines:
        return re.sub(r'yyDo\(yy, \w+, (?:-?\d+, 0|yy->__begin, yy->__end)\)', '(void)0', body)
    return re.sub(r'yyDo\(yy, (yy_\d+_\w+), yy->__begin, yy->__end\)', r'(vf_before(yy), \1(yy, 0, 0), vf_after(yy))', body)


def transform(names, spec, lines=False):
    """leg output with the rules of `names` as verified functions vfr_X, all others as contracts"""
    rf, lf, req = spec['facts'], spec['loops'], spec['requires']

    def go(text):
        rs = rules(text)
        if set(rs) - set(rf):
            return None         # a rule without a contract
        bad = []

        def one(m):
            n = m.group(1)
            if n in INLINE:
                return m.group(0)
            stub = 'YY_RULE(int) yy_%s(yycontext *yy) { return vf_rule(yy, %s, %s); }\n' % (
                n, '|'.join(['0'] + ['F_' + f for f in rf[n]]), '|'.join(['0'] + ['R_' + f for f in req.get(n, [])]))
            if n not in names:
                return stub
            body, k = loops(m.group(0), n, lf, ['NLSTAY'] if lines else LFACTS)
            if body is None or re.search(r'yyDo\(yy, yy(?!_)', dos(body, lines)):
                bad.append(n)
                return stub
            return stub + dos(body, lines).replace('YY_RULE(int) yy_%s(' % n, 'YY_RULE(int) vfr_%s(' % n, 1)
        text = DEF.sub(one, text)

        def act(m):
            if lines or m.group(2) not in names:
                return ''
            return m.group(0).replace('strbuf_reset()', 'vf_sb_reset(yy)').replace('op_pop()', 'vf_op_pop_()')
        text = ACT.sub(act, text)
        if bad:
            return None
        text = re.sub(r'\bPREC_CHK\(\)', 'vf_bool()', text)
        return re.sub(r'\bPREC_(PUSH|PUSH_TOP|POP)\(\)', '1', text)
    return go


def builders(src):
    """the functions that make a node from the block just closed, by their own text"""
    out = {}
    b = blank_comments(src)
    for m in re.finditer(r'^cypher_astnode_t \*(_\w+)\(yycontext \*yy([^)]*)\)\s*\n\{', b, re.M):
        f = find_function(src, m.group(1))
        body = src[f[1]:f[2]]
        ps = [p.strip() for p in m.group(2).split(',') if p.strip()]
        chk = ''.join('vf_node(%s); ' % re.search(r'(\w+)$', p).group(1) for p in ps if 'cypher_astnode_t' in p)
        out[m.group(1)] = chk + 'return vf_build(yy, %d, %d);' % ('add_terminal' in body, 'string_buffer' in body)
    return out


def parser_edit(text):
    fs = builders(text)
    if len(fs) < 80:
        return None
    for f, b in fs.items():
        text = stub_body(f, b)(text)
    for f, b in dict(_err='vf_err(yy);', record_error='', _strbuf_append='vf_sb_append(yy);', _strbuf_append_block='vf_sb_block(yy);', _sequence_add='vf_node(node);',
                     _op_push='', finished='', line_start='vf_line_start(yy);').items():
        text = stub_body(f, b)(text)
        if text is None:
            return None
    return text


def parser_lines(text):
    """positions alone: what the actions do is left out"""
    for f, b in dict(_err='vf_err(yy);', record_error='', finished='', line_start='vf_line_start(yy);').items():
        text = stub_body(f, b)(text)
        if text is None:
            return None
    return text


def quick_edit(text):
    for f, b in dict(line_start='vf_line_start(yy);', segment='').items():
        text = stub_body(f, b)(text)
        if text is None:
            return None
    return text


def harness(names, spec, quick):
    o = []
    for n in names:
        fs, rq = spec['facts'][n], spec['requires'].get(n, [])
        o.append('    if (sel == __COUNTER__) { vf_enter(Y, %s, %s); int r = vfr_%s(Y); vf_leave(Y, r, "%s");' % (
            '|'.join(['0'] + ['F_' + f for f in fs]), '|'.join(['0'] + ['R_' + f for f in rq]), n, n))
        for f in fs:
            o.append('        VF_ASSERT(FACT_%s(Y, r), "rule %s: %s");' % (f, n, f))
        if n != '_none_':
            o.append('        if (r) { VF_REACH("%s"); }' % n)
        o.append('        return; }')
    return H('grammar.c').replace('/*CHECKS*/', '\n'.join(o))


def units(src='parser.c', spec=None, size=24, only=None, lines=True):
    from .core import REPO
    spec = (spec or json.load(open(SPEC)))[src]
    quick = src.startswith('quick')
    names = sorted(spec['facts'])
    us = []
    for g in range(0, len(names), size):
        ns = names[g:g + size]
        if only and not (set(ns) & set(only)):
            continue
        u = PU('grammar-%d' % (g // size), 'grammar.c', ['yy_%s (generated)' % n for n in ns], src, leg=transform(ns, spec, lines),
               legstubs={'yyText': 'return 0;', 'yyDo': 'void vf_do(yycontext *, yyaction); vf_do(yy, action);',
                         'yymatchDot': 'int vf_dot(yycontext *); return vf_dot(yy);', 'yymatchChar': 'int vf_char_(yycontext *, int); return vf_char_(yy, c);',
                         'yymatchClass': 'int vf_class(yycontext *, unsigned char *); return vf_class(yy, bits);'},
               unwind=40, defs=['-DVF_LINES=1'] if lines else [], instrument=['--apply-loop-contracts'], timeout=300, weight=5)
        u.harness = harness(ns, spec, quick)
        u.edits[src] = quick_edit if quick else parser_lines if lines else parser_edit
        us.append(u)
    return us
