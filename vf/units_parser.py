"""Proof units over the real parser.c / quick_parser.c and the leg run time
generated from the grammars (rules and actions left out)."""
import os, re
from .core import VERIF, Unit, stub_body, chain, recursion, find_function, blank_comments


def H(name):
    return open(os.path.join(VERIF, 'harness', name)).read()


RULE = re.compile(r'^YY_(?:RULE|ACTION)\(\w+\) \w+\([^;{]*?\)\s*\n\{.*?^\}\n', re.S | re.M)


def strip_rules(text):
    """Drop the rule and action functions of a generated leg parser, keep the rest."""
    t = RULE.sub('', text)
    return t if 'YY_LOCAL(int) yyrefill' in t else None


def keep_rules(*names):
    def go(text):
        def sub(m):
            n = re.match(r'YY_(?:RULE|ACTION)\(\w+\) (\w+)', m.group(0)).group(1)
            return m.group(0) if n in names else ''
        return RULE.sub(sub, text)
    return go


def ident(t):
    return t


def PU(name, harness, functions, src='parser.c', stubs=None, legstubs=None, leg=strip_rules, defs=(), **kw):
    """stubs: {function of src: contract stub body}; legstubs: the same in the generated file"""
    g = src[:-2] + '_leg.c'
    e = {src: chain(ident, *[stub_body(f, b) for f, b in (stubs or {}).items()]),
         g: chain(leg, *[stub_body(f, b) for f, b in (legstubs or {}).items()])}
    d = ['-DVF_SRC="%s"' % src] + (['-DVF_QUICK=1'] if src.startswith('quick') else []) + list(defs)
    kw.setdefault('pre', [['--drop-unused-functions']])
    return Unit(('quick-' if src.startswith('quick') else '') + name, H(harness), edits=e, defs=d, malloc_fail=False,
                functions=['%s (%s)' % (f, src) for f in functions], **kw)


def short_literals(n):
    """strip_rules, provided that no literal the rules match is longer than n"""
    def go(text):
        ls = re.findall(r'yymatchString\(yy, "((?:[^"\\]|\\.)*)"\)', text)
        return strip_rules(text) if all(len(l) <= n for l in ls) else None
    return go


def c01():
    us = []
    for s in ('parser.c', 'quick_parser.c'):
        us += [
            PU('buffer', 'c01_buffer.c', ['source_from_buffer'], s),
            PU('stream', 'c01_stream.c', ['source_from_stream'], s),
            PU('source', 'c01_source.c', ['source'], s),
            PU('refill', 'c01_refill.c', ['yyrefill', 'abort_realloc'], s, unwind=3, stubs={'source': 'vf_source_contract(yy, buf, result, max_size);'}),
            PU('match', 'c01_match.c', ['yymatchDot', 'yymatchChar', 'yymatchClass'], s, legstubs={'yyrefill': 'int vf_refill(yycontext *); return vf_refill(yy);'}),
            PU('string', 'c01_string.c', ['yymatchString'], s, legstubs={'yyrefill': 'int vf_refill(yycontext *); return vf_refill(yy);'}, leg=short_literals(8), defs=['-DVF_MAXLIT=8'], unwind=10),
            PU('commit', 'c01_commit.c', ['yyCommit'], s),
        ]
    return us


POS_LOOP = '''
    __CPROVER_assigns(line_start_pos, depth)
    __CPROVER_loop_invariant(depth >= 1 && depth <= vf_size0 && (depth == vf_size0 || vf_off[depth] > pos))
    __CPROVER_decreases(depth)'''
BACK_LOOP = '''
    __CPROVER_assigns(top, yy->line_start_offsets.vec.length)
    __CPROVER_loop_invariant(yy->line_start_offsets.vec.length >= 1 && yy->line_start_offsets.vec.length <= vf_size0
        && (yy->line_start_offsets.vec.length == vf_size0 || vf_off[yy->line_start_offsets.vec.length] > pos))
    __CPROVER_decreases(yy->line_start_offsets.vec.length)'''


def c02():
    us = []
    for s in ('parser.c', 'quick_parser.c'):
        us += [
            PU('position', 'c02_position.c', ['input_position'], s, dfcc=True, loops={(s, 'input_position'): {0: POS_LOOP}}),
            PU('backtrack', 'c02_backtrack.c', ['backtrack_lines'], s, dfcc=True, loops={(s, 'backtrack_lines'): {0: BACK_LOOP}}),
            PU('line-start', 'c02_line_start.c', ['line_start'], s, stubs={'backtrack_lines': 'return vf_backtrack(yy, pos);'}),
        ]
    from . import units_grammar
    return us + units_grammar.units('quick_parser.c')


EACH_LOOP = '''
    __CPROVER_assigns(__CPROVER_object_whole(&yy), ordinal, result, at_, end_, last_, g_ord, g_cons, g_ne, g_nr, g_res, g_eof, stopped, oom, stage, cberr, g_err, g_Y, seg_, vf_errno,
        top_block->children.vec.length)
    __CPROVER_loop_invariant(stage == 0 && !stopped && !oom && started && result == -1 && ordinal == g_ord && cberr == 0
        && EQP(yy.position_offset, at_) && yy.line_start_offsets.vec.length == 1 && top_block->children.vec.length == 0 && yy.error_tracking.nerrors == 0
        && yy.config == g_cfg && yy.source == g_source && yy.source_data == g_srcdata)'''


def c03():
    return [PU('each', 'c03_each.c', ['parse_each'], dfcc=True, legstubs={'YYRELEASE': 'void vf_yyrelease(void *); vf_yyrelease(yyctx); return yyctx;'},
               stubs=dict(block_start='return vf_block_start(yy, offset, position);', parse_one='return vf_parse_one(yy, rule);',
                          input_position='return vf_input_position(yy, pos);', block_free='vf_block_free(block);'),
               loops={('parser.c', 'parse_each'): {0: EACH_LOOP}}),
            PU('api', 'c03_api.c', ['cypher_uparse_each', 'cypher_uparse', 'cypher_fparse_each', 'cypher_fparse', 'uparse_each', 'uparse', 'fparse_each', 'fparse', 'parse', 'parse_all_callback'],
               stubs=dict(parse_each='return vf_each(rule == ((flags & CYPHER_PARSE_ONLY_STATEMENTS) ? yy_statement : yy_directive), (void *)source, sourcedata, (void *)callback, userdata, last, config, flags);')),
            PU('one', 'c03_one.c', ['parse_one', 'safe_yyparsefrom'], dfcc=True, legstubs={'YYPARSEFROM': 'return vf_yyparsefrom(yyctx, yystart);'},
               stubs=dict(block_free='vf_block_free(block);'),
               loops={('parser.c', 'parse_one'): {0: '''
                   __CPROVER_assigns(yy->blocks.vec.length, nfree, freed_prev, vf_errno, wfreed)
                   __CPROVER_loop_invariant(yy->blocks.vec.length >= 1 && yy->blocks.vec.length <= nb && nfree == nb - yy->blocks.vec.length && !freed_prev
                       && (!(W >= 1 && W < nb && W >= yy->blocks.vec.length) || wfreed))
                   __CPROVER_decreases(yy->blocks.vec.length)'''}})]


def c04():
    q = 'quick_parser.c'
    us = [PU('segment', 'c04_segment.c', ['segment', 'accessors'], q, stubs=dict(input_position='return vf_position(yy, pos);')),
          PU('api', 'c04_api.c', ['cypher_quick_uparse', 'cypher_quick_fparse'], q, stubs=dict(parse='return vf_parse((void *)source, sourcedata, (void *)callback, userdata, flags);')),
          PU('each', 'c04_each.c', ['parse', 'safe_yyparsefrom'], q, dfcc=True,
             legstubs={'YYRELEASE': 'vf_yyrelease(yyctx); return yyctx;', 'YYPARSEFROM': 'return vf_yyparsefrom(yyctx, yystart);'},
             loops={(q, 'parse'): {0: '''
                 __CPROVER_assigns(__CPROVER_object_whole(&yy), at_, segs, cbr, oom, stopped, done, unmatched, g_err, vf_errno)
                 __CPROVER_loop_invariant(!stopped && !oom && !unmatched && !done && err == -1 && !yy.eof && cbr == 0 && EQP(yy.position_offset, at_) && yy.line_start_offsets.vec.length == 1
                     && (void *)yy.source == g_source && yy.source_data == g_srcdata && (void *)yy.callback == g_cb && yy.callback_data == g_ud)'''}})]
    return us


def c10():
    return [PU('err', 'c10_err.c', ['_err', 'record_error'], stubs={'backtrack_lines': 'unsigned vf_backtrack(yycontext *, unsigned); return vf_backtrack(yy, pos);',
                                                              'input_position': 'struct cypher_input_position vf_position(yycontext *, unsigned); return vf_position(yy, pos);'})]


def c11():
    return [
        PU('finished', 'c11_finished.c', ['finished'], dfcc=True, ghost={('parser.c', 'finished'): {0: 'GHOST(i)'}}, loops={('parser.c', 'finished'): {0: '''
            __CPROVER_assigns(i, fails, vf_alloc_failed, __CPROVER_object_whole(vf_errs))
            __CPROVER_loop_invariant(i <= n && vf_errs[KC].msg == wE.msg
              && vf_errs[KC].position.offset == wE.position.offset
              && vf_errs[KC].position.line == wE.position.line
              && vf_errs[KC].position.column == wE.position.column
              && (KC >= i && KC >= vf_m && KC < n ? (vf_errs[KC].context == &ctx_ && vf_errs[KC].context_offset == ((wE.position.offset - base) ^ MAGIC)) : (vf_errs[KC].context == wE.context && vf_errs[KC].context_offset == wE.context_offset)))
            __CPROVER_decreases(i)'''}}),
        Unit('line-context', H('c11_context.c'), dfcc=True, malloc_fail=False, functions=['line_context (util.c)'],
             pre=[['--drop-unused-functions']],
             loops={('util.c', 'line_context'): {0: '''
                __CPROVER_assigns(errp)
                __CPROVER_loop_invariant(__CPROVER_same_object(errp, buf) && O(errp) <= e0
                    && (!(J <= e0 && J > O(errp)) || TERM(buf[J])))
                __CPROVER_decreases(O(errp))''', 1: '''
                __CPROVER_assigns(startp, endp, n, found_start, found_end)
                __CPROVER_loop_invariant(__CPROVER_same_object(startp, buf) && __CPROVER_same_object(endp, buf)
                    && O(startp) <= O(errp) && O(errp) <= O(endp) && O(endp) <= bufsize
                    && n == (unsigned)(O(endp) - O(startp)) && n < max_length && O(endp) - O(startp) < max_length
                    && (!found_start || O(startp) == 0 || EOLC(buf[O(startp)-1])) && (!found_end || O(endp) == bufsize || EOLC(buf[O(endp)]))
                    && (!(J < bufsize && J >= O(startp) && J < O(endp)) || !EOLC(buf[J]))
                    && (O(endp) > O(errp) || n == 0 || found_end))
                __CPROVER_decreases(max_length - n + (found_start ? 0 : 1) + (found_end ? 0 : 1))'''}}),
    ]


def c12():
    return [Unit('merge-' + w, H('c12_merge.c'), malloc_fail=False, defs=['-DVF_WHAT=%d' % k], sat='cadical', patience=300, functions=['cp_result_merge_segment (result.c)', 'accessors (result.c)'],
                 pre=[['--drop-unused-functions']]) for k, w in ((1, 'errors'), (2, 'roots'), (3, 'directives'))]


def c13():
    D = [['--drop-unused-functions']]
    return [
        Unit('set-ordinals', H('c13_ordinals.c'), dfcc=True, malloc_fail=False, functions=['cypher_ast_set_ordinals (ast.c)'], pre=D,
             edits={'ast.c': recursion('cypher_ast_set_ordinals', 'vf_rec')},
             loops={('ast.c', 'cypher_ast_set_ordinals'): {0: '''
                __CPROVER_assigns(i, n, calls, cur, seen)
                __CPROVER_loop_invariant(i <= ast->nchildren && calls == i && n == cur && (!(K < i) || seen))
                __CPROVER_decreases(ast->nchildren - i)'''}}),
        Unit('depth', H('c13_depth.c'), dfcc=True, malloc_fail=False, functions=['cypher_ast_depth (ast.c)'], pre=D,
             edits={'ast.c': recursion('cypher_ast_depth', 'vf_rec')},
             loops={('ast.c', 'cypher_ast_depth'): {0: '''
                __CPROVER_assigns(i, depth, calls, mx, dK)
                __CPROVER_loop_invariant(i <= ast->nchildren && calls == i && depth == mx && (!(K < i) || dK <= mx) && mx <= (1u << 30))
                __CPROVER_decreases(ast->nchildren - i)'''}}),
        ] + [Unit('segment-' + w, H('c13_segment.c'), instrument=['--apply-loop-contracts'], malloc_fail=False, functions=['cypher_parse_segment (segment.c)', 'accessors (segment.c)'], pre=D,
             defs=['-DVF_WHAT=%d' % k], sat='cadical', patience=300,
             loops={('segment.c', 'cypher_parse_segment'): {0: '''
                __CPROVER_assigns(i, ordinal, calls, cur, seen)
                __CPROVER_loop_invariant(i <= nroots && calls == i && ordinal == cur && (!(K < i) || seen))
                __CPROVER_decreases(nroots - i)'''}}) for k, w in ((1, 'errors'), (2, 'roots'))]


def c15():
    ls = {'yyText': 'return 0;', 'yyDo': 'void vf_do(yycontext *, yyaction); vf_do(yy, action);'}
    def leg(rule, n):
        acts = ['yy_%d_%s' % (i, rule) for i in range(1, n + 1)]
        return keep_rules('yy_' + rule, *acts)
    return [PU('table', 'c15_table.c', ['operator table (operators.c)', '_prec_push', '_prec_push_top', 'PREC_CHK', 'PREC_POP'], unwind=14)] + [
        PU('rule-' + r, 'c15_ops.c', ['yy_%s and its actions (generated)' % r, '_op_push'], defs=['-DVF_WHAT=%d' % k], legstubs=ls, leg=leg(r, n))
        for k, r, n in ((1, 'PREFIX_OP', 3), (2, 'POSTFIX_OP', 2), (3, 'INFIX_OP', 17), (4, 'COMPARISON_OP', 4))] + [
        PU('rule-' + r, 'c15_expr.c', ['yy_%s (generated)' % r, '_prec_push', '_prec_push_top'], defs=['-DVF_WHAT=%d' % k], legstubs=ls, leg=leg(r, 1))
        for k, r in ((1, 'expression'), (2, '_prec_expression'))]


def c16():
    D = [['--drop-unused-functions']]
    return [Unit('sb-append', H('c16_append.c'), malloc_fail=False, functions=['cp_sb_append (string_buffer.c)', 'cp_sb_reset', 'cp_sb_data', 'cp_sb_length'], pre=D)] + [
        Unit('vector-%d' % n, H('c16_vector.c'), defs=['-DVF_ES=%d' % n], malloc_fail=False, pre=D,
             functions=['cp_vector_push (vector.c)', 'cp_vector_init', 'cp_vector_pop', 'cp_vector_npop', 'cp_vector_get', 'cp_vector_last', 'cp_vector_clear']) for n in (4, 8)]


def c20():
    D = [['--drop-unused-functions']]
    return [Unit('release', H('c20_release.c'), malloc_fail=False, functions=['cypher_parse_segment_retain', 'cypher_parse_segment_release'], pre=D),
            Unit('config', H('c20_config.c'), malloc_fail=False, functions=['cypher_parser_new_config', 'cypher_parser_config_free', 'cypher_parser_config_set_initial_position',
                                                                          'cypher_parser_config_set_initial_ordinal', 'cypher_parser_config_set_error_colorization'], pre=D)]
