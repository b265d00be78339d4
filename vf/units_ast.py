"""Units over annotation.c, ast.c and the other hand-written sources."""
import os, re
from .core import VERIF, REPO, Unit, stub_body, chain, recursion, find_function

D = [['--drop-unused-functions']]


def H(name):
    return open(os.path.join(VERIF, 'harness', name)).read()


def c09():
    F = dict(find_annotation='return vf_find(context, node);')
    E = {'annotation.c': chain(lambda t: t, *[stub_body(f, b) for f, b in F.items()])}
    return [
        Unit('release', H('c09_annot.c'), malloc_fail=False, pre=D, defs=['-DVF_WHAT=1'], edits=E,
             functions=['cp_release_annotation', 'cypher_astnode_remove_annotation', 'detach_annotation_from_astnode', 'detach_annotation_from_context']),
        Unit('attach', H('c09_annot.c'), malloc_fail=False, pre=D, defs=['-DVF_WHAT=2'], edits=E,
             functions=['cypher_astnode_attach_annotation', 'cypher_astnode_get_annotation', 'attach_annotation_to_astnode', 'attach_annotation_to_context']),
        Unit('find', H('c09_find.c'), dfcc=True, malloc_fail=False, pre=D, defs=['-DVF_WHAT=1'], functions=['find_annotation'],
             ghost={('annotation.c', 'find_annotation'): {0: 'GHOST(annotation)'}},
             loops={('annotation.c', 'find_annotation'): {0: '''
                 __CPROVER_assigns(annotation, gi, other)
                 __CPROVER_loop_invariant(gi <= n && annotation == CELL(gi) && (!(W < gi) || wit.context != &ctx))
                 __CPROVER_decreases(n - gi)'''}}),
        Unit('context-free', H('c09_find.c'), dfcc=True, malloc_fail=False, pre=D, defs=['-DVF_WHAT=2'], functions=['cypher_ast_annotation_context_free'],
             edits={'annotation.c': stub_body('cp_release_annotation', 'vf_release(annotation);')},
             loops={('annotation.c', 'cypher_ast_annotation_context_free'): {0: '''
                 __CPROVER_assigns(rel, seen, context->annotations)
                 __CPROVER_loop_invariant(rel <= n && context->annotations == (rel < n ? arr + rel : NULL) && (!(W < rel) || seen))
                 __CPROVER_decreases(n - rel)'''}}),
    ]


def vtcalls(text):
    """Mechanical rewrite: calls through the table of the node type go to a contract."""
    return re.sub(r'\bvt->(clone|release|detailstr)\s*\(', r'vf_vt_\1(vt, ', text)


def rename_calls(fn, within, to):
    """Mechanical rewrite: calls of fn in the body of another function go to its contract."""
    def go(text):
        f = find_function(text, within)
        if f is None:
            return None
        body = text[f[1]:f[2] + 1]
        return text[:f[1]] + re.sub(r'\b%s(\s*\()' % fn, to + r'\1', body) + text[f[2] + 1:]
    return go


def tree(which):
    T = {
        'vclone': Unit('vclone', H('ast_tree.c'), dfcc=True, malloc_fail=False, pre=D, defs=['-DVF_WHAT=1'], functions=['cypher_ast_vclone (ast.c)'],
                       edits={'ast.c': chain(vtcalls, rename_calls('cypher_ast_clone', 'cypher_ast_vclone', 'vf_clone'), rename_calls('cypher_ast_vfree', 'cypher_ast_vclone', 'vf_vfree'))},
                       loops={('ast.c', 'cypher_ast_vclone'): {0: '''
                           __CPROVER_assigns(i, calls, seen, failed, err, vf_errno, __CPROVER_object_whole(clones))
                           __CPROVER_loop_invariant(i <= n && calls == i && !failed && (!(W < n) || clones[W] == (W < i ? &cW : NULL)) && (W >= n || seen == (W < i)) && (W < n || !seen))
                           __CPROVER_decreases(n - i)'''}}),
        'clone': Unit('clone', H('ast_tree.c'), malloc_fail=False, pre=D, defs=['-DVF_WHAT=2'], functions=['cypher_ast_clone (ast.c)'],
                      edits={'ast.c': chain(vtcalls, rename_calls('cypher_ast_vclone', 'cypher_ast_clone', 'vf_vclone'), rename_calls('cypher_ast_vfree', 'cypher_ast_clone', 'vf_vfree'))}),
        'free': Unit('free', H('ast_tree.c'), dfcc=True, malloc_fail=False, pre=D, defs=['-DVF_WHAT=3'], functions=['cypher_ast_free (ast.c)'],
                     edits={'ast.c': chain(vtcalls, rename_calls('cypher_ast_vfree', 'cypher_ast_free', 'vf_vfree'))},
                     loops={('ast.c', 'cypher_ast_free'): {0: '''
                         __CPROVER_assigns(calls, ast->annotations)
                         __CPROVER_loop_invariant((ast->annotations != NULL) == (calls > 0) && nrel == 0)
                         __CPROVER_decreases(calls)'''}}),
        'vfree': Unit('vfree', H('ast_tree.c'), dfcc=True, malloc_fail=False, pre=D, defs=['-DVF_WHAT=4'], functions=['cypher_ast_vfree (ast.c)'],
                      edits={'ast.c': chain(vtcalls, rename_calls('cypher_ast_free', 'cypher_ast_vfree', 'vf_free_tree'))},
                      loops={('ast.c', 'cypher_ast_vfree'): {0: '''
                          __CPROVER_assigns(ast, n, calls, seen)
                          __CPROVER_loop_invariant(calls <= nn && n == nn - calls && ast == arr + calls && (!(W < calls) || seen))
                          __CPROVER_decreases(n)'''}}),
        'node-free': Unit('node-free', H('ast_tree.c'), dfcc=True, malloc_fail=False, pre=D, defs=['-DVF_WHAT=5'], functions=['cypher_astnode_free (ast.c)'],
                          edits={'ast.c': vtcalls},
                          loops={('ast.c', 'cypher_astnode_free'): {0: '''
                              __CPROVER_assigns(calls, ast->annotations)
                              __CPROVER_loop_invariant((ast->annotations != NULL) == (calls > 0) && nrel == 0)
                              __CPROVER_decreases(calls)'''}}),
        'init': Unit('init', H('ast_init.c'), malloc_fail=False, pre=D, defs=['-DVF_WHAT=1'],
                     functions=['cypher_astnode_init (ast.c)', 'cypher_astnode_release', 'cypher_astnode_nchildren', 'cypher_astnode_get_child', 'cypher_astnode_range', 'mdup (util.h)']),
        'child-index': Unit('child-index', H('ast_init.c'), dfcc=True, malloc_fail=False, pre=D, defs=['-DVF_WHAT=2'], functions=['child_index (astnode.h)'],
                            loops={('astnode.h', 'child_index'): {0: '''
                                __CPROVER_assigns(i)
                                __CPROVER_loop_invariant(i <= node->nchildren && !(K < i))
                                __CPROVER_decreases(node->nchildren - i)'''}}),
    }
    return [T[w] for w in which]


def c08():
    u = dict(malloc_fail=False, pre=D)
    nstub = ['return vf_typestr(type);']
    top = chain(stub_body('ast_fprint_field_widths', 'vf_widths(ast, max_ordinal, max_start, max_end, name_width, depth);'),
                stub_body('_cypher_ast_fprint', 'return vf_node(ast, stream, colorization, buf, bufcap, render_width, ordinal_width, start_width, end_width, name_width, depth);'))
    return [
        Unit('detail', H('c08_detail.c'), dfcc=True, functions=['ast_fprint_detail (ast.c)'],
             ghost={('ast.c', 'ast_fprint_detail'): {0: '__CPROVER_assume(*detail != 0);'}},
             loops={('ast.c', 'ast_fprint_detail'): {0: '''
                 __CPROVER_assigns(n, w, detail, g_n, g_w, g_ind, g_h, g_nl, g_fail, g_st)
                 __CPROVER_loop_invariant(n <= L && g_n == n && detail == D + n && g_h == 0 && g_nl == 0 && g_st == 1 && !g_fail && (RW == 0 || w == g_w))''', 1: '''
                 __CPROVER_assigns(i, w, g_n, g_w, g_ind, g_h, g_nl, g_fail, g_st)
                 __CPROVER_loop_invariant(i <= 2 && g_h == (i == 1 && desc[1] != 0) && g_n == n + (i == 0 || (i == 1 && desc[1] != 0) ? 0 : 1)
                     && g_nl == 0 && g_st == 1 && !g_fail && (RW == 0 || w == g_w))''', 2: '''
                 __CPROVER_assigns(j, g_ind, g_nl, g_fail)
                 __CPROVER_loop_invariant(j <= OFF && (j == 0 || g_ind == j) && g_nl == (j > 0 ? 2 : 0) && !g_fail)
                 __CPROVER_decreases(j)'''}}, **u),
        Unit("node", H("c08_node.c"), dfcc=True, functions=["_cypher_ast_fprint (ast.c)"],
             edits={'ast.c': chain(recursion('_cypher_ast_fprint', 'vf_rec'), stub_body('ast_fprint_detail', 'return vf_detail(stream, node, detail, len, render_width, offset, colorization);'),
                                   stub_body('cypher_astnode_detailstr_realloc', 'return vf_detailstr(node, buf, bufcap);'), stub_body('cypher_astnode_typestr', 'return vf_typestr(type);'))},
             loops={('ast.c', '_cypher_ast_fprint'): {0: '''
                 __CPROVER_assigns(i, ind, g_fail)
                 __CPROVER_loop_invariant(i <= depth && ind == i && !g_fail)
                 __CPROVER_decreases(depth - i)''', 1: '''
                 __CPROVER_assigns(i, calls, seen, g_fail)
                 __CPROVER_loop_invariant(i <= n && calls == i && !g_fail && (!(W < i) || seen))
                 __CPROVER_decreases(n - i)'''}}, **u),
        Unit('widths', H('c08_widths.c'), dfcc=True, functions=['ast_fprint_field_widths (ast.c)'],
             edits={'ast.c': chain(recursion('ast_fprint_field_widths', 'vf_rec'), stub_body('cypher_astnode_typestr', 'return vf_typestr(type);'))},
             loops={('ast.c', 'ast_fprint_field_widths'): {0: '''
                 __CPROVER_assigns(i, calls, seen, go, gn, gs, ge, *max_ordinal, *max_start, *max_end, *name_width)
                 __CPROVER_loop_invariant(i <= n && calls == i && (!(W < i) || seen) && *max_ordinal == go && *max_start == gs && *max_end == ge && *name_width == gn)
                 __CPROVER_decreases(n - i)'''}}, **u),
        Unit('tree', H('c08_top.c'), defs=['-DVF_WHAT=1'], unwind=20, functions=['cypher_ast_fprint (ast.c)'], edits={'ast.c': top}, **u),
        Unit('forest', H('c08_top.c'), dfcc=True, defs=['-DVF_WHAT=2'], unwind=20, functions=['cypher_ast_fprintv (ast.c)'], edits={'ast.c': top},
             loops={('ast.c', 'cypher_ast_fprintv'): {0: '''
                 __CPROVER_assigns(i, wcalls, wseen, mo, mn, ms, me, max_ordinal, max_start, max_end, name_width)
                 __CPROVER_loop_invariant(i <= n && wcalls == i && (!(W < i) || wseen) && max_ordinal == mo && max_start == ms && max_end == me && name_width == mn && ms < 1000000000000000000ull && me < 1000000000000000000ull)''', 1: '''
                 __CPROVER_assigns(i, calls, seen, g_fail)
                 __CPROVER_loop_invariant(i <= n && calls == i && !g_fail && (!(W < i) || seen))'''}}, **u)]
