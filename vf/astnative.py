"""Generates native/ast.c style program text from spec/ast.json: builds real
nodes of every type through the public constructors, compares every accessor
with what was passed in, clones, prints details, and releases."""
import json, os, re
from .astgen import SPEC

CONCRETE = {
 'EXPRESSION': ['identifier', 'integer', 'string', 'true', 'null', 'parameter', 'float', 'property_operator', 'binary_operator',
                'unary_operator', 'collection', 'map', 'comparison', 'apply_operator', 'case', 'filter', 'extract', 'all', 'any',
                'single', 'none', 'reduce', 'list_comprehension', 'pattern_comprehension', 'slice_operator', 'subscript_operator',
                'map_projection', 'labels_operator', 'apply_all_operator', 'pattern_path', 'shortest_path', 'false'],
 'STATEMENT_OPTION': ['explain_option', 'profile_option', 'cypher_option'],
 'QUERY_OPTION': ['using_periodic_commit'],
 'QUERY_CLAUSE': ['return', 'union', 'match', 'unwind', 'create', 'set', 'delete', 'remove', 'foreach', 'with', 'call', 'merge', 'load_csv', 'start'],
 'START_POINT': ['node_index_lookup', 'node_index_query', 'node_id_lookup', 'all_nodes_scan', 'rel_index_lookup', 'rel_index_query', 'rel_id_lookup', 'all_rels_scan'],
 'MATCH_HINT': ['using_index', 'using_join', 'using_scan'],
 'MERGE_ACTION': ['on_match', 'on_create'],
 'SET_ITEM': ['set_property', 'set_all_properties', 'merge_properties', 'set_labels'],
 'REMOVE_ITEM': ['remove_labels', 'remove_property'],
 'MAP_PROJECTION_SELECTOR': ['map_projection_literal', 'map_projection_property', 'map_projection_identifier', 'map_projection_all_properties'],
 'PATTERN_PATH': ['pattern_path', 'named_path', 'shortest_path'],
}
LEAF = {'EXPRESSION': ['identifier', 'integer', 'string', 'true', 'null'], 'QUERY_CLAUSE': ['union', 'return'],
        'PATTERN_PATH': ['pattern_path'], 'STATEMENT_OPTION': ['explain_option'], 'SET_ITEM': ['set_all_properties'],
        'REMOVE_ITEM': ['remove_labels'], 'START_POINT': ['all_nodes_scan']}

# Reference text of the details of each node type, independent of the
# implementation: the accessors give the parts.
D = {
 'statement': 'if (x(noptions)) { P("options="); SEQ(x(noptions), x2(get_option)); P(", "); } P("body="); R(x(get_body));',
 'cypher_option': 'if (x(get_version)) { P("version="); R(x(get_version)); } if (x(nparams)) { if (x(get_version)) P(", "); P("params="); SEQ(x(nparams), x2(get_param)); }',
 'cypher_option_param': 'R(x(get_name)); P(" = "); R(x(get_value));',
 'explain_option': '', 'profile_option': '', 'true': '', 'false': '', 'null': '',
 'create_node_props_index': 'P("ON=:"); R(x(get_label)); P("("); LIST(x(nprops), x2(get_prop_name), ", "); P(")");',
 'drop_node_props_index': 'P("ON=:"); R(x(get_label)); P("("); LIST(x(nprops), x2(get_prop_name), ", "); P(")");',
 'create_node_prop_constraint': 'P("ON=("); R(x(get_identifier)); P(":"); R(x(get_label)); P("), expression="); R(x(get_expression)); if (x(is_unique)) P(", IS UNIQUE");',
 'create_rel_prop_constraint': 'P("ON=("); R(x(get_identifier)); P(":"); R(x(get_reltype)); P("), expression="); R(x(get_expression)); if (x(is_unique)) P(", IS UNIQUE");',
 'query': 'P("clauses="); SEQ(x(nclauses), x2(get_clause));',
 'using_periodic_commit': 'if (x(get_limit)) { P("limit="); R(x(get_limit)); }',
 'load_csv': 'if (x(has_with_headers)) P("WITH HEADERS, "); P("url="); R(x(get_url)); P(", identifier="); R(x(get_identifier)); if (x(get_field_terminator)) { P(", field_terminator="); R(x(get_field_terminator)); }',
 'start': 'P("points="); SEQ(x(npoints), x2(get_point)); if (x(get_predicate)) { P(", WHERE="); R(x(get_predicate)); }',
 'node_index_lookup': 'R(x(get_identifier)); P(" = node:"); R(x(get_index_name)); P("("); R(x(get_prop_name)); P(" = "); R(x(get_lookup)); P(")");',
 'node_index_query': 'R(x(get_identifier)); P(" = node:"); R(x(get_index_name)); P("("); R(x(get_query)); P(")");',
 'node_id_lookup': 'R(x(get_identifier)); P(" = node("); LIST(x(nids), x2(get_id), ", "); P(")");',
 'all_nodes_scan': 'P("identifier="); R(x(get_identifier));',
 'rel_index_lookup': 'R(x(get_identifier)); P(" = rel:"); R(x(get_index_name)); P("("); R(x(get_prop_name)); P(" = "); R(x(get_lookup)); P(")");',
 'rel_index_query': 'R(x(get_identifier)); P(" = rel:"); R(x(get_index_name)); P("("); R(x(get_query)); P(")");',
 'rel_id_lookup': 'R(x(get_identifier)); P(" = rel("); LIST(x(nids), x2(get_id), ", "); P(")");',
 'all_rels_scan': 'P("identifier="); R(x(get_identifier));',
 'match': 'if (x(is_optional)) P("OPTIONAL, "); P("pattern="); R(x(get_pattern)); if (x(nhints)) { P(", hints="); SEQ(x(nhints), x2(get_hint)); } if (x(get_predicate)) { P(", where="); R(x(get_predicate)); }',
 'using_index': 'R(x(get_identifier)); P(":"); R(x(get_label)); P("("); R(x(get_prop_name)); P(")");',
 'using_join': 'P("on="); SEQ(x(nidentifiers), x2(get_identifier));',
 'using_scan': 'R(x(get_identifier)); P(":"); R(x(get_label));',
 'merge': 'P("path="); R(x(get_pattern_path)); if (x(nactions)) { P(", action"); SEQ(x(nactions), x2(get_action)); }',
 'on_match': 'P("items="); SEQ(x(nitems), x2(get_item));', 'on_create': 'P("items="); SEQ(x(nitems), x2(get_item));',
 'set': 'P("items="); SEQ(x(nitems), x2(get_item));', 'remove': 'P("items="); SEQ(x(nitems), x2(get_item));',
 'order_by': 'P("items="); SEQ(x(nitems), x2(get_item));',
 'create': 'if (x(is_unique)) P("UNIQUE, "); P("pattern="); R(x(get_pattern));',
 'set_property': 'R(x(get_property)); P(" = "); R(x(get_expression));',
 'set_all_properties': 'R(x(get_identifier)); P(" = "); R(x(get_expression));',
 'merge_properties': 'R(x(get_identifier)); P(" += "); R(x(get_expression));',
 'set_labels': 'R(x(get_identifier)); for (unsigned i = 0; i < x(nlabels); ++i) { P(":"); R(x2(get_label)(a, i)); }',
 'remove_labels': 'R(x(get_identifier)); for (unsigned i = 0; i < x(nlabels); ++i) { P(":"); R(x2(get_label)(a, i)); }',
 'labels_operator': 'R(x(get_expression)); for (unsigned i = 0; i < x(nlabels); ++i) { P(":"); R(x2(get_label)(a, i)); }',
 'delete': 'if (x(has_detach)) P("DETACH, "); P("expressions="); SEQ(x(nexpressions), x2(get_expression));',
 'remove_property': 'P("prop="); R(x(get_property));',
 'foreach': 'P("["); R(x(get_identifier)); P(" IN "); R(x(get_expression)); P(" | "); LIST(x(nclauses), x2(get_clause), ", "); P("]");',
 'unwind': 'P("expression="); R(x(get_expression)); P(", alias="); R(x(get_alias));',
 'call': 'P("name="); R(x(get_proc_name)); if (x(narguments)) { P(", args="); SEQ(x(narguments), x2(get_argument)); } if (x(nprojections)) { P(", YIELD="); SEQ(x(nprojections), x2(get_projection)); } if (x(get_predicate)) { P(", WHERE="); R(x(get_predicate)); }',
 'projection': 'P("expression="); R(x(get_expression)); if (x(get_alias)) { P(", alias="); R(x(get_alias)); }',
 'sort_item': 'P("expression="); R(x(get_expression)); P(x(is_ascending) ? ", ASCENDING" : ", DESCENDING");',
 'union': 'if (x(has_all)) P("ALL");',
 'unary_operator': 'P(OPSTR(x(get_operator))); P(" "); R(x(get_argument));',
 'binary_operator': 'R(x(get_argument1)); P(" "); P(OPSTR(x(get_operator))); P(" "); R(x(get_argument2));',
 'comparison': 'for (unsigned i = 0; i < x(get_length); ++i) { R(x2(get_argument)(a, i)); P(" "); P(OPSTR(x2(get_operator)(a, i))); P(" "); } R(x2(get_argument)(a, x(get_length)));',
 'apply_operator': 'R(x(get_func_name)); P("("); if (x(get_distinct)) P("DISTINCT "); LIST(x(narguments), x2(get_argument), ", "); P(")");',
 'apply_all_operator': 'R(x(get_func_name)); P("("); if (x(get_distinct)) P("DISTINCT "); P("*)");',
 'property_operator': 'R(x(get_expression)); P("."); R(x(get_prop_name));',
 'subscript_operator': 'R(x(get_expression)); P("["); R(x(get_subscript)); P("]");',
 'slice_operator': 'R(x(get_expression)); P("["); if (x(get_start)) R(x(get_start)); P(".."); if (x(get_end)) R(x(get_end)); P("]");',
 'map_projection': 'R(x(get_expression)); P("{"); LIST(x(nselectors), x2(get_selector), ", "); P("}");',
 'map_projection_literal': 'R(x(get_prop_name)); P(": "); R(x(get_expression));',
 'map_projection_property': 'P("."); R(x(get_prop_name));', 'map_projection_identifier': 'R(x(get_identifier));',
 'map_projection_all_properties': 'P(".*");',
 'pattern_comprehension': 'P("["); if (x(get_identifier)) { R(x(get_identifier)); P(" = "); } R(x(get_pattern)); P(" "); if (x(get_predicate)) { P("WHERE "); R(x(get_predicate)); P(" "); } P("| "); R(x(get_eval)); P("]");',
 'reduce': 'P("["); R(x(get_accumulator)); P("="); R(x(get_init)); P(", "); R(x(get_identifier)); P(" IN "); R(x(get_expression)); if (x(get_eval)) { P(" | "); R(x(get_eval)); } P("]");',
 'case': 'if (x(get_expression)) { P("expression="); R(x(get_expression)); P(", "); } P("alternatives=["); for (unsigned i = 0; i < x(nalternatives); ++i) { if (i) P(", "); P("("); R(x2(get_predicate)(a, i)); P(":"); R(x2(get_value)(a, i)); P(")"); } P("]"); if (x(get_default)) { P(", default="); R(x(get_default)); }',
 'collection': 'SEQ(x(length), x2(get));',
 'map': 'P("{"); for (unsigned i = 0; i < x(nentries); ++i) { if (i) P(", "); R(x2(get_key)(a, i)); P(":"); R(x2(get_value)(a, i)); } P("}");',
 'identifier': 'P("`"); P(x(get_name)); P("`");', 'parameter': 'P("$`"); P(x(get_name)); P("`");',
 'string': 'P("\\""); P(x(get_value)); P("\\"");', 'integer': 'P(x(get_valuestr));', 'float': 'P(x(get_valuestr));',
 'label': 'P(":`"); P(x(get_name)); P("`");', 'reltype': 'P(":`"); P(x(get_name)); P("`");',
 'prop_name': 'P("`"); P(x(get_value)); P("`");', 'function_name': 'P("`"); P(x(get_value)); P("`");',
 'index_name': 'P("`"); P(x(get_value)); P("`");', 'proc_name': 'P("`"); P(x(get_value)); P("`");',
 'pattern': 'P("paths="); SEQ(x(npaths), x2(get_path));',
 'named_path': 'R(x(get_identifier)); P(" = "); R(x(get_path));',
 'shortest_path': 'P("single="); P(x(is_single) ? "true" : "false"); P(", path="); R(x(get_path));',
 'pattern_path': 'for (unsigned i = 0; i < x(nelements); ++i) { P(i % 2 ? "-[" : "("); R(x2(get_element)(a, i)); P(i % 2 ? "]-" : ")"); }',
 'node_pattern': 'P("("); if (x(get_identifier)) R(x(get_identifier)); for (unsigned i = 0; i < x(nlabels); ++i) { P(":"); R(x2(get_label)(a, i)); } if (x(get_properties)) { P(" {"); R(x(get_properties)); P("}"); } P(")");',
 'rel_pattern': 'P(x(get_direction) == CYPHER_REL_INBOUND ? "<-[" : "-["); if (x(get_identifier)) R(x(get_identifier)); for (unsigned i = 0; i < x(nreltypes); ++i) { P(i ? "|:" : ":"); R(x2(get_reltype)(a, i)); } if (x(get_varlength)) { P("*"); R(x(get_varlength)); } if (x(get_properties)) { P(" {"); R(x(get_properties)); P("}"); } P(x(get_direction) == CYPHER_REL_OUTBOUND ? "]->" : "]-");',
 'range': 'P("*"); if (x(get_start) || x(get_end)) { if (x(get_start)) R(x(get_start)); P(".."); if (x(get_end)) R(x(get_end)); }',
 'command': 'P("name="); R(x(get_name)); P(", args="); SEQ(x(narguments), x2(get_argument));',
 'line_comment': 'P("//"); P(x(get_value));', 'block_comment': 'P("/*"); P(x(get_value)); P("*/");', 'error': 'P(">>"); P(x(get_value)); P("<<");',
}
D['drop_node_prop_constraint'] = D['create_node_prop_constraint']
D['drop_rel_prop_constraint'] = D['create_rel_prop_constraint']
_rw = ('if (x(is_distinct)) P("DISTINCT, "); if (x(has_include_existing)) P("*, "); P("projections="); SEQ(x(nprojections), x2(get_projection)); '
       'if (x(get_order_by)) { P(", ORDER BY="); R(x(get_order_by)); } if (x(get_skip)) { P(", SKIP="); R(x(get_skip)); } if (x(get_limit)) { P(", LIMIT="); R(x(get_limit)); }')
D['return'] = _rw
D['with'] = _rw + ' if (x(get_predicate)) { P(", WHERE="); R(x(get_predicate)); }'
for _n in ('filter', 'all', 'any', 'single', 'none', 'extract', 'list_comprehension'):
    D[_n] = ('P("["); R(cypher_ast_list_comprehension_get_identifier(a)); P(" IN "); R(cypher_ast_list_comprehension_get_expression(a));'
             ' if (cypher_ast_list_comprehension_get_predicate(a)) { P(" WHERE "); R(cypher_ast_list_comprehension_get_predicate(a)); }'
             ' if (cypher_ast_list_comprehension_get_eval(a)) { P(" | "); R(cypher_ast_list_comprehension_get_eval(a)); } P("]");')

HEAD = r'''
#include "cypher-parser.h"
#include "operators.h"
#include "astnode.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <unistd.h>
typedef cypher_astnode_t N;
typedef const cypher_astnode_t CN;
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(rs >> 33) % n; }
static const char *cur = "?"; static unsigned round_; static unsigned long checks;
static void fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    printf("FAIL node type %s, round %u: ", cur, round_); vprintf(fmt, ap); printf("\n"); va_end(ap);
    fflush(stdout); _exit(1);
}
#define CHECK(c, ...) do { checks++; if (!(c)) fail(__VA_ARGS__); } while (0)
/* children under construction */
typedef struct { N *v[64]; unsigned n; } KIDS;
static N *kid(KIDS *k, N *c) { k->v[k->n++] = c; return c; }
static void spice(KIDS *k, int depth)
{
    /* comments may sit among the children; the order carries no meaning */
    struct cypher_input_range r = { { 9, 8, 7 }, { 6, 5, 4 } };
    for (unsigned i = rnd(3); i > 0; --i) kid(k, cypher_ast_line_comment("c", 1, r));
    for (unsigned i = k->n; i > 1; --i) { unsigned j = rnd(i); N *t = k->v[i-1]; k->v[i-1] = k->v[j]; k->v[j] = t; }
}
static struct cypher_input_range rr(void)
{
    struct cypher_input_range r = { { 1 + rnd(50), 1 + rnd(70), rnd(5000) }, { 1 + rnd(50), 1 + rnd(70), rnd(5000) } };
    return r;
}
static bool req(struct cypher_input_range a, struct cypher_input_range b)
{
    return a.start.line == b.start.line && a.start.column == b.start.column && a.start.offset == b.start.offset &&
        a.end.line == b.end.line && a.end.column == b.end.column && a.end.offset == b.end.offset;
}
static const cypher_operator_t *anyop(void)
{
    const cypher_operator_t *t[] = { CYPHER_OP_OR, CYPHER_OP_AND, CYPHER_OP_EQUAL, CYPHER_OP_LT, CYPHER_OP_PLUS, CYPHER_OP_MULT, CYPHER_OP_UNARY_MINUS, CYPHER_OP_IN, CYPHER_OP_STARTS_WITH };
    return t[rnd(9)];
}
static char *anystr(unsigned *n)
{
    *n = (round_ < 3) ? round_ : rnd(round_ % 7 == 0 ? 3000 : 40);
    char *s = malloc(*n);
    for (unsigned i = 0; i < *n; ++i) s[i] = " abc\n'\"`\\xyz\t%s\xc3"[rnd(17)] ? " abc\n'\"`\\xyz\t%s\xc3"[rnd(17)] : 'q';
    for (unsigned i = 0; i < *n; ++i) if (s[i] == 0) s[i] = 'q';
    return s;
}
/* the child of b that corresponds to the child x of a */
static void same_child(CN *a, CN *b, CN *x, CN *y, const char *what)
{
    if (x == NULL || y == NULL) { CHECK(x == y, "clone: %s is %s in the original but %s in the clone", what, x ? "present" : "absent", y ? "present" : "absent"); return; }
    CHECK(x != y, "clone: %s is shared with the original", what);
    CHECK(cypher_astnode_type(x) == cypher_astnode_type(y), "clone: %s has type %s, original has %s", what,
        cypher_astnode_typestr(cypher_astnode_type(y)), cypher_astnode_typestr(cypher_astnode_type(x)));
    unsigned n = cypher_astnode_nchildren(a);
    for (unsigned i = 0; i < n; ++i) if (cypher_astnode_get_child(a, i) == x)
    {
        for (unsigned j = 0; j < n; ++j) if (cypher_astnode_get_child(b, j) == y)
        { CHECK(i == j, "clone: %s is child %u, in the original it is child %u", what, j, i); return; }
        fail("clone: %s is not a child of the clone", what);
    }
}
typedef struct { char *s; size_t n, cap; } BUF;
static void bput(BUF *b, const char *s)
{
    size_t l = strlen(s);
    if (b->n + l + 1 > b->cap) { b->cap = 2 * (b->n + l + 1); b->s = realloc(b->s, b->cap); }
    memcpy(b->s + b->n, s, l + 1); b->n += l;
}
static void bref(BUF *b, CN *x) { char t[20]; snprintf(t, sizeof t, "@%u", x->ordinal); bput(b, t); }
#define P(s) bput(b, s)
#define R(x) bref(b, x)
#define LIST(n, f, sep) do { unsigned n_ = (n); for (unsigned i_ = 0; i_ < n_; ++i_) { if (i_) P(sep); R(f(a, i_)); } } while (0)
#define SEQ(n, f) do { P("["); LIST(n, f, ", "); P("]"); } while (0)
#define OPSTR(o) ((o)->str)
static N *make(const char *type, int depth);
static void compare(CN *a, CN *b);
'''


def mk(t):
    """C function building one node of type t with checks."""
    L = []
    A = L.append
    name = t['name']
    A('static N *mk_%s(int depth, bool check)\n{' % name)
    A('    KIDS k = { .n = 0 }; struct cypher_input_range r = rr(); unsigned sl = 0; char *s = NULL; (void)sl; (void)s;')
    args, frees, counts = [], [], {}
    ps = t['params']
    for p in ps:
        if p['kind'] == 'count':
            A('    unsigned c_%s = %s;' % (p['name'], 'cnt(%d, %d, depth)' % (p.get('min', 0), 1 if p.get('odd') else 0)))
            for o in p['of']:
                m = re.match(r'(\w+)([+*]\d+)?$', o)
                counts[m.group(1)] = ('(c_%s%s)' % (p['name'], m.group(2) or ''), 'c_' + p['name'])
    if name in ('with', 'return'):
        A('    bool v_include_existing = rnd(2) || c_nprojections == 0;')
    for p in ps:
        n, k = p['name'], p['kind']
        if k == 'node':
            A('    N *v_%s = kid(&k, make("%s", depth - 1));' % (n, p['type'])); args.append('v_' + n)
        elif k == 'opt':
            A('    N *v_%s = opt() ? kid(&k, make("%s", depth - 1)) : NULL;' % (n, p['type'])); args.append('v_' + n)
        elif k == 'array':
            A('    N **v_%s = malloc((%s + 1) * sizeof(N *)), **w_%s = malloc((%s + 1) * sizeof(N *));' % (n, counts[n][0], n, counts[n][0]))
            ty = '"%s"' % p['type']
            if name == 'pair_map':
                ty = 'i % 2 ? "EXPRESSION" : "PROP_NAME"'
            if name == 'pattern_path':
                ty = 'i % 2 ? "REL_PATTERN" : "NODE_PATTERN"'
            A('    for (unsigned i = 0; i < %s; ++i) v_%s[i] = w_%s[i] = kid(&k, make(%s, depth - 1));' % (counts[n][0], n, n, ty))
            args.append('v_' + n)
        elif k == 'oparray':
            A('    const cypher_operator_t **v_%s = malloc((%s + 1) * sizeof(*v_%s)), **w_%s = malloc((%s + 1) * sizeof(*w_%s));' % (n, counts[n][0], n, n, counts[n][0], n))
            A('    for (unsigned i = 0; i < %s; ++i) v_%s[i] = w_%s[i] = anyop();' % (counts[n][0], n, n)); args.append('v_' + n)
        elif k == 'bool':
            if n != 'include_existing':
                A('    bool v_%s = rnd(2);' % n)
            args.append('v_' + n)
        elif k == 'enum':
            A('    enum cypher_rel_direction v_%s = (enum cypher_rel_direction)rnd(3);' % n); args.append('v_' + n)
        elif k == 'op':
            A('    const cypher_operator_t *v_%s = anyop();' % n); args.append('v_' + n)
        elif k == 'count':
            args.append('c_' + n)
        elif k == 'str':
            A('    s = anystr(&sl); char *w_s = malloc(sl + 1); memcpy(w_s, s, sl); w_s[sl] = 0;'); args.append('s')
        elif k == 'len':
            args.append('sl')
    if t['children']:
        A('    spice(&k, depth); N **kids = malloc((k.n + 1) * sizeof(N *)); memcpy(kids, k.v, k.n * sizeof(N *));')
        args += ['kids', 'k.n']
    args.append('r')
    A('    N *a = %s(%s);' % (t['ctor'], ', '.join(args)))
    A('    if (!check) goto done;')
    A('    const char *prev_ = cur; cur = "%s";' % name)
    A('    CHECK(a != NULL, "construction failed");')
    for p in ps:   # the node must not keep references to the caller's arrays
        if p['kind'] in ('array', 'oparray'):
            A('    memset(v_%s, 0x5a, (%s + 1) * sizeof(void *));' % (p['name'], counts[p['name']][0]))
        if p['kind'] == 'str':
            A('    memset(s, 0x5a, sl);')
    if t['children']:
        A('    memset(kids, 0x5a, (k.n + 1) * sizeof(N *));')
    A('    CHECK(cypher_astnode_type(a) == CYPHER_AST_%s, "type is %%s", cypher_astnode_typestr(cypher_astnode_type(a)));' % t['type'])
    A('    CHECK(cypher_astnode_instanceof(a, CYPHER_AST_%s), "instanceof its own type");' % t['type'])
    A('    CHECK(req(cypher_astnode_range(a), r), "source range differs from the one given");')
    A('    CHECK(cypher_astnode_nchildren(a) == k.n, "%u children, %u given", cypher_astnode_nchildren(a), k.n);')
    A('    for (unsigned i = 0; i < k.n; ++i) CHECK(cypher_astnode_get_child(a, i) == k.v[i], "child %u", i);')
    A('    CHECK(cypher_astnode_get_child(a, k.n) == NULL && cypher_astnode_get_child(a, k.n + 5) == NULL, "child beyond the last");')
    for g in t['getters']:
        of, fn = g['of'], g['fn']
        if of == 's':
            A('    CHECK(strcmp(%s(a), w_s) == 0, "%s: \\"%%s\\" for \\"%%s\\"", %s(a), w_s);' % (fn, fn, fn))
        elif of == 'NULL':
            A('    CHECK(%s(a) == NULL, "%s");' % (fn, fn))
        elif of.startswith('#'):
            A('    CHECK(%s(a) == %s, "%s: %%u for %%u", (unsigned)%s(a), %s);' % (fn, counts[of[1:]][1], fn, fn, counts[of[1:]][1]))
        elif '[' in of:
            b, sub = of[:of.index('[')], of[of.index('[') + 1:-1]
            if sub:
                e, lim = 'w_%s[2*i%s]' % (b, '+1' if sub == '2i+1' else ''), counts[b][1]
            else:
                e, lim = 'w_%s[i]' % b, counts[b][0]
            A('    for (unsigned i = 0; i < %s; ++i) CHECK(%s(a, i) == %s, "%s(%%u)", i);' % (lim, fn, e, fn))
            A('    CHECK(%s(a, %s) == NULL && %s(a, %s + 7) == NULL, "%s beyond the last");' % (fn, lim, fn, lim, fn))
        else:
            A('    CHECK(%s(a) == v_%s, "%s");' % (fn, of, fn))
    if name in ('named_path', 'shortest_path'):
        A('    CHECK(cypher_ast_pattern_path_nelements(a) == cypher_ast_pattern_path_nelements(v_path), "number of elements is that of the path");')
        A('    for (unsigned i = 0; i < cypher_ast_pattern_path_nelements(v_path) + 2; ++i) CHECK(cypher_ast_pattern_path_get_element(a, i) == cypher_ast_pattern_path_get_element(v_path, i), "element %u is that of the path", i);')
    A('    cur = prev_;')
    A('done:')
    for p in ps:
        if p['kind'] in ('array', 'oparray'):
            A('    free(v_%s); free(w_%s);' % (p['name'], p['name']))
        if p['kind'] == 'str':
            A('    free(s); free(w_s);')
    if t['children']:
        A('    free(kids);')
    A('    return a;\n}')
    return '\n'.join(L)


def cmp_fn(t):
    L = ['static void cmp_%s(CN *a, CN *b)\n{' % t['name']]
    A = L.append
    kinds = {p['name']: p['kind'] for p in t['params']}
    cnt = {g['of'][1:]: g['fn'] for g in t['getters'] if g['of'].startswith('#')}
    for g in t['getters']:
        of, fn = g['of'], g['fn']
        if of == 's':
            A('    CHECK(strcmp(%s(a), %s(b)) == 0, "clone: %s is \\"%%s\\" instead of \\"%%s\\"", %s(b), %s(a));' % (fn, fn, fn, fn, fn))
            A('    CHECK(%s(a) != %s(b), "clone: %s is shared with the original");' % (fn, fn, fn))
        elif of == 'NULL':
            A('    CHECK(%s(b) == NULL, "clone: %s");' % (fn, fn))
        elif of.startswith('#'):
            A('    CHECK(%s(a) == %s(b), "clone: %s is %%u instead of %%u", (unsigned)%s(b), (unsigned)%s(a));' % (fn, fn, fn, fn, fn))
        elif '[' in of:
            b = of[:of.index('[')]
            c = cnt.get(b)
            lim = '%s(a)%s' % (c, ' + 1' if t['name'] == 'comparison' and b == 'args' else '') if c else '0'
            if t['name'] == 'comparison' and not c:
                lim = 'cypher_ast_comparison_get_length(a) + 1'
            if t['type'] == 'MAP' and not c:
                lim = 'cypher_ast_map_nentries(a)'
            if kinds[b] == 'oparray':
                A('    for (unsigned i = 0; i < %s; ++i) CHECK(%s(a, i) == %s(b, i), "clone: %s(%%u)", i);' % (lim, fn, fn, fn))
            else:
                A('    for (unsigned i = 0; i < %s; ++i) same_child(a, b, %s(a, i), %s(b, i), "%s");' % (lim, fn, fn, fn))
                A('    CHECK(%s(b, %s) == NULL, "clone: %s beyond the last");' % (fn, lim, fn))
        elif kinds[of] in ('node', 'opt'):
            A('    same_child(a, b, %s(a), %s(b), "%s");' % (fn, fn, fn))
        else:
            A('    CHECK(%s(a) == %s(b), "clone: %s differs");' % (fn, fn, fn))
    if t['name'] in ('named_path', 'shortest_path'):
        A('    CHECK(cypher_ast_pattern_path_nelements(a) == cypher_ast_pattern_path_nelements(b), "clone: number of elements");')
        A('    for (unsigned i = 0; i < cypher_ast_pattern_path_nelements(a); ++i) CHECK(cypher_ast_pattern_path_get_element(b, i) == cypher_ast_pattern_path_get_element(cypher_ast_%s_get_path(b), i), "clone: element %%u is that of its own path", i);' % t['name'])
    A('}')
    return '\n'.join(L)


def det_fn(t):
    body = D[t['name']]
    body = re.sub(r'\bx\((\w+)\)', r'cypher_ast_%s_\1(a)' % t['name'], body)
    body = re.sub(r'\bx2\((\w+)\)', r'cypher_ast_%s_\1' % t['name'], body)
    return 'static void det_%s(BUF *b, CN *a) { %s }' % (t['name'], body)


def program():
    o = [HEAD]
    o.append('static unsigned cnt(unsigned min, bool odd, int depth) { unsigned c = round_ == 0 ? min : min + rnd(depth > 0 ? 6 : 2); if (odd) { c |= 1; } return c; }')
    o.append('static bool opt(void) { return round_ == 0 ? false : round_ == 1 ? true : rnd(2); }')
    for t in SPEC:
        o.append('static N *mk_%s(int depth, bool check);' % t['name'])
    for t in SPEC:
        o.append(mk(t))
        if t['name'] != 'pair_map':
            o.append(cmp_fn(t))
            o.append(det_fn(t))
    o.append('static const struct { const char *name; N *(*mk)(int, bool); } types[] = {')
    for t in SPEC:
        o.append('    { "%s", mk_%s },' % (t['name'], t['name']))
    o.append('    { NULL, NULL } };')
    # factory by (super)type name
    o.append('static N *make(const char *type, int depth)\n{\n    bool check = true;')
    for sup, subs in CONCRETE.items():
        leaf = LEAF.get(sup, subs)
        o.append('    if (strcmp(type, "%s") == 0) { switch (depth > 0 ? rnd(%d) : %d + rnd(%d)) {' % (sup, len(subs), len(subs), len(leaf)))
        for i, s in enumerate(subs + leaf):
            o.append('        case %d: return mk_%s(depth, check);' % (i, s))
        o.append('    } }')
    byname = {t['name']: t for t in SPEC}
    for t in SPEC:
        if t['name'] != 'pair_map' and t['type'] not in CONCRETE:
            o.append('    if (strcmp(type, "%s") == 0) return mk_%s(depth, check);' % (t['type'], t['name']))
    o.append('    fprintf(stderr, "no factory for %s\\n", type); exit(3);\n}')
    o.append(r'''
static void compare(CN *a, CN *b)
{
    CHECK(a != b, "clone shares a node with the original");
    CHECK(cypher_astnode_type(a) == cypher_astnode_type(b), "clone of a %s is a %s", cypher_astnode_typestr(cypher_astnode_type(a)), cypher_astnode_typestr(cypher_astnode_type(b)));
    CHECK(req(cypher_astnode_range(a), cypher_astnode_range(b)), "clone of a %s has another source range", cypher_astnode_typestr(cypher_astnode_type(a)));
    CHECK(cypher_astnode_nchildren(a) == cypher_astnode_nchildren(b), "clone of a %s has %u children, original %u", cypher_astnode_typestr(cypher_astnode_type(a)), cypher_astnode_nchildren(b), cypher_astnode_nchildren(a));
    const char *p = cur;
''')
    for t in SPEC:
        if t['name'] != 'pair_map':
            o.append('    if (cypher_astnode_type(a) == CYPHER_AST_%s) { cur = "%s"; cmp_%s(a, b); }' % (t['type'], t['name'], t['name']))
    o.append(r'''
    for (unsigned i = 0; i < cypher_astnode_nchildren(a); ++i) compare(cypher_astnode_get_child(a, i), cypher_astnode_get_child(b, i));
    cur = p;
}
static void number(N *a, unsigned *o)
{
    a->ordinal = *o; *o += 1 + rnd(3) * rnd(3) * 50;
    for (unsigned i = 0; i < a->nchildren; ++i) number(a->children[i], o);
}
static void reference(BUF *b, CN *a)
{
''')
    for t in SPEC:
        if t['name'] != 'pair_map':
            o.append('    if (cypher_astnode_type(a) == CYPHER_AST_%s) { cur = "%s"; det_%s(b, a); return; }' % (t['type'], t['name'], t['name']))
    o.append(r'''
    fail("type without reference");
}
static void detail(CN *a, bool sizes)
{
    const char *p = cur;
    BUF b = { malloc(16), 0, 16 }; b.s[0] = 0;
    reference(&b, a);
    ssize_t n = cypher_astnode_detailstr(a, NULL, 0);
    CHECK(n == (ssize_t)b.n, "detail length %zd reported without a buffer, should be %zu (\"%s\")", n, b.n, b.s);
    size_t cap = b.n + 40;
    for (size_t size = sizes ? 1 : b.n + 2; size <= b.n + 3; size += (b.n > 200 && size > 20 && size + 20 < b.n) ? b.n / 11 : 1)
    {
        char *buf = malloc(size);          /* exactly size bytes: the sanitizer sees any overrun */
        memset(buf, 0x7f, size);
        n = cypher_astnode_detailstr(a, buf, size);
        CHECK(n == (ssize_t)b.n, "detail length %zd with a buffer of %zu, should be %zu (\"%s\")", n, size, b.n, b.s);
        if (size > b.n + 1) CHECK(memcmp(buf, b.s, b.n) == 0, "detail \"%.*s\", should be \"%s\"", (int)b.n, buf, b.s);
        free(buf);
    }
    (void)cap;
    free(b.s);
    for (unsigned i = 0; i < cypher_astnode_nchildren(a); ++i) detail(cypher_astnode_get_child(a, i), false);
    cur = p;
}
int main(int argc, char **argv)
{
    const char *mode = argv[1]; unsigned rounds = atoi(argv[2]); unsigned long long seed = strtoull(argv[3], NULL, 10);
    alarm(240);
    for (unsigned i = 0; types[i].name != NULL; ++i)
    for (round_ = 0; round_ < rounds; ++round_)
    {
        rs = seed * 1000003 + i * 7919 + round_;
        cur = types[i].name;
        N *a = types[i].mk(round_ % 10 == 9 ? 3 : 1, true);
        if (strcmp(mode, "clone") == 0)
        {
            N *b = cypher_ast_clone(a);
            CHECK(b != NULL, "clone failed");
            compare(a, b);
            /* the clone is independent of the original */
            N *c = cypher_ast_clone(b);
            cypher_ast_free(a);
            CHECK(c != NULL, "clone of the clone failed");
            compare(b, c);
            cypher_ast_free(c);
            compare(b, b == NULL ? a : (a = cypher_ast_clone(b)));
            cypher_ast_free(a);
            a = b;
        }
        if (strcmp(mode, "detail") == 0)
        {
            unsigned o = rnd(2) ? rnd(9) : rnd(99999);
            number(a, &o);
            detail(a, true);
        }
        cypher_ast_free(a);
    }
    printf("ok: mode %s, %u rounds of every node type, %lu checks\n", mode, rounds, checks);
    return 0;
}
''')
    return '\n'.join(o)
