/* configurations: documented defaults, each setting changes its own part */
#include "vf.h"
static _Bool fails;
void *vf_calloc(size_t n, size_t s) { if (vf_bool()) { fails = 1; errno = ENOMEM; return NULL; } return __CPROVER_allocate(n * s, 1); }
#define calloc vf_calloc
#define PACKAGE_VERSION "x"
#include "parser_config.c"
#undef calloc
#define EMPTY(p) ((p)[0][0] == 0 && (p)[1][0] == 0)
static void same(const struct cypher_parser_config *a, const struct cypher_parser_config *b, int but)
{
    VF_ASSERT(but == 0 || (a->initial_position.line == b->initial_position.line && a->initial_position.column == b->initial_position.column && a->initial_position.offset == b->initial_position.offset), "initial position kept");
    VF_ASSERT(but == 1 || a->initial_ordinal == b->initial_ordinal, "initial ordinal kept");
    VF_ASSERT(but == 2 || a->error_colorization == b->error_colorization, "colorization kept");
}
void harness(void)
{
    fails = 0;
    struct cypher_parser_config *c = cypher_parser_new_config();
    if (c == NULL) { VF_ASSERT(fails, "fails only when out of memory"); return; }
    VF_ASSERT(c->initial_position.line == 1 && c->initial_position.column == 1 && c->initial_position.offset == 0 && c->initial_ordinal == 0, "starts at 1:1, offset 0, ordinal 0");
    VF_ASSERT(EMPTY(c->error_colorization->error) && EMPTY(c->error_colorization->error_token) && EMPTY(c->error_colorization->error_message), "no colors");
    same(c, &cypher_parser_std_config, -1);
    VF_ASSERT(c != &cypher_parser_std_config, "a configuration of its own");
    VF_ASSERT(cypher_input_position_zero.line == 1 && cypher_input_position_zero.column == 1 && cypher_input_position_zero.offset == 0, "zero position");
    struct cypher_parser_config d, d0; d0 = d;
    struct cypher_input_position p; unsigned n = vf_uint(); const struct cypher_parser_colorization *z = vf_ptr();
    struct cypher_parser_config std0 = cypher_parser_std_config;
    int w = vf_int() & 3;
    if (w == 0) { cypher_parser_config_set_initial_position(&d, p); VF_ASSERT(d.initial_position.line == p.line && d.initial_position.column == p.column && d.initial_position.offset == p.offset, "initial position set"); VF_REACH("position"); }
    else if (w == 1) { cypher_parser_config_set_initial_ordinal(&d, n); VF_ASSERT(d.initial_ordinal == n, "initial ordinal set"); VF_REACH("ordinal"); }
    else if (w == 2) { cypher_parser_config_set_error_colorization(&d, z); VF_ASSERT(d.error_colorization == z, "colorization set"); VF_REACH("colors"); }
    else { cypher_parser_config_free(c); VF_REACH("freed"); }
    same(&d, &d0, w);
    same(&std0, &cypher_parser_std_config, -1);
}
