#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <errno.h>
#include "cypher-parser.h"
static __attribute__((unused)) cypher_parse_result_t *P(const char *s) { cypher_parse_result_t *r = cypher_uparse(s, strlen(s), NULL, NULL, 0); if (!r) exit(3); return r; }
static __attribute__((unused)) char *show(const cypher_parse_result_t *r) { char *m = NULL; size_t n = 0; FILE *f = open_memstream(&m, &n); if (cypher_parse_result_fprint_ast(r, f, 0, NULL, 0) < 0) exit(3); fclose(f); return m; }
#define EXPECT(c) do { if (!(c)) { printf("failed: %s\n", #c); return 1; } } while (0)

int main(void) { cypher_parse_result_t *r = P("MATCH (n) RETURN n ORDER BY n.x descending;"); EXPECT(cypher_parse_result_nerrors(r) == 0); return 0; }
