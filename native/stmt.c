/* Well-formed statements and commands, generated together with the tree they
   denote; parsed by the real library and compared part by part, range by range.
   args: rounds seed mode   (mode: expr = operator expressions only, stmt) */
static B txt;                                  /* the input so far */
static struct { size_t s, e; } tk[1 << 20]; static unsigned ntk;
static size_t gapend[1 << 20];                 /* unused slots */
static bool needws, plainws;
static size_t norm(size_t p)
{
    /* position p within the gap after token k -> end of token k */
    unsigned lo = 0, hi = ntk;
    while (lo < hi) { unsigned m = (lo + hi) / 2; if (tk[m].e <= p) lo = m + 1; else hi = m; }
    if (lo == 0) return p;
    size_t e = tk[lo - 1].e, nx = lo < ntk ? tk[lo].s : txt.n;
    return p <= nx ? e : p;
}
static bool symc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '$'; }
static bool opc(char c) { return strchr("-<>=/*.:+|%^~", c) != NULL; }
static unsigned spacing;                       /* how lively the gaps are */
static void gap(bool req)
{
    static const char *const ws[] = { " ", "\n", "\t", "  ", "\r\n", " \n " };
    static const char *const cm[] = { "/*c*/", "/* ; ' \n */", "//z\n", "// ' ; x\n", "/**/", "/*\"*/", "//\r\n" };
    if (plainws) { bs(&txt, " "); plainws = needws = false; return; }
    if (needws) { bs(&txt, ws[rnd(6)]); needws = false; req = false; }
    if (spacing == 0) { if (req) bs(&txt, " "); return; }
    bool any = false;
    while (rnd(spacing > 1 ? 2 : 5) == 0 || (req && !any))
    {
        if (rnd(spacing > 1 ? 3 : 8) == 0) bs(&txt, cm[rnd(7)]); else bs(&txt, ws[rnd(6)]);
        any = true;
    }
}
static void T(const char *s)
{
    char l = txt.n ? txt.p[txt.n - 1] : ' ';
    gap((symc(l) && symc(s[0])) || (opc(l) && opc(s[0])));
    tk[ntk].s = txt.n; bs(&txt, s); tk[ntk].e = txt.n; ntk++;
    if (!strcmp(s, "/")) plainws = true;
}
static void KW(const char *s)                  /* keyword in any case */
{
    char w[32]; unsigned m = rnd(4);
    for (size_t i = 0; i <= strlen(s); i++) { char c = s[i]; bool up = m == 0 || (m == 3 && rnd(2)); w[i] = (c >= 'A' && c <= 'Z' && !up) ? c + 32 : c; }
    T(w);
}
static void KWS(const char *s) { char w[64]; strcpy(w, s); for (char *p = strtok(w, " "); p; p = strtok(NULL, " ")) KW(p); }
/* expected text of a node; the first token is number m */
static char *fmt(const char *f, ...)
{
    char *t = NULL; va_list ap; va_start(ap, f); if (vasprintf(&t, f, ap) < 0) exit(3); va_end(ap); return t;
}
static char *pool[1 << 20]; static unsigned npool;
static char *K(char *s) { pool[npool++] = s; return s; }
static char *N(const char *type, unsigned m, const char *rest)
{
    return K(fmt("(%s %zu-%zu%s%s)", type, tk[m].s, tk[ntk - 1].e, *rest ? " " : "", rest));
}
#define F(...) K(fmt(__VA_ARGS__))
typedef struct { char *s; unsigned n; } L;     /* a list of expected nodes */
static void add(L *l, const char *x) { l->s = l->n ? F("%s %s", l->s, x) : (char *)x; l->n++; }
#define LS(l) ((l).n ? (l).s : "")
static char *q(const char *s, size_t n) { B b = { 0 }; bs(&b, "\""); for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c < 32 || c > 126 || c == 34 || c == 92) bf(&b, "\\%02x", c); else bput(&b, s + i, 1); } bs(&b, "\""); return K(b.p); }

static const char *const names[] = { "a", "b", "n", "m", "x1", "_y", "foo", "Person", "zed", "aVeryLongNameIndeedWithDigits0123456789", "r", "nothing", "inner", "order1", "ended", "isnt", "trueish", "nullable", "caseless", "T", "nota", "orb" };
/* a symbolic name: emits it (as one token, with prefix) and gives its value */
static char *name_(const char *prefix)
{
    B b = { 0 }; bs(&b, prefix); char *v;
    if (rnd(6)) { const char *s = names[rnd(sizeof(names) / sizeof(*names))]; bs(&b, s); v = q(s, strlen(s)); }
    else
    {
        static const char *const odd[] = { "a b", "RETURN", "it's", "x;y", "//no", "/*no*/", "\xc3\xa9t\xc3\xa9", "l1\nl2", "1", "\\n", "\"", "", "(", "a.b", "{", "$" };
        B w = { 0 }; bs(&w, ""); unsigned k = 1 + rnd(rnd(8) ? 2 : 40); while (k--) bs(&w, odd[rnd(16)]);
        bs(&b, "`"); bput(&b, w.p, w.n); bs(&b, "`"); v = q(w.p, w.n); bfree(&w);
    }
    T(b.p); bfree(&b); return v;
}
static char *named(const char *type) { unsigned m = ntk; char *v = name_(""); return N(type, m, v); }
static char *ident(void) { return named("IDENTIFIER"); }
static char *propname(void) { return named("PROP_NAME"); }
static char *colon(const char *type) { unsigned m = ntk; char *v; if (rnd(2)) { v = name_(":"); } else { T(":"); v = name_(""); } return N(type, m, v); }
static char *label(void) { return colon("LABEL"); }
static char *integer(void)
{
    static const char *const v[] = { "0", "1", "42", "007", "0x1F", "9223372036854775807", "123456789012345678901234567890", "0Xff", "12a" };
    unsigned m = ntk; const char *s = v[rnd(9)]; T(s); return N("INTEGER", m, q(s, strlen(s)));
}
static char *floatl(void)
{
    static const char *const v[] = { "1.0", "0.5", ".5", "1e10", "1.5E-3", "2.e+7", "00.25", "1.5e3", ".0e1" };
    unsigned m = ntk; const char *s = v[rnd(9)]; T(s); return N("FLOAT", m, q(s, strlen(s)));
}
static char *stringl(void)
{
    static const struct { const char *w, *v; } esc[] = { { "\\a", "\a" }, { "\\b", "\b" }, { "\\f", "\f" }, { "\\n", "\n" }, { "\\r", "\r" }, { "\\t", "\t" }, { "\\v", "\v" },
        { "\\\\", "\\" }, { "\\'", "'" }, { "\\\"", "\"" }, { "\\?", "?" } };
    static const char *const raw[] = { "a", "bc", " ", ";", "//", "/*", "\n", "\r\n", "`", "{x}", "\xc3\xa9", "\x01", "0", "\xff", "\t", "*/", "--", "END", "\r", "\\x", "\\0", "\\u" };
    unsigned m = ntk; char d = rnd(2) ? '\'' : '"'; B w = { 0 }, v = { 0 }; bs(&v, ""); bput(&w, &d, 1);
    unsigned k = rnd(rnd(10) ? 5 : 300);
    while (k--)
    {
        if (rnd(3) == 0) { unsigned i = rnd(11); bs(&w, esc[i].w); bs(&v, esc[i].v); }
        else if (rnd(8) == 0) { char o = d == '"' ? '\'' : '"'; bput(&w, &o, 1); bput(&v, &o, 1); }
        else { const char *r = raw[rnd(22)]; bs(&w, r); bs(&v, r); }
    }
    bput(&w, &d, 1); T(w.p);
    char *s = q(v.p, v.n); bfree(&w); bfree(&v); return N("STRING", m, s);
}
static char *param(void)
{
    unsigned m = ntk; char *v; bool br = rnd(2);
    T(br ? "{" : "$");
    if (rnd(4) == 0) { static const char *const d[] = { "1", "20", "9", "105" }; const char *s = d[rnd(4)]; needws = false; T(s); v = q(s, strlen(s)); }
    else { v = name_(""); }
    if (br) T("}");
    return N("PARAMETER", m, v);
}
static char *dotted(const char *type)
{
    unsigned m = ntk; char *v = name_("");
    unsigned k = rnd(3) ? 0 : rnd(3);
    while (k--) { T("."); char *w = name_(""); v[strlen(v) - 1] = 0; v = F("%s.%s", v, w + 1); }
    return N(type, m, v);
}
static char *expr(int depth, int minprec);
static char *mapl(int depth)
{
    unsigned m = ntk; L ks = { 0 }, vs = { 0 }; T("{");
    for (unsigned k = rnd(3); k > 0; k--) { if (ks.n) T(","); add(&ks, propname()); T(":"); add(&vs, expr(depth - 1, 0)); }
    T("}"); return N("MAP", m, F("[%s] [%s]", LS(ks), LS(vs)));
}
static char *nodepat(int depth)
{
    unsigned m = ntk; T("(");
    char *i = rnd(3) ? ident() : "-"; L ls = { 0 }; for (unsigned k = rnd(3); k > 0; k--) add(&ls, label());
    char *p = rnd(4) ? "-" : rnd(2) ? mapl(depth) : param();
    T(")"); return N("NODE_PATTERN", m, F("%s [%s] %s", i, LS(ls), p));
}
static char *relpat(int depth)
{
    unsigned m = ntk; bool l = rnd(2), r = rnd(2);
    const char *dir = l == r ? "both" : l ? "in" : "out"; char *rest;
    if (l) T("<");
    T("-");
    if (rnd(3) == 0) rest = "- [] - -";
    else
    {
        T("["); char *i = rnd(2) ? ident() : "-"; L ts = { 0 };
        for (unsigned k = rnd(4); k > 0; k--) { if (ts.n) T("|"); add(&ts, ts.n && rnd(2) ? named("RELTYPE") : colon("RELTYPE")); }
        char *v = "-", *p = "-";
        switch (rnd(8))
        {
        case 0: T("*"); v = "(RANGE - -)"; break;
        case 1: { T("*"); char *s = integer(); v = F("(RANGE %s %s)", s, s); break; }
        case 2: { T("*"); char *s = rnd(2) ? integer() : "-"; T(".."); char *e = rnd(2) ? integer() : "-"; v = F("(RANGE %s %s)", s, e); break; }
        }
        if (rnd(4) == 0) p = rnd(2) ? mapl(depth) : param();
        T("]"); rest = F("%s [%s] %s %s", i, LS(ts), v, p);
    }
    T("-"); if (r) T(">");
    return N("REL_PATTERN", m, F("%s %s", dir, rest));
}
static char *path(int depth, unsigned minrel)
{
    unsigned m = ntk; L es = { 0 }; add(&es, nodepat(depth));
    for (unsigned k = minrel + (rnd(2) ? rnd(3) : 0); k > 0; k--) { add(&es, relpat(depth)); add(&es, nodepat(depth)); }
    return N("PATTERN_PATH", m, F("[%s]", LS(es)));
}
static char *shortest(int depth)
{
    unsigned m = ntk; bool one = rnd(2); KW(one ? "SHORTESTPATH" : "ALLSHORTESTPATHS"); T("("); char *p = path(depth, 0); T(")");
    return N("SHORTEST_PATH", m, F("%s %s", one ? "yes" : "no", p));
}
static char *patpart(int depth)
{
    unsigned m = ntk; char *i = NULL; if (rnd(4) == 0) { i = ident(); T("="); }
    char *p = rnd(5) ? path(depth, 0) : shortest(depth);
    return i ? N("NAMED_PATH", m, F("%s %s", i, p)) : p;
}
static char *pattern(int depth)
{
    unsigned m = ntk; L ps = { 0 };
    do { if (ps.n) T(","); add(&ps, patpart(depth)); } while (rnd(3) == 0);
    return N("PATTERN", m, F("[%s]", LS(ps)));
}
static bool exprmode;
static char *simple(void)                      /* an atom that needs no care anywhere */
{
    return rnd(3) ? ident() : rnd(2) ? stringl() : param();
}
static char *inexpr(int depth, const char *kw, const char *type, bool pipe)
{
    unsigned m = ntk; KW(kw); T("("); char *i = ident(); KW("IN"); char *e = expr(depth - 1, 0), *x = "-";
    if (rnd(3)) { if (pipe) T("|"); else KW("WHERE"); x = expr(depth - 1, 0); }
    T(")"); return N(type, m, pipe ? F("%s %s - %s", i, e, x) : F("%s %s %s -", i, e, x));
}
static char *atom(int depth)
{
    unsigned m = ntk;
    if (depth <= 0 || (exprmode && rnd(3)))
    {
        switch (rnd(9))
        {
        case 0: return integer(); case 1: return floatl(); case 2: return stringl(); case 3: return param();
        case 4: KW("TRUE"); return N("TRUE", m, ""); case 5: KW("FALSE"); return N("FALSE", m, ""); case 6: KW("NULL"); return N("NULL", m, "");
        default: return ident();
        }
    }
    switch (rnd(19))
    {
    case 0: { L es = { 0 }; T("["); for (unsigned k = rnd(rnd(20) ? 4 : 60); k > 0; k--) { if (es.n) T(","); add(&es, expr(k > 4 ? 0 : depth - 1, 99)); } T("]"); return N("COLLECTION", m, F("[%s]", LS(es))); }
    case 1: return mapl(depth);
    case 2: { T("["); char *i = ident(); KW("IN"); char *e = expr(depth - 1, 0), *p = "-", *v = "-";
              if (rnd(2)) { KW("WHERE"); p = expr(depth - 1, 0); } if (rnd(2)) { T("|"); v = expr(depth - 1, 0); }
              T("]"); return N("LIST_COMPREHENSION", m, F("%s %s %s %s", i, e, p, v)); }
    case 3: { T("["); char *i = "-", *p = "-"; if (rnd(2)) { i = ident(); T("="); } char *r = path(depth - 1, 1);
              if (rnd(2)) { KW("WHERE"); p = expr(depth - 1, 0); } T("|"); char *v = expr(depth - 1, 0);
              T("]"); return N("PATTERN_COMPREHENSION", m, F("%s %s %s %s", i, r, p, v)); }
    case 4: { KW("CASE"); char *e = "-", *d = "-"; if (rnd(2)) e = expr(depth - 1, 0); L ps = { 0 }, vs = { 0 };
              for (unsigned k = 1 + rnd(3); k > 0; k--) { KW("WHEN"); add(&ps, expr(depth - 1, 0)); KW("THEN"); add(&vs, expr(depth - 1, 0)); }
              if (rnd(2)) { KW("ELSE"); d = expr(depth - 1, 0); } KW("END"); return N("CASE", m, F("%s [%s] [%s] %s", e, LS(ps), LS(vs), d)); }
    case 5: return inexpr(depth, "FILTER", "FILTER", false);
    case 6: return inexpr(depth, "EXTRACT", "EXTRACT", true);
    case 7: return inexpr(depth, "ALL", "ALL", false);
    case 8: return inexpr(depth, "ANY", "ANY", false);
    case 9: return inexpr(depth, "SINGLE", "SINGLE", false);
    case 10: return inexpr(depth, "NONE", "NONE", false);
    case 11: { KW("REDUCE"); T("("); char *a = ident(); T("="); char *n = expr(depth - 1, 0); T(","); char *i = ident(); KW("IN"); char *e = expr(depth - 1, 0), *v = "-";
               if (rnd(3)) { T("|"); v = expr(depth - 1, 0); } T(")"); return N("REDUCE", m, F("%s %s %s %s %s", a, n, i, e, v)); }
    case 12: { char *f = dotted("FUNCTION_NAME"); T("("); bool d = rnd(3) == 0; if (d) KW("DISTINCT"); T("*"); T(")"); return N("APPLY_ALL_OPERATOR", m, F("%s %s", f, d ? "yes" : "no")); }
    case 13: case 14: { char *f = dotted("FUNCTION_NAME"); T("("); bool d = rnd(3) == 0; if (d) KW("DISTINCT"); L as = { 0 };
               for (unsigned k = rnd(4); k > 0; k--) { if (as.n) T(","); add(&as, expr(depth - 1, 0)); } T(")");
               return N("APPLY_OPERATOR", m, F("%s %s [%s]", f, d ? "yes" : "no", LS(as))); }
    case 15: return shortest(depth - 1);
    case 16: return path(depth - 1, 1);
    default: return atom(0);
    }
}
static const struct { const char *w; const char *op; int prec; int kind; } ops[] = {   /* kind 0 left, 1 right, 2 prefix, 3 postfix */
    { "OR", "OR", 1, 0 }, { "XOR", "XOR", 2, 0 }, { "AND", "AND", 3, 0 }, { "NOT", "NOT", 4, 2 }, { "=", "EQUAL", 5, 0 }, { "<>", "NEQUAL", 5, 0 },
    { "+", "PLUS", 7, 0 }, { "-", "MINUS", 7, 0 }, { "*", "MULT", 8, 0 }, { "/", "DIV", 8, 0 }, { "%", "MOD", 8, 0 }, { "^", "POW", 9, 1 },
    { "+", "UNARY_PLUS", 10, 2 }, { "-", "UNARY_MINUS", 10, 2 }, { "=~", "REGEX", 11, 0 }, { "IN", "IN", 11, 0 }, { "STARTS WITH", "STARTS_WITH", 11, 0 },
    { "ENDS WITH", "ENDS_WITH", 11, 0 }, { "CONTAINS", "CONTAINS", 11, 0 }, { "IS NULL", "IS_NULL", 11, 3 }, { "IS NOT NULL", "IS_NOT_NULL", 11, 3 } };
static char *bracketed(int depth) { T("("); char *e = expr(depth, 0); T(")"); return e; }
static char *guarded(int depth) { return rnd(2) ? simple() : bracketed(depth); }
static char *expr(int depth, int minprec)
{
    unsigned m = ntk;
    if (depth <= 0) return atom(0);
    if (exprmode ? rnd(10) == 0 : rnd(3) == 0) return atom(depth);
    if (rnd(12) == 0) return bracketed(depth - 1);
    unsigned c = rnd(27); int prec = c < 21 ? ops[c].prec : c == 21 || c == 22 ? 6 : c <= 24 ? 12 : 13;
    if (prec < minprec) return bracketed(depth - 1);
    if (c < 21)
    {
        switch (ops[c].kind)
        {
        case 2: { KW(ops[c].w); char *e = expr(depth - 1, prec); return N("UNARY_OPERATOR", m, F("%s %s", ops[c].op, e)); }
        case 3: { char *e = expr(depth - 1, prec); KWS(ops[c].w); return N("UNARY_OPERATOR", m, F("%s %s", ops[c].op, e)); }
        default: {
            char *l = expr(depth - 1, prec + (ops[c].kind == 1)); KWS(ops[c].w);
            char *r = !strcmp(ops[c].w, "-") ? guarded(depth - 1) : expr(depth - 1, prec + (ops[c].kind == 0));
            return N("BINARY_OPERATOR", m, F("%s %s %s", ops[c].op, l, r)); }
        }
    }
    if (prec == 6)
    {
        L os = { 0 }, as = { 0 }; add(&as, expr(depth - 1, 7));
        do {
            static const char *const w[] = { "<", "<=", ">", ">=" }; static const char *const n[] = { "LT", "LTE", "GT", "GTE" };
            unsigned k = rnd(4); T(w[k]); add(&os, n[k]); add(&as, k == 0 ? guarded(depth - 1) : expr(depth - 1, 7));
        } while (rnd(2));
        return N("COMPARISON", m, F("[%s] [%s]", LS(os), LS(as)));
    }
    if (c == 23)
    {
        char *l = expr(depth - 1, 12); T("[");
        if (rnd(2)) { char *r = expr(depth - 1, 0); T("]"); return N("SUBSCRIPT_OPERATOR", m, F("%s %s", l, r)); }
        char *s = rnd(3) ? expr(depth - 1, 99) : "-"; T(".."); char *e = rnd(3) ? expr(depth - 1, 99) : "-"; T("]");
        return N("SLICE_OPERATOR", m, F("%s %s %s", l, s, e));
    }
    if (c == 24)
    {
        char *l = rnd(2) ? ident() : expr(depth - 1, 12); T("{"); L ss = { 0 };
        for (unsigned k = rnd(4); k > 0; k--)
        {
            if (ss.n) T(",");
            unsigned sm = ntk;
            switch (rnd(4))
            {
            case 0: { char *p = propname(); T(":"); char *e = expr(depth - 1, 0); add(&ss, N("MAP_PROJECTION_LITERAL", sm, F("%s %s", p, e))); break; }
            case 1: { T("."); char *p = propname(); add(&ss, N("MAP_PROJECTION_PROPERTY", sm, p)); break; }
            case 2: { char *i = ident(); add(&ss, N("MAP_PROJECTION_IDENTIFIER", sm, i)); break; }
            default: T("."); bs(&txt, ""); plainws = false; { size_t z = txt.n; bs(&txt, "*"); (void)z; tk[ntk - 1].e = txt.n; } add(&ss, N("MAP_PROJECTION_ALL_PROPERTIES", sm, ""));
            }
        }
        T("}"); return N("MAP_PROJECTION", m, F("%s [%s]", l, LS(ss)));
    }
    if (c == 25)
    {
        char *l = expr(depth - 1, 13); size_t z = txt.n; char lc = txt.p[z - 1];
        if (symc(lc) || lc == '.') { /* digits before a dot would join it */ bs(&txt, " "); }
        T("."); char *p = propname(); return N("PROPERTY_OPERATOR", m, F("%s %s", l, p));
    }
    {
        char *l = rnd(2) ? simple() : bracketed(depth - 1); L ls = { 0 }; do add(&ls, label()); while (rnd(3) == 0);
        return N("LABELS_OPERATOR", m, F("%s [%s]", l, LS(ls)));
    }
}
static int D = 3;
#define E0() expr(rnd(D + 1), 0)
static char *propexpr(void)
{
    unsigned m = ntk; char *e = rnd(3) ? ident() : rnd(2) ? param() : bracketed(1);
    do { T("."); char *p = propname(); e = N("PROPERTY_OPERATOR", m, F("%s %s", e, p)); } while (rnd(4) == 0);
    return e;
}
static char *labels(void) { L ls = { 0 }; do add(&ls, label()); while (rnd(3) == 0); return F("[%s]", LS(ls)); }
static char *setitem(void)
{
    unsigned m = ntk;
    switch (rnd(4))
    {
    case 0: { char *p = propexpr(); T("="); char *e = E0(); return N("SET_PROPERTY", m, F("%s %s", p, e)); }
    case 1: { char *i = ident(); T("="); char *e = E0(); return N("SET_ALL_PROPERTIES", m, F("%s %s", i, e)); }
    case 2: { char *i = ident(); T("+="); char *e = E0(); return N("MERGE_PROPERTIES", m, F("%s %s", i, e)); }
    default: { char *i = ident(); char *l = labels(); return N("SET_LABELS", m, F("%s %s", i, l)); }
    }
}
#define LIST(item) ({ L l_ = { 0 }; do { if (l_.n) T(","); add(&l_, item); } while (rnd(3) == 0); F("[%s]", LS(l_)); })
static char *setitems(void) { return LIST(setitem()); }
static char *sortitem(void)
{
    unsigned m = ntk; char *e = E0(); bool asc = true;
    switch (rnd(5)) { case 0: KW("ASC"); break; case 1: KW("ASCENDING"); break; case 2: KW("DESC"); asc = false; break; case 3: KW("DESCENDING"); asc = false; break; }
    return N("SORT_ITEM", m, F("%s %s", e, asc ? "yes" : "no"));
}
static char *tail(void)                        /* order by, skip, limit */
{
    char *o = "-", *s = "-", *l = "-"; unsigned m = ntk;
    if (rnd(3) == 0) { KWS("ORDER BY"); char *i = LIST(sortitem()); o = N("ORDER_BY", m, i); }
    if (rnd(4) == 0) { KW("SKIP"); s = E0(); }
    if (rnd(4) == 0) { KW("LIMIT"); l = E0(); }
    return F("%s %s %s", o, s, l);
}
/* a projection whose alias, when left out in RETURN, is its text */
static struct { char *slot; size_t s; unsigned tok; } pend[4096]; static unsigned npend;
static char *projection(bool ret)
{
    unsigned m = ntk; char *e = E0(), *a = "-";
    if (rnd(2)) { KW("AS"); a = ident(); }
    else if (ret && strncmp(e, "(IDENTIFIER ", 12) != 0)
    {
        /* filled in once the text that follows is known */
        pend[npend].s = tk[m].s; pend[npend].tok = ntk - 1; a = F("(IDENTIFIER %zu-%zu <alias%u>)", tk[m].s, tk[ntk - 1].e, npend); npend++;
    }
    return N("PROJECTION", m, F("%s %s", e, a));
}
static char *projections(bool ret, bool *star)
{
    L ps = { 0 }; bool any = false; *star = false;
    if (rnd(4) == 0) { T("*"); *star = any = true; }
    while (!any || rnd(3) == 0) { if (any) T(","); add(&ps, projection(ret)); any = true; }
    return F("[%s]", LS(ps));
}
static char *startpoint(void)
{
    unsigned m = ntk; char *i = ident(); T("="); bool node = rnd(2);
    if (node) KW("NODE"); else KW(rnd(2) ? "REL" : "RELATIONSHIP");
    const char *p = node ? "NODE" : "REL";
    switch (rnd(4))
    {
    case 0: { T(":"); char *x = named("INDEX_NAME"); T("("); char *n = propname(); T("="); char *l = rnd(2) ? stringl() : param(); T(")"); return N(F("%s_INDEX_LOOKUP", p), m, F("%s %s %s %s", i, x, n, l)); }
    case 1: { T(":"); char *x = named("INDEX_NAME"); T("("); char *l = rnd(2) ? stringl() : param(); T(")"); return N(F("%s_INDEX_QUERY", p), m, F("%s %s %s", i, x, l)); }
    case 2: { T("("); char *l = LIST(integer()); T(")"); return N(F("%s_ID_LOOKUP", p), m, F("%s %s", i, l)); }
    default: T("("); T("*"); T(")"); return N(F("ALL_%sS_SCAN", p), m, i);
    }
}
static char *hint(void)
{
    unsigned m = ntk;
    switch (rnd(3))
    {
    case 0: { KWS("USING INDEX"); char *i = ident(), *l = label(); T("("); char *p = propname(); T(")"); return N("USING_INDEX", m, F("%s %s %s", i, l, p)); }
    case 1: { KWS("USING JOIN ON"); char *l = LIST(ident()); return N("USING_JOIN", m, l); }
    default: { KWS("USING SCAN"); char *i = ident(), *l = label(); return N("USING_SCAN", m, F("%s %s", i, l)); }
    }
}
static char *clause(int depth)
{
    unsigned m = ntk; bool f, g;
    switch (rnd(14))
    {
    case 0: { f = rnd(3) == 0; if (f) KW("OPTIONAL"); KW("MATCH"); char *p = pattern(1); L hs = { 0 }; while (rnd(3) == 0) add(&hs, hint());
              char *w = "-"; if (rnd(2)) { KW("WHERE"); w = E0(); } return N("MATCH", m, F("%s %s [%s] %s", f ? "yes" : "no", p, LS(hs), w)); }
    case 1: { KW("RETURN"); f = rnd(3) == 0; if (f) KW("DISTINCT"); char *p = projections(true, &g); char *t = tail(); return N("RETURN", m, F("%s %s %s %s", f ? "yes" : "no", g ? "yes" : "no", p, t)); }
    case 2: { KW("UNWIND"); char *e = E0(); KW("AS"); char *i = ident(); return N("UNWIND", m, F("%s %s", e, i)); }
    case 3: { KW("MERGE"); char *p = patpart(1); L as = { 0 };
              while (rnd(2)) { unsigned am = ntk; f = rnd(2); KW("ON"); KW(f ? "MATCH" : "CREATE"); KW("SET"); char *s = setitems(); add(&as, N(f ? "ON_MATCH" : "ON_CREATE", am, s)); }
              return N("MERGE", m, F("%s [%s]", p, LS(as))); }
    case 4: { KW("CREATE"); f = rnd(3) == 0; if (f) KW("UNIQUE"); char *p = pattern(1); return N("CREATE", m, F("%s %s", f ? "yes" : "no", p)); }
    case 5: { KW("SET"); char *s = setitems(); return N("SET", m, s); }
    case 6: { f = rnd(2); if (f) KW("DETACH"); KW("DELETE"); char *l = LIST(E0()); return N("DELETE", m, F("%s %s", f ? "yes" : "no", l)); }
    case 7: { KW("REMOVE"); char *l = LIST(({ unsigned im = ntk; char *r; if (rnd(2)) { char *p = propexpr(); r = N("REMOVE_PROPERTY", im, p); } else { char *i = ident(), *x = labels(); r = N("REMOVE_LABELS", im, F("%s %s", i, x)); } r; })); return N("REMOVE", m, l); }
    case 8: { KW("WITH"); f = rnd(3) == 0; if (f) KW("DISTINCT"); char *p = projections(false, &g); char *t = tail(), *w = "-"; if (rnd(2)) { KW("WHERE"); w = E0(); }
              return N("WITH", m, F("%s %s %s %s %s", f ? "yes" : "no", g ? "yes" : "no", p, t, w)); }
    case 9: if (depth > 0) { KW("FOREACH"); T("("); char *i = ident(); KW("IN"); char *e = E0(); T("|"); L cs = { 0 }; do add(&cs, clause(depth - 1)); while (rnd(2)); T(")");
              return N("FOREACH", m, F("%s %s [%s]", i, e, LS(cs))); } /* fall through */
    case 10: { KW("CALL"); char *p = dotted("PROC_NAME"); L as = { 0 }, rs = { 0 }; char *w = "-";
              if (rnd(2)) { T("("); for (unsigned k = rnd(4); k > 0; k--) { if (as.n) T(","); add(&as, E0()); } T(")"); }
              if (rnd(2)) { KW("YIELD"); unsigned k = rnd(4); if (k == 0) T("-"); for (; k > 0; k--) { if (rs.n) T(","); unsigned pm = ntk; char *i = ident(), *a = "-"; if (rnd(2)) { KW("AS"); a = ident(); } add(&rs, N("PROJECTION", pm, F("%s %s", i, a))); } }
              if (rnd(3) == 0) { KW("WHERE"); w = E0(); }
              return N("CALL", m, F("%s [%s] [%s] %s", p, LS(as), LS(rs), w)); }
    case 11: { KWS("LOAD CSV"); f = rnd(2); if (f) KWS("WITH HEADERS"); KW("FROM"); char *u = E0(); KW("AS"); char *i = ident(), *t = "-"; if (rnd(2)) { KW("FIELDTERMINATOR"); t = stringl(); }
              return N("LOAD_CSV", m, F("%s %s %s %s", f ? "yes" : "no", u, i, t)); }
    case 12: { KW("START"); char *s = LIST(startpoint()), *w = "-"; if (rnd(3) == 0) { KW("WHERE"); w = E0(); } return N("START", m, F("%s %s", s, w)); }
    default: KW("UNION"); f = rnd(2); if (f) KW("ALL"); return N("UNION", m, f ? "yes" : "no");
    }
}
static char *schema(void)
{
    unsigned m = ntk; bool create = rnd(2); KW(create ? "CREATE" : "DROP");
    const char *v = create ? "CREATE" : "DROP";
    if (rnd(2)) { KWS("INDEX ON"); char *l = label(); T("("); char *p = LIST(propname()); T(")"); return N(F("%s_NODE_PROPS_INDEX", v), m, F("%s %s", l, p)); }
    KWS("CONSTRAINT ON"); T("(");
    if (rnd(2)) { char *i = ident(), *l = label(); T(")"); KW("ASSERT"); char *e = expr(rnd(2), 12); bool u = rnd(2); if (u) KWS("IS UNIQUE"); return N(F("%s_NODE_PROP_CONSTRAINT", v), m, F("%s %s %s %s", i, l, e, u ? "yes" : "no")); }
    T(")"); if (rnd(2)) T("<"); T("-"); T("["); char *i = ident(), *t = colon("RELTYPE"); T("]"); T("-"); if (rnd(2)) T(">"); T("("); T(")"); KW("ASSERT"); char *e = E0();
    return N(F("%s_REL_PROP_CONSTRAINT", v), m, F("%s %s %s no", i, t, e));
}
/* literals and names of any content and length, many in a row */
static bool litmode;
static unsigned biglen(void) { unsigned k = rnd(60); return k == 0 ? 1 + rnd(70000) : k < 4 ? 1 + rnd(3000) : k < 20 ? 1 + rnd(200) : 1 + rnd(12); }
static char *bigtoken(const char *type, const char *first, const char *more)
{
    unsigned m = ntk, n = biglen(); B b = { 0 }; size_t lf = strlen(first), lm = strlen(more);
    bput(&b, first + rnd(lf), 1); while (--n) bput(&b, more + rnd(lm), 1);
    if (strcmp(type, "INTEGER") && strcmp(type, "FLOAT")) { bs(&b, "_q"); } 
    T(b.p); char *v = q(b.p, b.n); bfree(&b); return N(type, m, v);
}
static char *bigname(const char *type, const char *prefix)
{
    unsigned m = ntk; B b = { 0 }, w = { 0 }; unsigned n = biglen(); bs(&w, "");
    bs(&b, prefix); bs(&b, "`"); while (n--) { char c = (char)(1 + rnd(255)); if (c != '`') bput(&w, &c, 1); }
    bput(&b, w.p, w.n); bs(&b, "`"); T(b.p); char *v = q(w.p, w.n); bfree(&b); bfree(&w); return N(type, m, v);
}
static char *bigstring(void)
{
    static const char *const ew = "abfnrtv\\'\"?", *const ev = "\a\b\f\n\r\t\v\\'\"?";
    unsigned m = ntk, n = biglen(); char d = rnd(2) ? '\'' : '"'; B w = { 0 }, v = { 0 }; bs(&v, ""); bput(&w, &d, 1);
    bool plain = rnd(3) == 0;
    while (n--)
    {
        if (rnd(plain ? 100 : 4) == 0) { unsigned i = rnd(11); bs(&w, "\\"); bput(&w, ew + i, 1); bput(&v, ev + i, 1); continue; }
        char c = (char)(1 + rnd(255));
        if (c == d) continue;
        if (c == '\\') { char x = "zZ09 ;"[rnd(6)]; bput(&w, &c, 1); bput(&v, &c, 1); c = x; }
        bput(&w, &c, 1); bput(&v, &c, 1);
    }
    bput(&w, &d, 1); T(w.p); char *s = q(v.p, v.n); bfree(&w); bfree(&v); return N("STRING", m, s);
}
static char *lit(void)
{
    unsigned m = ntk; static const char sym[] = "abcXYZ_019$", st[] = "abcdefgXYZ_";
    switch (rnd(10))
    {
    case 0: return bigtoken("INTEGER", "0123456789", "0123456789abdfXx");
    case 1: { B b = { 0 }; unsigned n = biglen(); bs(&b, rnd(2) ? "1." : "."); while (n--) bf(&b, "%u", rnd(10)); T(b.p); char *v = q(b.p, b.n); bfree(&b); return N("FLOAT", m, v); }
    case 2: return bigtoken("IDENTIFIER", st, sym);
    case 3: return bigname("IDENTIFIER", "");
    case 4: { char *e = bigtoken("IDENTIFIER", st, sym); unsigned k = ntk; T("."); (void)k; char *p = rnd(2) ? bigtoken("PROP_NAME", st, sym) : bigname("PROP_NAME", ""); return N("PROPERTY_OPERATOR", m, F("%s %s", e, p)); }
    case 5: { char *e = bigtoken("IDENTIFIER", st, sym); char *l = bigname("LABEL", ":"); return N("LABELS_OPERATOR", m, F("%s [%s]", e, l)); }
    case 6: { char *v; unsigned pm = ntk; T(rnd(2) ? "$" : "{"); bool br = txt.p[txt.n - 1] == '{'; char *i = rnd(2) ? bigtoken("X", st, sym) : bigname("X", ""); v = strchr(i, '"'); v = F("%.*s", (int)(strlen(v) - 1), v); if (br) T("}"); return N("PARAMETER", pm, v); }
    case 7: { char *i = rnd(2) ? bigtoken("FUNCTION_NAME", st, sym) : bigname("FUNCTION_NAME", ""); T("("); T(")"); return N("APPLY_OPERATOR", m, F("%s no []", i)); }
    default: return bigstring();
    }
}
static char *rawstr(const char *s) { unsigned m = ntk; T(s); return N("STRING", m, q(s, strlen(s))); }
static char *statement(void)
{
    unsigned m = ntk; L os = { 0 };
    if (exprmode) { unsigned qm = ntk; T("RETURN"); unsigned pm = ntk; char *e = expr(D, 0); T("AS"); char *i = ident(); char *p = N("PROJECTION", pm, F("%s %s", e, i));
        char *r = N("RETURN", qm, F("no no [%s] - - -", p)); T(";"); char *qq = N("QUERY", qm, F("[] [%s]", r)); return N("STATEMENT", m, F("[] %s", qq)); }
    if (litmode)
    {
        T("RETURN"); L ps = { 0 }; unsigned k = 1 + rnd(6);
        while (k--) { if (ps.n) T(","); unsigned pm = ntk; char *e = lit(); T("AS"); char *i = ident(); add(&ps, N("PROJECTION", pm, F("%s %s", e, i))); }
        char *r = N("RETURN", m, F("no no [%s] - - -", LS(ps)));
        unsigned cm = ntk; T("CALL"); char *p = bigname("PROC_NAME", ""); r = F("%s %s", r, N("CALL", cm, F("%s [] [] -", p)));
        T(";"); return N("STATEMENT", m, F("[] %s", N("QUERY", m, F("[] [%s]", r))));
    }
    while (rnd(4) == 0)
    {
        unsigned om = ntk;
        switch (rnd(3))
        {
        case 0: KW("PROFILE"); add(&os, N("PROFILE_OPTION", om, "")); break;
        case 1: KW("EXPLAIN"); add(&os, N("EXPLAIN_OPTION", om, "")); break;
        default: { KW("CYPHER"); char *v = "-"; if (rnd(2)) v = rawstr(rnd(2) ? "2.3" : "10.02"); L ps = { 0 };
            while (rnd(3) == 0) { unsigned pm = ntk; static const char *const nm[] = { "planner", "a1", "_x", "9" }; static const char *const vl[] = { "cost", "'x'", "z//z", "a;b", "1.5", "=" };
                char *n = rawstr(nm[rnd(4)]); T("="); needws = rnd(2); if (spacing) needws = true; plainws = needws; char *w = rawstr(vl[rnd(6)]); add(&ps, N("CYPHER_OPTION_PARAM", pm, F("%s %s", n, w))); needws = true; }
            bool nw = needws; add(&os, N("CYPHER_OPTION", om, F("%s [%s]", v, LS(ps)))); needws = nw; }
        }
    }
    char *body;
    unsigned bm = ntk;
    if (rnd(6) == 0) { body = schema(); T(";"); }
    else
    {
        L ho = { 0 }, cs = { 0 };
        while (rnd(8) == 0) { unsigned hm = ntk; KWS("USING PERIODIC COMMIT"); char *l = rnd(2) ? integer() : "-"; add(&ho, N("USING_PERIODIC_COMMIT", hm, l)); }
        unsigned k = 1 + rnd(rnd(30) ? 4 : 50); while (k--) add(&cs, clause(2));
        T(";"); body = N("QUERY", bm, F("[%s] [%s]", LS(ho), LS(cs)));
    }
    return N("STATEMENT", m, F("[%s] %s", LS(os), body));
}
static char *command(void)
{
    /* a client command takes one line */
    unsigned m; char *n; L as = { 0 };
    static const char *const w[] = { "play", "help", "a-b", "http://x", "x=1", "MATCH", "(n)", "\xc3\xa9", "a,b", "{x}" };
    gap(true); tk[ntk].s = txt.n; bs(&txt, ":"); tk[ntk].e = txt.n; m = ntk++;
    unsigned k = 1 + rnd(4); n = NULL;
    while (k--)
    {
        if (n) bs(&txt, rnd(3) ? " " : rnd(2) ? "\t " : " \\\n "); else if (rnd(4) == 0) bs(&txt, " ");
        unsigned am = ntk; tk[ntk].s = txt.n; char *v;
        switch (rnd(3))
        {
        case 0: bs(&txt, "\"a b;\\\"'//\""); v = q("a b;\"'//", 8); break;
        case 1: bs(&txt, "x\\;y'q q'\\n"); v = q("x;yq q\n", 7); break;
        default: { const char *s = w[rnd(10)]; if (strstr(s, "//")) s = "xx"; bs(&txt, s); v = q(s, strlen(s)); }
        }
        tk[ntk].e = txt.n; ntk++;
        char *x = N("STRING", am, v); if (n) add(&as, x); else n = x;
    }
    char *c = N("COMMAND", m, F("%s [%s]", n, LS(as)));
    if (rnd(2)) T(";"); else bs(&txt, rnd(2) ? "\n" : " \n");
    return c;
}
static unsigned count(const cypher_astnode_t *n)
{
    unsigned k = cypher_astnode_instanceof(n, CYPHER_AST_COMMENT) ? 0 : 1;
    for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) k += count(cypher_astnode_get_child(n, i));
    return k;
}
static unsigned shared(const char *s) { /* "(RANGE x x)": one node in two roles */ unsigned k = 0; for (const char *p = s; (p = strstr(p, "(RANGE (INTEGER ")); p++) { const char *a = p + 7, *e = strchr(a, ')'); if (e && e[1] == ' ' && !strncmp(a, e + 2, e - a + 1)) k++; } return k; }
int main(int argc, char **argv)
{
    unsigned rounds = argc > 1 ? atoi(argv[1]) : 200; seed(argc > 2 ? strtoull(argv[2], NULL, 0) : 1); exprmode = argc > 3 && !strcmp(argv[3], "expr"); litmode = argc > 3 && !strcmp(argv[3], "lit");
    signal(SIGABRT, on_crash);
    (void)gapend;
    unsigned nodes = 0, stmts = 0; size_t bytes = 0;
    for (unsigned r = 0; r < rounds; r++)
    {
        ntk = 0; npend = 0; txt.n = 0; bs(&txt, ""); needws = plainws = false; npool = 0;
        spacing = rnd(4); D = exprmode ? 1 + rnd(4) : 1 + rnd(3);
        unsigned k = exprmode ? 1 : 1 + rnd(3); char *want[4]; bool cmd[4];
        for (unsigned i = 0; i < k; i++) { cmd[i] = !exprmode && !litmode && rnd(6) == 0; want[i] = cmd[i] ? command() : statement(); }
        if (!exprmode && k == 1 && !cmd[0] && rnd(4) == 0) { /* the end of input ends it as well */ }
        cur = txt.p; curn = txt.n;
        if (getenv("VF_SHOW")) { show(stdout, cur, curn); fflush(stdout); }
        cypher_parse_result_t *res = cypher_uparse(txt.p, txt.n, NULL, NULL, 0);
        if (!res) { perror("cypher_uparse"); return 3; }
        if (cypher_parse_result_nerrors(res) > 0)
        { const cypher_parse_error_t *e = cypher_parse_result_get_error(res, 0); bad("an error is reported for a well-formed input, at offset %zu: %s", cypher_parse_error_position(e).offset, cypher_parse_error_message(e)); }
        CHECK(cypher_parse_result_ndirectives(res) == k, "%u directives, of %u written", cypher_parse_result_ndirectives(res), k);
        for (unsigned i = 0; i < k; i++)
        {
            const cypher_astnode_t *n = cypher_parse_result_get_directive(res, i);
            B got = { 0 }, exp = { 0 }; visited = 0; dump(&got, n);
            /* fill in the aliases taken from the text */
            for (const char *p = want[i]; *p; )
            {
                unsigned a; int used = 0;
                if (!strncmp(p, "<alias", 6) && sscanf(p, "<alias%u>%n", &a, &used) == 1 && used)
                { size_t s = pend[a].s, e = pend[a].tok + 1 < ntk ? tk[pend[a].tok + 1].s : txt.n; while (e > s && strchr(" \t\r\n", txt.p[e - 1])) e--; bs(&exp, q(txt.p + s, e - s)); p += used; }
                else { bput(&exp, p, 1); p++; }
            }
            if (strcmp(got.p, exp.p) != 0)
            {
                size_t d = 0; while (got.p[d] == exp.p[d]) d++;
                size_t f = d > 60 ? d - 60 : 0;
                bad("the tree differs from the one written (%s)\n expected ...%.160s\n got      ...%.160s\n", cmd[i] ? "command" : "statement", exp.p + f, got.p + f);
            }
            unsigned c = count(n), sh = shared(want[i]);
            CHECK(c == visited - sh, "the tree holds %u nodes besides comments, %u are parts of it", c, visited - sh);
            nodes += visited; stmts++; bfree(&got); bfree(&exp);
        }
        bytes += txt.n;
        cypher_parse_result_free(res);
        for (unsigned i = 0; i < npool; i++) free(pool[i]);
    }
    printf("%u directives of %u nodes (%zu bytes) parsed to the trees they denote\n", stmts, nodes, bytes);
    return 0;
}
