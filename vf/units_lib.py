"""Proof units for the library functions outside the AST node types."""
import os
from . import dumpgen, astgen
from .core import VERIF, SEED, Unit, Native, stub_body, chain
from . import units_parser as UP
from . import units_build as UB
from . import units_ast as UA
from . import units_lint as UL


def H(name):
    return open(os.path.join(VERIF, 'harness', name)).read()


def c10():
    return [
        Unit('error-note', H('errors_note.c'), dfcc=True, malloc_fail=False, functions=['cp_et_note_potential_error'],
             loops={('errors.c', 'cp_et_note_potential_error'): {0: '''
                __CPROVER_assigns(i, matched)
                __CPROVER_loop_invariant(i <= et->nlabels && !matched && (!(K >= i && K < et->nlabels && et->nlabels == old_n) || eqK != 0))'''}}),
        Unit('error-reify', H('errors_reify.c'), malloc_fail=False, functions=['cp_et_reify_potentials', 'chardesc'],
             edits={'errors.c': stub_body('error_report', 'return vf_report(et);')}),
    ]


# ------------------------------------------------------------------ natives
ROUNDS = dict(source=3000, positions=12000, segments=8000, errors=10000, context=8000, result=6000, ordinals=6000, retain=3000)
MODE = dict(C01='source', C02='positions', C03='segments', C10='errors', C11='context', C12='result', C13='ordinals', C20='retain')


def parse_native(mode, tier):
    n = ROUNDS[mode] * (1 if tier == 'quick' else 20)
    return Native('parse-' + mode, 'parse.c', [mode, n, SEED], timeout=250 if tier == 'quick' else 3000,
                  note='%d inputs of up to 60 statements or fragments of statements with arbitrary glue, up to 10 kB' % n)


STMT = dict(C15=('expr', 40000), C16=('lit', 1200), C19=('stmt', 6000))


def stmt_native(pid, tier):
    mode, n = STMT[pid]
    n *= 1 if tier == 'quick' else 20
    return Native('stmt-' + mode, dumpgen.dumper() + open(os.path.join(VERIF, 'native/stmt.c')).read(), [n, SEED, mode],
                  timeout=300 if tier == 'quick' else 3000,
                  note=dict(expr='%d operator expressions of nesting up to 4', lit='%d inputs of up to 18 literals and names of up to 70000 bytes',
                            stmt='%d inputs of up to 3 statements of up to 50 clauses, expressions nested up to 3')[mode] % n)


OTHER = dict(C04=lambda q: Native('quick', 'quick.c', [20000 * q, SEED], timeout=250 * q, note='%d generated inputs against a reference scanner' % (20000 * q)),
             C08=lambda q: Native('printing', 'printing.c', [1500 * q, SEED], timeout=250 * q, note='%d printed forests against a reference printer, and a write failure at every point' % (1500 * q)),
             C09=lambda q: Native('annot', 'annot.c', [20000 * q, SEED], timeout=250 * q, note='%d random histories against a reference map' % (20000 * q)))
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup'))]


def oom_native(q):
    text = dumpgen.dumper() + open(os.path.join(VERIF, 'native/stmt.c')).read().replace('int main(int argc', 'static int stmt_main(int argc') \
        + open(os.path.join(VERIF, 'native/oom.c')).read()
    return Native('oom', text, [400 * q, SEED], timeout=350 * q, extra=WRAP,
                  note='every (of long operations: 150 of the) allocations of parsing, quick parsing, cloning, printing and annotating %d inputs fails in turn' % (400 * q))


OTHER['C17'] = oom_native
OTHER['C18'] = lambda q: Native('lint', 'lint.c', [900 * q, SEED], timeout=300 * q, note='%d runs of the tool with generated options and inputs' % (900 * q))
UNITS = dict(C18=UL.c18, C01=UP.c01, C02=UP.c02, C03=UP.c03, C04=UP.c04, C08=UA.c08, C09=lambda: UA.c09() + UA.tree(['free', 'node-free']), C10=lambda: c10() + UP.c10(), C11=UP.c11, C12=UP.c12, C13=UP.c13, C15=UP.c15, C16=UP.c16, C17=lambda: astgen.units('oom') + UA.tree(['vclone', 'clone', 'free', 'vfree', 'node-free', 'init']), C19=UB.c19, C20=lambda: UP.c20() + UA.tree(['free', 'vfree', 'node-free']))


def spec(pid, tier):
    natives = [parse_native(MODE[pid], tier)] if pid in MODE else []
    if pid in STMT:
        natives.append(stmt_native(pid, tier))
    if pid in OTHER:
        natives.append(OTHER[pid](1 if tier == 'quick' else 10))
    return dict(units=UNITS[pid]() if pid in UNITS else [], natives=natives)
