from vf import astgen, astnative, units_ast
from vf.core import Native, SEED
def spec(sc, tier):
    return dict(units=astgen.units('make') + units_ast.tree(['init']), natives=[
        Native('ast-make', astnative.program(), ['make', 60 if tier == 'quick' else 600, SEED], note='generated nodes of every type, depth <= 3, <= 6 elements per sequence')])
