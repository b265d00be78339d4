from vf import astgen, astnative, units_detail
from vf.core import Native, SEED
def spec(sc, tier):
    return dict(units=units_detail.units(), natives=[
        Native('ast-detail', astnative.program(), ['detail', 60 if tier == 'quick' else 600, SEED], note='generated nodes of every type, depth <= 3, <= 6 elements per sequence')])
