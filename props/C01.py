from vf import units_lib
def spec(sc, tier):
    return units_lib.spec('C01', tier)
