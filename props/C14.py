from vf.units_types import spec
