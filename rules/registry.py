import importlib
from .props import ALL, NA

# obligations of other groups a property rests on directly
ALSO = {
    'C07': [('mesh:all_tables', ('neighbors', 'facet_normals')), ('mesh:all_location', ('find_facet', 'is_inside'))],
    'C10': [('recorded:recorded', ('create_trajectory', 'Trajectory_C.__init__'))],
    'C12': [('recorded:recorded', ('History_C',))],
    'C13': [('fields:regions', ('CellSet_C',)), ('recorded:recorded', ('create_trajectory',))],
    'C14': [('fields:fields', ('delta_function', 'add_weight', 'divide_by'))],
}
PROPS = {}
for _p in ALL:
    if 'group' in _p:
        _m, _f = _p['group'].split(':')

        def _load(m=_m, f=_f, also=tuple(ALSO.get(_p['id'], ()))):
            obs = list(getattr(importlib.import_module('rules.' + m), f)())
            for grp, parts in also:
                m2, f2 = grp.split(':')
                obs += [o for o in getattr(importlib.import_module('rules.' + m2), f2)() if any(x in o.name for x in parts)]
            return obs
        PROPS[_p['id']] = dict(title=_p['title'], obligations=_load)
