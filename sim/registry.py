"""Which module implements which property (imported lazily)."""
import importlib

WHERE = {}
for _i in range(1, 11):
    WHERE['P%02d' % _i] = 'pipe_props'
for _i in range(13, 17):
    WHERE['P%02d' % _i] = 'store_props'
WHERE['P17'] = WHERE['P18'] = 'comp_props'
WHERE['P19'] = WHERE['P20'] = 'train_props'
WHERE['P12'] = 'pipe_props'
WHERE['P11'] = 'mod_props'
WHERE['P22'] = 'modpipe_props'
WHERE['P21'] = 'reco_props'
WHERE['P23'] = 'frame_props'
WHERE['P24'] = 'testdata_props'
WHERE['P25'] = 'export_props'
_cache = {}


def get(prop_id):
    if prop_id not in _cache:
        mod = importlib.import_module('sim.' + WHERE[prop_id])
        for p in mod.PROPS:
            _cache[p.id] = p
    return _cache[prop_id]
