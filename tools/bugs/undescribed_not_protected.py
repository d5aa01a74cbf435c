PROPERTY = 'P20'
NEEDS = 'A multi-source model: a protected save without a description, then more unprotected saves than max_keep.'
BREAKS = 'The base sources only protect checkpoints which have a description: others get removed.'
EDITS = [('egenerator/model/multi_source/base.py', '                    protected=protected, description=description,', '                    protected=protected and description is not None,\n                    description=description,')]
DEMO = '''
from demolib import *
from egenerator.model.multi_source.independent import IndependentMultiSource


class Multi(IndependentMultiSource):
    def get_tensors(self, *args, **kwargs):
        return {}


with scratch() as d:
    f = fleet(d + '/f', [1.])
    s = f.models[0]
    m = Multi()
    m.configure(config={'sources': {'s': 'b'}}, base_sources={'b': s},
                data_trafo=s.data_trafo)
    w = s.untracked_data['w']
    for k in range(4):
        w.assign([k, k])
        m.save_weights(d + '/m', protected=k == 0, max_keep=1)
    try:
        m.load_weights(d + '/m', checkpoint_number=1)
    except Exception as e:
        check(False, 'the protected checkpoint is lost: %r' % e)
    check(w.numpy().tolist() == [0., 0.], 'restored %r' % w)
'''
