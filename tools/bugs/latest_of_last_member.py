PROPERTY = 'P20'
NEEDS = 'Loading an explicitly given, older checkpoint of a manager with several models.'
BREAKS = 'The members after the first one are loaded from their latest checkpoint: the ensemble is a mixture.'
EDITS = [('egenerator/manager/base.py', '                sub_component.load_weights(dir_path=sub_dir_path,\n                                           checkpoint_number=checkpoint_number)\n', '                sub_component.load_weights(dir_path=sub_dir_path,\n                                           checkpoint_number=checkpoint_number)\n                checkpoint_number = None\n')]
DEMO = '''
from demolib import *
with scratch() as d:
    m = fleet(d + '/m', [1., 2.])
    for k in range(3):
        for x in m.models:
            x.untracked_data['w'].assign([k, k])
        m.save_weights(d + '/m')
    m.load_weights(d + '/m', checkpoint_number=2)
    check(weights(m) == [[1., 1.], [1., 1.]], 'weights %r' % weights(m))
'''
