PROPERTY = 'P20'
NEEDS = 'A training run of a manager with more than one model.'
BREAKS = 'Only the first model of an ensemble gets the record of the training run.'
EDITS = [('egenerator/manager/base.py', '                sub_component.save_training_settings(\n                    dir_path=sub_dir_path,\n                    new_training_settings=new_training_settings)\n', "                sub_component.save_training_settings(\n                    dir_path=sub_dir_path,\n                    new_training_settings=new_training_settings)\n                new_training_settings['components'] = {}\n")]
DEMO = '''
import glob
from demolib import *
with scratch() as d:
    m = fleet(d + '/m', [1., 2.])
    loss = TinyLoss()
    loss.configure(config={})
    m.save(d + '/m')
    m.save_training_settings(d + '/m', {
        'config': {'a': 1}, 'components': {'loss_module': loss}})
    for k in range(2):
        x = TinyLoss()
        p = sorted(glob.glob(d + '/m/models_%04d/training/step_*' % k))[0]
        p += '/loss_module'
        try:
            x.load(p)
        except Exception as e:
            check(False, 'the loss is not recorded for model %d: %r' % (k, e))
'''
