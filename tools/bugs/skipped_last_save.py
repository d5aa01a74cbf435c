PROPERTY = 'P19'
NEEDS = 'A run whose last iteration index is a multiple of save_frequency, followed by enough unprotected saves of later runs to remove that checkpoint.'
BREAKS = 'The final, protected checkpoint is left out if the last iteration was just saved: the end of the training is lost once retention removes the periodic one.'
EDITS = [('egenerator/manager/base.py', '        # save model\n        self.save_weights(dir_path=save_dir,', "        # save model\n        if num_training_iterations > 1 and \\\n                (num_training_iterations - 1) % opt_config[\n                    'save_frequency'] == 0:\n            return\n        self.save_weights(dir_path=save_dir,")]
DEMO = '''
from demolib import *
with scratch() as d:
    m = fleet(d + '/m', [1.])
    train(m, 3, save_frequency=2)
    for k in range(4):
        m.models[0].untracked_data['w'].assign([9., 9.])
        m.save_weights(d + '/m')
    found = []
    for k in range(1, 9):
        try:
            m.load_weights(d + '/m', checkpoint_number=k)
        except KeyError:
            continue
        found.append(weights(m))
    check([[-3., -3.]] in found, 'weights at the end are lost: %r' % found)
'''
