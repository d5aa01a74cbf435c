PROPERTY = 'P19'
NEEDS = 'A validation loss that is NaN while the loss of the training batch is finite.'
BREAKS = 'The training goes on and saves checkpoints although the validation loss is invalid.'
EDITS = [('egenerator/manager/base.py', 'if np.isnan(loss_training) or np.isnan(loss_validation):', 'if np.isnan(loss_training) and np.isnan(loss_validation):')]
DEMO = '''
from demolib import *
with scratch() as d:
    m = fleet(d + '/m', [1.])
    BATCHES['validation'] = [[[1., 1.]], [[float('nan'), 1.]]]
    try:
        train(m, 4)
    except ValueError:
        pass
    else:
        check(False, 'an invalid validation loss does not stop the training')
'''
