PROPERTY = 'P16'
NEEDS = '''A start of training that was interrupted after its directory was
created, followed by a progress report of the running training.'''
BREAKS = '''The current training step is taken from the newest step directory
instead of the recorded latest step: a leftover of an interrupted start makes
every progress report (and save) fail.'''
EDITS = [('egenerator/model/base.py',
          "        current_step = meta_data['latest_step']\n",
          "        current_step = max([int(d.split('_')[1])\n"
          "                            for d in os.listdir(training_dir)\n"
          "                            if d.startswith('step_')])\n")]
DEMO = '''
import ruamel.yaml as yaml
from demolib import *
with scratch() as d:
    m = model()
    t = {'config': {'a': 1}, 'components': {'loss': tiny({'l': 1})}}
    m.save_training_settings(d, t)
    with crash_after('open', 2):
        m.save_training_settings(d, t)
    m = model()
    try:
        m.save_weights(d, num_training_steps=7)
    except Exception as e:
        check(False, 'save fails: %r' % e)
    with open(os.path.join(d, 'training/training_steps.yaml')) as f:
        steps = yaml.YAML(typ='safe').load(f)
    check(steps['training_steps'][1]['num_training_steps'] == 7, str(steps))
'''
