PROPERTY = 'P14'
NEEDS = '''A process that dies after the files of a new checkpoint were written
and before the meta data was updated.'''
BREAKS = '''The default load looks for the newest index file on disk instead of
the recorded latest checkpoint and picks the unrecorded leftovers, which the
meta data does not know: loading fails until the next save.'''
EDITS = [('egenerator/model/base.py',
          "            checkpoint_number = meta_data['latest_checkpoint']\n",
          "            checkpoint_number = max(\n"
          "                [int(os.path.splitext(f)[0].split('_')[-1])\n"
          "                 for f in os.listdir(dir_path)\n"
          "                 if f.startswith('model_checkpoint_')\n"
          "                 and f.endswith('.index')])\n")]
DEMO = '''
from demolib import *
with scratch() as d:
    m = model()
    put(m, 1)
    m.save_weights(d)
    put(m, 2)
    # dies before the last of the two updates of the meta data
    with crash_after('replace', 2):
        m.save_weights(d)
    n = model()
    try:
        n.load_weights(d)
    except Exception as e:
        check(False, 'load fails: %r' % e)
    check(got(n) in (1, 2), 'loaded %r' % got(n))
'''
