PROPERTY = 'P18'
NEEDS = '''A process that dies while it saves an unchanged component over
itself.'''
BREAKS = '''Overwriting first removes the existing files: when it is interrupted
the component, which had not changed at all, cannot be loaded any more.'''
EDITS = [('egenerator/manager/component.py',
          "                    msg = 'Overwriting existing file at: {}'\n"
          "                    self._logger.info(msg.format(file))\n",
          "                    msg = 'Overwriting existing file at: {}'\n"
          "                    self._logger.info(msg.format(file))\n"
          "                    os.remove(file)\n")]
DEMO = '''
from demolib import *
with scratch() as d:
    p = os.path.join(d, 'c')
    c = tiny({'a': 1}, data={'x': 1}, children={'k': tiny({'b': 1})})
    c.save(p)
    with crash_after('open', 1):
        c.save(p, overwrite=True)
    x = Tiny()
    try:
        x.load(p)
    except Exception as e:
        check(False, 'load fails: %r' % e)
'''
