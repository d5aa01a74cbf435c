PROPERTY = 'P21'
NEEDS = '''A call in which a later module fails, followed by another call on the
same tray.'''
BREAKS = '''The results of the modules that finished before the failure are kept:
the modules of the next call see them.'''
EDITS = [('egenerator/manager/reconstruction/tray.py',
          '''        self.modules = []
        self.module_names = []
''', '''        self.modules = []
        self.module_names = []
        self._results = {}
'''), ('egenerator/manager/reconstruction/tray.py',
       '''        results = {}
''', '''        results = self._results
'''), ('egenerator/manager/reconstruction/tray.py',
       '''        return results


class FunctionCache:
''', '''        # done with this batch
        self._results = {}
        return results


class FunctionCache:
''')]
DEMO = '''
from demotray import *
t = ReconstructionTray(None, None)
add(t, 'a', value=1)
add(t, 'b', value=2)
add(t, 'c', value=3, fails=[0])
try:
    t.execute(())
    check(False, 'no error')
except RuntimeError:
    pass
SEEN.clear()
t.execute(())
check(SEEN == [[], ['a'], ['a', 'b']], 'the modules see %r' % SEEN)
'''
