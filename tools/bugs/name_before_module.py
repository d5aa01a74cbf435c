PROPERTY = 'P21'
NEEDS = '''A module whose creation fails, after which the user carries on adding
modules to the same tray.'''
BREAKS = '''The name is registered before the module exists: the results of the
following modules are returned under the wrong names.'''
EDITS = [('egenerator/manager/reconstruction/tray.py',
          '''            raise ValueError('Name {} already exists!'.format(name))

''', '''            raise ValueError('Name {} already exists!'.format(name))
        self.module_names.append(name)

'''), ('egenerator/manager/reconstruction/tray.py',
       '''        self.modules.append(module)
        self.module_names.append(name)
''', '''        self.modules.append(module)
''')]
DEMO = '''
from demotray import *
t = ReconstructionTray(None, None)
add(t, 'a', value=1)
try:
    add(t, 'b', value=2, broken=True)
    check(False, 'no error')
except ValueError:
    pass
add(t, 'c', value=3)
r = t.execute(())
check({k: v['value'] for k, v in r.items()} == {'a': 1, 'c': 3},
      'results %r' % r)
'''
