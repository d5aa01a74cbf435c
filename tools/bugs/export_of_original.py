PROPERTY = 'P25'
NEEDS = '''An export of a manager that is trained on (or removed) afterwards.'''
BREAKS = '''Exports with the settings of the manager itself are loaded from the
place the manager was trained in, so that later trainings show up.'''
EDITS = [('egenerator/utils/configurator.py',
          '''            config_i['model_manager_settings']['config']['manager_dir'] = \\
                manager_dir
''', '''            config_i['model_manager_settings']['config'].setdefault(
                'manager_dir', manager_dir)
''')]
DEMO = '''
from demoexport import *
with scratch() as d:
    a = trained(d, 'a', [1.])
    export([a], d + '/out')
    check(deployed(d + '/out') == [[1., 1.]], 'weights')
    trained(d, 'a', [5.])
    got = deployed(d + '/out')
    check(got == [[1., 1.]], 'weights of the export are now %r' % got)
done()
'''
