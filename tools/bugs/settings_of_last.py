PROPERTY = 'P25'
NEEDS = '''Two or more managers exported together without a reconstruction
config.'''
BREAKS = '''The export gets the settings of the last config file instead of the
first one.'''
EDITS = [('egenerator/export_manager.py',
          '''        reco_config_file = [config_files[0]]
''', '''        reco_config_file = [config_files[-1]]
''')]
DEMO = '''
from demoexport import *
with scratch() as d:
    a, b = trained(d, 'a', [1.]), trained(d, 'b', [2.])
    export([a, b], d + '/out')
    check(open(d + '/out/reco_config.yaml').read() == open(a).read(),
          'the settings are not those of the first config file')
done()
'''
