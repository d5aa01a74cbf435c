PROPERTY = 'P25'
NEEDS = '''A manager with several models that is exported.'''
BREAKS = '''Of a manager that is an ensemble only the first model is exported.'''
EDITS = [('egenerator/export_manager.py',
          '''        model_manger,  _, data_handler, data_transformer = build_manager(
''', '''        model_manger, loaded, data_handler, data_transformer = build_manager(
'''), ('egenerator/export_manager.py',
       '''        models.extend(model_manger.models)
''', '''        models += loaded[:1]
''')]
DEMO = '''
from demoexport import *
with scratch() as d:
    a, b = trained(d, 'a', [1., 2.]), trained(d, 'b', [3.])
    export([a, b], d + '/out')
    got = deployed(d + '/out')
    check(got == [[1., 1.], [2., 2.], [3., 3.]], 'the export holds %r' % got)
done()
'''
