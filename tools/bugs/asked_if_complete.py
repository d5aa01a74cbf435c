PROPERTY = 'P25'
NEEDS = '''A directory left by an interrupted export (or anything else that is
not a complete export) at the place of the new one.'''
BREAKS = '''The user is only asked, and the directory only replaced, if there is
a complete export: repeating an interrupted export fails.'''
EDITS = [('egenerator/export_manager.py',
          '''    if os.path.exists(output_dir):
''', '''    # (the config is the last file that is written)
    if os.path.exists(os.path.join(output_dir, 'reco_config.yaml')):
''')]
DEMO = '''
from demoexport import *
with scratch() as d:
    a = trained(d, 'a', [1.])
    export([a], d + '/out')
    check(not ASKED, 'asked')
    # interrupted right before the settings were written
    os.remove(d + '/out/reco_config.yaml')
    try:
        export([a], d + '/out', answer=True)
    except Exception as e:
        check(False, 'the export cannot be repeated: %r' % e)
    check(len(ASKED) == 1, 'asked %d times' % len(ASKED))
    check(deployed(d + '/out') == [[1., 1.]], 'weights')
done()
'''
