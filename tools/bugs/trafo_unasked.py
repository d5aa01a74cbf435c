PROPERTY = 'P25'
NEEDS = '''An existing transformation in a directory whose configured name has a
dot in its last part.'''
BREAKS = '''The name is not stripped before it is looked for: an existing
transformation is replaced without asking.'''
EDITS = [('egenerator/create_trafo_model.py',
          '''    if os.path.exists(os.path.splitext(model_dir)[0]):
        if not click.confirm(
                'File already exists at destination. Overwrite {!r}?'.format(
                    os.path.splitext(model_dir)[0]),
''', '''    if os.path.exists(model_dir):
        if not click.confirm(
                'File already exists at destination. Overwrite {!r}?'.format(
                    model_dir),
''')]
DEMO = '''
from demoexport import *
with scratch() as d:
    trafo(d, d + '/trafo.v1')
    try:
        trafo(d, d + '/trafo.v1', answer=False)
    except ValueError:
        pass
    else:
        check(False, 'replaced without asking')
    check(len(ASKED) == 1, 'asked %d times' % len(ASKED))
done()
'''
