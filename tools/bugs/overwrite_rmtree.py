PROPERTY = 'P15'
NEEDS = '''Overwriting a saved component in a directory that also holds files
of the user.'''
BREAKS = '''With overwrite=True the whole directory is removed first, including
files the component did not write.'''
EDITS = [('egenerator/manager/component.py',
          '        # check if directory needs to be created\n'
          '        if not os.path.isdir(dir_path):\n',
          '        # start with a clean directory\n'
          '        if overwrite and os.path.exists(config_file_path):\n'
          '            import shutil\n'
          '            shutil.rmtree(dir_path)\n\n'
          '        # check if directory needs to be created\n'
          '        if not os.path.isdir(dir_path):\n')]
DEMO = '''
from demolib import *
with scratch() as d:
    p = os.path.join(d, 'c')
    tiny({'a': 1}, data={'x': 1}).save(p)
    open(os.path.join(p, 'notes.txt'), 'w').close()
    tiny({'a': 2}, data={'x': 2}).save(p, overwrite=True)
    check(os.path.exists(os.path.join(p, 'notes.txt')), 'user file is gone')
'''
