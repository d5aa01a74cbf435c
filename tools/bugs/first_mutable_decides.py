PROPERTY = 'P17'
NEEDS = '''A component with two differing sub components of which the first one
is declared mutable, used as a replacement.'''
BREAKS = '''The compatibility check returns at the first differing sub component;
if that is a mutable one, differences of all others are accepted.'''
EDITS = [('egenerator/manager/component.py',
          '                if name not in self.mutable_sub_components:\n'
          '                    return False\n',
          '                return name in self.mutable_sub_components\n')]
DEMO = '''
from demolib import *
def mid(x):
    return tiny({'m': 1}, loose=['a'], children={
        'a': tiny({'x': x}), 'b': tiny({'x': x})})
with scratch() as d:
    p = os.path.join(d, 'c')
    tiny({'o': 1}, children={'mid': mid(1)}).save(p)
    c = Tiny()
    try:
        c.load(p, modified_sub_components={'mid': mid(2)})
    except ValueError:
        pass
    else:
        check(False, 'an incompatible sub component was accepted')
'''
