PROPERTY = 'P17'
NEEDS = '''Loading with a nested dictionary of modified sub components (a sub
component of a sub component).'''
BREAKS = '''The configuration of the outer component keeps describing the old
nested sub component.'''
EDITS = [('egenerator/manager/component.py',
          '            if name in updated_sub_components:\n'
          '                self.configuration.replace_sub_components(\n'
          '                    {name: sub_component})\n',
          '')]
DEMO = '''
from demolib import *
with scratch() as d:
    p = os.path.join(d, 'c')
    inner = tiny({'i': 1}, mut=1)
    mid = tiny({'m': 1}, children={'inner': inner})
    tiny({'o': 1}, children={'mid': mid}).save(p)
    c = Tiny()
    c.load(p, modified_sub_components={
        'mid': {'inner': tiny({'i': 1}, mut=2)}})
    conf = c.configuration.sub_component_configurations['mid']
    mut = conf['sub_component_configurations']['inner']['mutable_settings']
    check(mut == {'mut': 2}, 'configuration of inner: %r' % mut)
'''
