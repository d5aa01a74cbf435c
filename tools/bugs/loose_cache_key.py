PROPERTY = 'P21'
NEEDS = '''Two reconstructions in one tray which fit the same number of
parameters, but different ones.'''
BREAKS = '''The cache of functions only compares how many parameters are fitted:
the second reconstruction minimises the loss of the first one.'''
EDITS = [('egenerator/manager/reconstruction/tray.py',
          '''            # get the function if it already exists
            for function_entry in self.functions[function_name]:
                if settings == function_entry[0]:
                    return function_entry[1]
''', '''            # get the function if it already exists
            for function_entry in self.functions[function_name]:
                if self._key(settings) == self._key(function_entry[0]):
                    return function_entry[1]
'''), ('egenerator/manager/reconstruction/tray.py',
       '''    def get(self, function_name, settings):
''', '''    def _key(self, settings):
        """The settings which change the function, in comparable form.
        """
        key = dict(settings)
        if 'fit_paramater_list' in key:
            key['fit_paramater_list'] = sum(key['fit_paramater_list'])
        return key

    def get(self, function_name, settings):
''')]
DEMO = '''
from demotray import *
c = FunctionCache()
def f():
    pass
s = dict(loss_module=1, fit_paramater_list=[True, False, True], seed=None)
c.add(f, s)
check(c.get('f', dict(s)) is f, 'not found')
check(c.get('f', dict(s, fit_paramater_list=[True, True, False])) is None,
      'the function of other settings is shared')
'''
