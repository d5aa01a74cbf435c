PROPERTY = 'P24'
NEEDS = '''An existing table of results and a reconstruction that fails.'''
BREAKS = '''An existing table is removed at the start: if the reconstruction
fails, the results of the earlier one are lost.'''
EDITS = [('egenerator/manager/source.py',
          '''        test_dataset = self.data_handler.get_batch_generator(
            **config['data_iterator_settings']['test'])
''', '''        # results of previous reconstructions are not valid anymore
        if os.path.exists(reco_config['reco_output_file']):
            os.remove(reco_config['reco_output_file'])

        test_dataset = self.data_handler.get_batch_generator(
            **config['data_iterator_settings']['test'])
'''), ('egenerator/manager/source.py',
       '''        df_reco.to_hdf(reco_config['reco_output_file'],
                       key='Variables', mode='w', format='t',
''', '''        df_reco.to_hdf(reco_config['reco_output_file'],
                       key='Variables', mode='a', format='t',
''')]
DEMO = '''
from demodeploy import *
limit(200)
event = ([1., 2., 3., 4.], [0.] * 4, [5.] * 4)
with scratch() as d:
    path = d + '/out.hdf'
    reconstruct(source_manager(), [event], path)
    FAIL[0] = True
    try:
        reconstruct(source_manager(), [event], path)
    except Exception as e:
        print('raised', type(e))
    else:
        check(False, 'no error')
    check(os.path.exists(path), 'the earlier table is gone')
done()
'''
