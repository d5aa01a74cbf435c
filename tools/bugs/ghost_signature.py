PROPERTY = 'P10'
NEEDS = 'A data handler with a tensor that does not exist.'
BREAKS = '''The published signature promises the declared shape for tensors that
do not exist, but the elements of the dataset only hold placeholders.'''
EDITS = [('egenerator/data/handler/base.py',
          '''            if tensor.exists:
                shape = tf.TensorShape(tensor.shape)
            else:
                shape = tf.TensorShape(None)
            spec.append(''', '''            shape = tf.TensorShape(tensor.shape)
            spec.append(''')]
DEMO = '''
from demolib import *
limit(100)

class Ghost(Handler):

    def _configure_derived_class(self, config, config_data=None):
        conf, data, sub = super()._configure_derived_class(config)
        data['tensors'] = DataTensorList(data['tensors'].list + [
            DataTensor(name='zz', shape=[None, 4], tensor_type='weight',
                       dtype='float32', exists=False)])
        return conf, data, sub

    def _get_data_from_hdf(self, file, *args, **kwargs):
        n, data = super()._get_data_from_hdf(file)
        return n, data + (None,)

with scratch() as d:
    h = Ghost()
    h.configure(config={})
    ds = h.get_tf_dataset(files(d, (1, 3)), batch_size=2,
                          pick_random_files_forever=False)
    spec = h.get_data_set_signature()
    for b in ds:
        for x, s in zip(b, spec):
            check(s.is_compatible_with(x), '%r is not %r' % (x, s))
    check(tuple(ds.element_spec) == tuple(spec), 'element_spec')
    h.kill()
done()
'''
