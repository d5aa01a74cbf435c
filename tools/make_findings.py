"""Writes known_findings.json; commit hashes are looked up by subject."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []
FIXED = [
    ('P01', 'end markers instead of racing flags',
     'P01/P02: events of the last files were lost, or the consumer hung or '
     'raised, when the end-of-input flags of the workers were read between '
     'two of their updates (P02, P08, P09 likewise); files listed but not '
     'found blocked the end'),
    ('P03', 'use the number of selected events',
     'after a biased selection the number of events before the selection was '
     'used: index errors in the aggregating process, lost events and hangs'),
    ('P03', 'cast the last, incomplete batch',
     'the last batch of a finite pass had the data types of the file instead '
     'of the declared ones'),
    ('P04', 'an unreadable input file does not stop',
     'an exception while reading one file killed its loader process: events '
     'of other files were lost and the generator hung'),
    ('P07', 'do not wait forever for batches of dead worker',
     'next() waited forever after a worker was killed or kill() was called'),
    ('P02', 'wrong use of a logging argument',
     'verbose=True printed a logging error per batch group from the '
     'aggregating process (arguments of debug() did not match its format)'),
    ('P14', 'an interrupted save of model weights',
     'a crash between deleting old checkpoint files and writing the meta '
     'data left listed but missing checkpoints, a crash after writing the '
     'files blocked every later save, a torn meta data file lost all'),
    ('P15', 'only remove the files of the removed checkpoint',
     'removal of old checkpoints globbed basename*: it deleted other files '
     'with that prefix and, in directories with wildcard characters, files '
     'of other directories or none'),
    ('P16', 'an interrupted save of training settings',
     'a crash while a training was registered blocked every later training '
     'start; a torn training_steps.yaml lost the history'),
    ('P17', 'loading a component of a different version',
     'a version mismatch raised AttributeError (self.logger) instead of '
     'logging a warning'),
    ('P17', 'loading a component does not modify the passed',
     'load() emptied the dictionary of modified sub components of the '
     'caller, so that a second load silently used the saved ones; sub '
     'components of a failed load were kept'),
    ('P17', 'sub components with a dot in the name',
     'sub components v1.2 and v1.3 were both saved to directory v1'),
    ('P18', 'an interrupted save does not leave a mixture',
     'an interrupted overwrite loaded with the new settings and the old '
     'data, or with sub components of another save'),
    ('P20', 'ensembles of models are saved and restored in step',
     'after a crash between the saves of two members the default load '
     'restored members of different saves, older common checkpoints were '
     'already removed and later numbers differed between members; base '
     'sources of a multi-source model got no training records and the '
     'first save with num_training_steps failed'),
    ('P19', 'removing nan gradients raised an error',
     'remove_nan_gradients: AttributeError (tf.is_nan), and gradients were '
     'paired with the wrong variables if one has no gradient'),
    ('P19', 'record the number of training steps',
     'the recorded number of training steps was one less than performed, '
     'and a training with 0 iterations raised UnboundLocalError at its end'),
    ('P19', 'evaluation modules are evaluated on validation',
     'the evaluation module got batches of the training dataset'),
    ('P19', 'training with a dot in the name',
     'with a dot in the last part of manager_dir weights were saved to '
     'another directory than the manager and restarts began from scratch'),
    ('P21', 'select the best reconstruction',
     'SelectBestReconstruction handed on the last reconstruction, whatever '
     'the losses'),
    ('P10', 'datasets with additional arguments',
     'get_tf_dataset(..., *args) raised TypeError (multiple values for '
     'input_data) at the first element'),
    ('P22', 'boolean data tensors with recent',
     'a declared data type bool (the DOM exclusions of the pulse module) '
     'raised AttributeError (numpy has no attribute bool) in the pipeline'),
    ('P11', 'filter events of tensors that do not exist',
     'any filter that removes events raised TypeError if a tensor of the '
     'handler does not exist'),
    ('P11', 'filter events if none of the remaining',
     'filtering raised IndexError if none of the remaining events has any '
     'pulses'),
    ('P11', 'load more than one seed and leading missing',
     'the second seed raised or got the values of the first, and a missing '
     'value before the first column in the file raised'),
    ('P11', 'check the length of the table in a filter',
     'a table with fewer rows than events was accepted by the filter, a '
     'table of one row was applied to all events'),
    ('P11', 'apply filter constraints on columns of frame',
     'constraints on vectors, maps and objects of a frame raised'),
    ('P11', 'load events without any table of time',
     'an absent table of time exclusions raised instead of counting as no '
     'exclusions'),
    ('P11', 'shape of the pulses in a frame without',
     'a frame without pulses gave arrays of the wrong shape'),
    ('P11', 'remove skipped pulses and time windows of DOMs',
     'pulses and time windows of DOMs above 60 were skipped while filling, '
     'but left in the result as rows of uninitialised memory'),
    ('P11', 'creation of the muon label module',
     'DummyMuonFixedCascadesLabelModule could not be created (wrong name in '
     'the call of super)'),
    ('P11', 'pass additional arguments on to the modules',
     'additional arguments for the reading were dropped or raised'),
    ('P11', 'configuration of the muon label module',
     'configuring the muon label module raised NameError'),
    ('P23', 'covariances if the minimization is not in',
     'with minimize_in_trafo_space=False the covariance module raised '
     'UnboundLocalError (cov) for every event'),
    ('P24', 'reconstruction of test data into the current',
     'an output file without a directory raised FileNotFoundError'),
    ('P24', 'use of managers with a dot in the name',
     'managers with a dot in the last part of the name were not found by '
     'the reconstruction of test data and of frames, and their export '
     'failed half way and overwrote an existing one without asking'),
    ('P23', 'bounds in fits of some of the parameters',
     'bounds of the minimizer with a fit of some of the parameters raised '
     'an error for every event (bounds of all parameters were inserted)'),
    ('P25', 'export the settings in one step',
     'an interrupted copy of the settings was loaded as a complete one'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                         stdout=subprocess.PIPE, text=True).stdout
    log = [x.split(' ', 1) for x in log.splitlines()]
    fixed = []
    for prop, subject, what in FIXED:
        hits = [h for h, s in log if s.startswith('fix: ' + subject)]
        assert len(hits) == 1, subject
        fixed.append('fixed: property=%s %s %s' % (prop, hits[0], what))
    assert len(fixed) == sum(s.startswith('fix:') for _, s in log), \
        'not all fixes are listed'
    with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
        json.dump({'known': KNOWN, 'fixed': fixed}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
