"""What the driver needs to know about each check without importing it."""

PIPE = {
    'level': 'exploration',
    'rule': 'one run = one workload (settings, files, consumer script), one '
            'schedule and one fault list, all drawn from VERIF_SEED and the '
            'run number; non-trivial: at least one batch delivered (or, for '
            'P02/P04/P07, at least four task switches and the faults the '
            'property is about)',
    'distinct': 'checksums of the complete event trace (step, task, '
                'operation on which shared object) of the run',
    'real': ['egenerator/data/handler/base.py, unmodified (loader, '
             'aggregator, batch iterator, kill)',
             'egenerator component and tensor classes',
             'pickling of every queue item', 'glob, numpy'],
    'stub': ['multiprocessing Process/Manager/Queue/Lock/Value (simulated, '
             'fork semantics by copying the closure)',
             'time.sleep/time.time/monotonic',
             'content of the input files (records served by '
             '_get_data_from_hdf of a synthetic handler)'],
    'assumptions': [
        'processes interact only through multiprocessing objects, files and '
        'clocks; code between two such operations is atomic for others',
        'queue, lock and manager semantics as documented by Python',
        'sampled schedules: a clean result is evidence, not proof'],
    'technique': 'deterministic simulation: seeded schedules and faults over '
                 'the real multi-process pipeline in one process, history '
                 'oracle',
    'note': 'Seeded search over schedules, settings and faults of the '
            'unmodified pipeline code on simulated multiprocessing and time; '
            'every failure is an exactly replayable, minimised trace. Trusts '
            'the simulated queue/lock/process semantics; samples, does not '
            'enumerate.',
    'runs': {'quick': 16000, 'thorough': 400000},
}


def _m(base, **kw):
    d = dict(base)
    d.update(kw)
    return d


META = {}
for _i in range(1, 10):
    META['P%02d' % _i] = _m(PIPE)


META['P10'] = _m(
    PIPE,
    real=PIPE['real'] + ['tf.data.Dataset.from_generator and its iterators'],
    stub=PIPE['stub'] + ['tf.data prefetch (a simulated task with the same '
                         'bounded buffer)'],
    assumptions=PIPE['assumptions'] + [
        'TensorFlow calls the python generator only while the thread asking '
        'for the element waits'],
    runs={'quick': 3200, 'thorough': 120000})

META['P12'] = _m(
    PIPE,
    real=PIPE['real'] + ['DataTransformer.configure and its statistics'],
    rule=PIPE['rule'].replace('P02/P04/P07', 'P02/P04/P07/P12'),
    runs={'quick': 8000, 'thorough': 240000})
META['P22'] = _m(
    PIPE,
    real=PIPE['real'] + ['ModuleDataHandler and its pulse, label, seed and '
                         'filter modules, unmodified', 'pandas, numpy'],
    stub=PIPE['stub'][:2] + [
        'pandas.HDFStore/read_hdf (tables of generated events, an injected '
        'error at the k-th operation)', 'icecube.dataclasses, getclass'],
    rule=PIPE['rule'] + '; the layout of the tables and the configuration '
         'of the modules are drawn as well',
    runs={'quick': 5600, 'thorough': 200000})
META['P11'] = {
    'level': 'exploration',
    'rule': 'one run = one configuration of the modules, one set of files '
            '(events, layout of the rows, missing and truncated tables) and '
            'one sequence of loads from files and frames through one '
            'handler, each with at most one fault at a numbered operation '
            '(open, read of a table, access to a frame), all drawn from '
            'VERIF_SEED and the run number; non-trivial: at least one load '
            'returned events',
    'distinct': 'checksums of the complete trace of the run: every call '
                'with its file operations, fault, outcome and events',
    'real': ['ModuleDataHandler and its pulse, label, seed, filter and dummy '
             'modules, unmodified', 'component classes', 'pandas, numpy'],
    'stub': ['pandas.HDFStore/read_hdf and frames (tables and objects of '
             'generated events, an injected error or interrupt at the k-th '
             'operation)', 'icecube.dataclasses, getclass'],
    'assumptions': [
        'a read operation either returns the table or raises; a table that '
        'is silently wrong is only considered if its length is',
        'loading is sequential code: there is no scheduling to vary',
        'sampled inputs and faults: a clean result is evidence, not proof'],
    'technique': 'deterministic simulation: seeded sequences of loads with '
                 'faults injected at every operation on a simulated file or '
                 'frame, event-wise reference model as oracle',
    'note': 'Seeded search over configurations, table layouts and read '
            'faults of the unmodified loading modules on simulated HDF '
            'files and frames; every failure is an exactly replayable, '
            'minimised trace. HDF5 itself is a stub. Samples, does not '
            'enumerate.',
    'runs': {'quick': 16000, 'thorough': 400000},
}

STORE = {
    'level': 'exploration',
    'rule': 'one run = one history of operations (saves, loads, restarts, '
            'clock jumps, neighbours) on a scratch directory with one list '
            'of faults (crash before/within/after a numbered file operation, '
            'EIO/ENOSPC, full disk), all drawn from VERIF_SEED and the run '
            'number; non-trivial: at least one operation completed and, for '
            'the crash properties, at least one fault fired',
    'distinct': 'checksums of the complete trace of the run: every operation '
                'with its outcome, every file operation (kind, path, size) '
                'and every fault',
    'real': ['egenerator component, model and manager classes, unmodified',
             'TensorFlow variables and checkpoint reading',
             'ruamel.yaml, pickle, a real scratch directory'],
    'stub': ['open/os.* as seen by the code under test (numbered, buffered '
             'writes with loss of unflushed data at a crash, injected '
             'errors)',
             'tf.train.Checkpoint.write (the real bytes, written file by '
             'file through the simulated disk)',
             'time.time and datetime.now',
             'tiny models and components of known content'],
    'assumptions': [
        'data written before a completed rename of the same file survives '
        'the crash of the process; a crash of the machine is not simulated',
        'completed file operations are not reordered',
        'sampled histories: a clean result is evidence, not proof'],
    'technique': 'deterministic simulation: seeded histories with crash and '
                 'I/O fault injection at every file operation of the real '
                 'storage code, reference model oracle',
    'note': 'Seeded search over histories, crash points and failing file '
            'operations of the unmodified storage code on a fault-injecting '
            'file layer; every failure is an exactly replayable, minimised '
            'trace. Trusts the model of what survives a crash; samples, does '
            'not enumerate.',
    'runs': {'quick': 2000, 'thorough': 80000},
}
for _i in range(13, 19):
    META['P%02d' % _i] = _m(STORE)
META['P18'] = _m(STORE, runs={'quick': 4000, 'thorough': 160000})
META['P19'] = _m(
    STORE,
    rule='one run = one history of training runs (in process or by the '
         'training script), restarts and clock jumps of a manager with one '
         'or more models, with one list of faults (crash or error at a '
         'numbered file operation; crash, error, end, NaN or infinity at a '
         'numbered batch of the input), all drawn from VERIF_SEED and the '
         'run number; non-trivial: at least one training run completed and, '
         'if faults were planned, at least one fired',
    stub=STORE['stub'][:3] + [
        'small linear sources and losses of exactly known gradients, a '
        'handler handing out recorded batches, eager execution in most '
        'runs (graph execution in the others), no event files'],
    real=['BaseModelManager.train, train_model.main, build_components',
          'Model, MultiSource, component classes, unmodified',
          'TensorFlow gradients, Keras SGD and learning rate schedules',
          'ruamel.yaml, a real scratch directory'],
    runs={'quick': 560, 'thorough': 24000})
META['P20'] = _m(STORE, runs={'quick': 800, 'thorough': 32000})
META['P21'] = _m(
    STORE,
    rule='one run = one history of adding modules to one or two trays and '
         'of reconstruction calls, with clock jumps between and during the '
         'calls and one list of faults (error, interrupt or malformed '
         'result of a module at a chosen call; error at the creation of a '
         'module; error, interrupt, NaN or infinity at a numbered '
         'evaluation of the loss), all drawn from VERIF_SEED and the run '
         'number; non-trivial: at least one call completed',
    distinct='checksums of the complete trace of the run: every module '
             'added, every module entered with the results it was given, '
             'every fault and outcome',
    real=['ReconstructionTray, FunctionCache, Reconstruction, '
          'SelectBestReconstruction, get_reco_result_batch, unmodified',
          'SourceManager.get_parameter_loss_function, '
          'get_loss_and_gradients_function, reconstruct_events',
          'DataTransformer, scipy.optimize.minimize, TensorFlow gradients'],
    stub=['timeit.default_timer (the simulated clock)',
          'quadratic sources whose minimum and loss are known, evaluated '
          'eagerly with the conversion of arguments of a traced function',
          'scripted modules which check what they are given and fail on '
          'demand; a handler of constant batches'],
    assumptions=[
        'modules run one after another in the thread of the caller, as in '
        'the code; there is no scheduling to vary within a call',
        'sampled histories: a clean result is evidence, not proof'],
    technique='deterministic simulation: seeded histories of calls with a '
              'simulated clock and faults injected into modules and loss '
              'evaluations, checks within scripted modules and exactly '
              'solvable fits as oracle',
    note='Seeded search over histories of reconstruction calls and failures '
         'of the unmodified tray and modules; every failure is an exactly '
         'replayable, minimised trace. Samples, does not enumerate.',
    runs={'quick': 2000, 'thorough': 80000})

META['P23'] = _m(
    STORE,
    rule='one run = one deployment of saved models (directories written by '
         'the real code, one or two modules, single models and ensembles) '
         'and one history of frames given to the modules, with one list of '
         'faults (error, interrupt or corrupt object at a numbered access '
         'to a frame; error, NaN, infinity or clock jump at a numbered '
         'evaluation of the loss), all drawn from VERIF_SEED and the run '
         'number; non-trivial: at least one frame reconstructed',
    distinct='checksums of the complete trace of the run: every frame and '
             'module with its outcome, number of loss evaluations, result '
             'and fault',
    real=['EventGeneratorReconstruction, ManagerConfigurator, '
          'build_components, load_component, unmodified',
          'SourceManager, ReconstructionTray, Reconstruction, '
          'SelectBestReconstruction, CovarianceMatrix',
          'ModuleDataHandler with its data, label and misc modules, '
          'DataTransformer',
          'TensorFlow graphs and gradients, scipy.optimize.minimize, '
          'ruamel.yaml, checkpoints in a scratch directory'],
    stub=['icetray and dataclasses (frames are dictionaries that refuse to '
          'overwrite keys)',
          'sources with a quadratic loss whose minimum is known for every '
          'event, model and parameter',
          'time.time, timeit and datetime.now; the setters of the numbers '
          'of TensorFlow threads'],
    assumptions=[
        'a module runs in one thread and sees one frame at a time, as in '
        'icetray; two modules share a process',
        'sampled histories: a clean result is evidence, not proof'],
    technique='deterministic simulation: seeded deployments and histories '
              'of frames with a simulated clock and faults injected into '
              'frame accesses and loss evaluations, exactly solvable fits '
              'as oracle',
    note='Seeded search over deployments, histories of frames and failures '
         'of the unmodified icetray module; every failure is an exactly '
         'replayable, minimised trace. Samples, does not enumerate.',
    runs={'quick': 200, 'thorough': 12000})

META['P24'] = _m(
    PIPE,
    rule='one run = one set of trained and saved managers, one set of test '
         'files, one or two runs of the reconstruction script with drawn '
         'settings, one schedule of loaders, aggregator and script and one '
         'list of faults (unreadable, vanishing, incomplete or slow files, '
         'stalls; error, NaN or infinity at a numbered evaluation of the '
         'loss), all drawn from VERIF_SEED and the run number; non-trivial: '
         'at least one table of results was written',
    real=['reconstruct_test_data.main, SourceManager.reconstruct_testdata, '
          'unmodified',
          'egenerator.data.handler.base and modular, data, label, misc and '
          'filter modules, DataTransformer',
          'ReconstructionTray and its modules, build_components, '
          'load_component',
          'TensorFlow graphs and gradients, scipy.optimize.minimize, '
          'ruamel.yaml, checkpoints and the table of results in a scratch '
          'directory'],
    stub=['multiprocessing, queues and time (simulated kernel)',
          'reading of hdf files (tables behind pandas.HDFStore)',
          'sources with a quadratic loss whose minimum is known for every '
          'event, model and parameter',
          'the setters of the numbers of TensorFlow threads'],
    runs={'quick': 200, 'thorough': 14000})

PURE = ('A pure function of its input: no schedule, clock, I/O, fault or '
        'interleaving can change it, so it is not a simulation target.')
NOT_APPLICABLE = {p: PURE for p in ('P30', 'P31', 'P32', 'P33', 'P34')}
for _p in range(10, 26):
    if 'P%d' % _p not in META:
        NOT_APPLICABLE['P%d' % _p] = 'Check under construction.'
META['P25'] = _m(
    STORE,
    rule='one run = one history of trainings of 1-3 managers, exports of '
         'any of them, answers of the user, combinations of exports, '
         'creations of transformations, restarts and clock jumps, with at '
         'most one fault (crash or error at a numbered file operation, of '
         'all, of writing ones or of those on the settings) per operation, '
         'all drawn from VERIF_SEED and the run number; non-trivial: an '
         'export or transformation was completed or refused',
    real=['export_manager.main, create_trafo_model.main, '
          'ManagerConfigurator, build_components, unmodified',
          'BaseModelManager, BaseComponent, Model, MultiSource, '
          'DataTransformer, load_component, SetupManager',
          'TensorFlow checkpoints with real bytes, ruamel.yaml',
          'the scratch directory of the file system, shutil'],
    stub=['data handler and sources with two weights each',
          'the question to the user (click.confirm), list of installed '
          'packages, progress bar, number of threads'],
    runs={'quick': 1200, 'thorough': 30000})
