"""Writes /verif/properties.jsonl (kept in code so that it stays readable)."""
import json, os

H = 'egenerator/data/handler/base.py'
MOD = 'egenerator/data/handler/modular.py'
PUL = 'egenerator/data/modules/data/pulse_data.py'
COMP = 'egenerator/manager/component.py'
MB = 'egenerator/model/base.py'
MAN = 'egenerator/manager/base.py'
TRAFO = 'egenerator/data/trafo.py'
TRAY = 'egenerator/manager/reconstruction/tray.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': list(files),
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe),
            'hook_needed': hook,
        }})


GB = 'BaseDataHandler.get_batch_generator'

prop('P01', 'A finite pass delivers every event exactly num_repetitions times',
     'When a batch generator is created with pick_random_files_forever=False '
     'and all listed files are readable, the batches it yields before it '
     'ends contain every event of every listed file that passes the '
     'optional biased selection exactly num_repetitions times, and contain '
     'nothing else. This holds for every number of loader jobs, batch size, '
     'queue capacity, number of additional files, number of repetitions and '
     'shuffling mode, and for every relative speed of the workers and the '
     'consumer.',
     ['schedules', 'configurations', 'inputs'],
     'every interleaving of the loader processes, the aggregating process '
     'and the consumer; every batch_size, num_jobs, capacities, '
     'num_add_files, num_repetitions, file sizes and pattern lists',
     'The handler tests need an uninstallable package and sample one '
     'schedule of real processes with a couple of files; a lost or repeated '
     'last batch depends on which process wins a race at the end of the '
     'file list.',
     [H], [('file_loader', H), ('data_queue_iterator', H),
           ('batch_iterator', H)],
     [('file_list_queue', 'files still to be loaded', H),
      ('data_batch_queue', 'loaded files waiting for aggregation', H),
      ('final_batch_queue', 'finished batches waiting for the consumer', H)],
     ['batches yielded by get_batch_generator'])

prop('P02', 'A finite pass always ends and never hangs',
     'A batch generator created with pick_random_files_forever=False ends '
     'after finitely many batches: every next() on it returns a batch or '
     'signals the end within a bounded number of scheduling steps, also '
     'when the file list is empty, when files are missing, unreadable or '
     'fully filtered out, when there are more loader jobs than files and '
     'when fewer files are left than num_add_files asks for. After the end '
     'no worker process of that generator stays alive.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every interleaving and every placement of missing, unreadable or '
     'empty files in the list',
     'A test cannot run all interleavings, and a hang only shows under the '
     'schedule in which the last item overtakes the bookkeeping about it.',
     [H], [('shared end-of-input bookkeeping', H)],
     [('num_files_processed / processed_all_files / data_left_in_queue',
       'end-of-input bookkeeping shared by the processes', H)],
     ['StopIteration of the generator', 'worker processes alive'])

prop('P03', 'Every batch is complete, aligned and of the declared form',
     'Every yielded batch has one entry per tensor of the handler in tensor '
     'order, holds exactly batch_size events (only the last batch of a '
     'finite pass may hold fewer, at least one), and has the declared data '
     'type and shape for every existing tensor, including that last batch. '
     'Row i of all per-event tensors and all vector entries whose index '
     'tensor says i belong to the same single event, each vector entry of '
     'that event is present exactly once and in its original order, and the '
     'non-batch columns of the index tensor are unchanged.',
     ['schedules', 'inputs', 'configurations'],
     'every mix of events (including events without any vector entries) '
     'that any schedule packs into one batch, across file boundaries',
     'The tests that exist check a few hand-made batches of one file; '
     'mis-assigned pulses only appear when a batch spans files or contains '
     'events without pulses.',
     [H], [('fill_event_list', H), ('batch_to_event_structure', H),
           ('index relabelling in data_queue_iterator', H)],
     [], ['batches yielded by get_batch_generator'])

prop('P04', 'An unreadable file costs only its own events',
     'In a finite pass a file that is missing, vanishes before it is '
     'opened, fails to open, fails while it is being read, lacks required '
     'tables or has no event left after filtering contributes no event, and '
     'every event of all other listed files is still delivered exactly '
     'num_repetitions times in well-formed batches before the generator '
     'ends. In endless mode such files are skipped and batches of the other '
     'files keep coming.',
     ['fault_sequences', 'schedules'],
     'every set of faulty files, every kind of read fault and every moment '
     'at which it strikes, under every interleaving',
     'No test injects a read error into a loader process; the effect of one '
     'depends on what the other processes are doing at that moment.',
     [H, MOD, PUL], [('file_loader', H), ('skip on (None, None)', H),
                     ('try/except around table access', PUL)],
     [], ['batches yielded by get_batch_generator'])

prop('P05', 'A slow consumer bounds the look-ahead',
     'While the consumer does not take batches, at most batch_capacity '
     'finished batches and at most file_capacity loaded files wait in the '
     'queues at any time, and the workers stop loading further files: at '
     'most file_capacity + num_jobs files are loaded but not yet taken over '
     'for batching, and at most 1 + num_add_files files (or as many as the '
     'repetition rule requires) are being batched at once. Loading resumes '
     'and completes when the consumer continues.',
     ['schedules', 'configurations'],
     'every pause pattern of the consumer, every capacity setting, every '
     'interleaving',
     'Tests never stop consuming; memory growth needs a stalled consumer '
     'and many files.',
     [H], [('maxsize of data_batch_queue', H),
           ('maxsize of final_batch_queue', H)],
     [], ['queue sizes', 'number of files opened'])

prop('P06', 'Without shuffling the event order is the file order',
     'With sample_randomly=False and one loader job a finite pass delivers '
     'the events in the order of the given file list and, within each file, '
     'in file order; with num_repetitions > 1 each group of files that is '
     'batched together is repeated as a whole in the same order. With more '
     'loader jobs only the order of whole files may change: the events of '
     'one file stay contiguous and ordered in each repetition.',
     ['schedules', 'configurations', 'inputs'],
     'every interleaving, number of jobs, and file list',
     'Order violations need a schedule in which a later file overtakes an '
     'earlier one.',
     [H], [('file_list_queue FIFO', H), ('shuffled_indices', H)],
     [], ['batches yielded by get_batch_generator'])

prop('P07', 'kill() and dead workers never leave anything waiting',
     'kill() returns within bounded time in every state of the pipeline, '
     'after it no worker process of the handler is alive, and the handler '
     'can create new generators that deliver a full pass. If a worker '
     'process dies unexpectedly, or after kill(), next() on an affected '
     'generator raises an error or ends after a bounded time instead of '
     'waiting forever, and never invents or repeats events. If a worker '
     'cannot be started, creating the generator raises and leaves no worker '
     'behind.',
     ['schedules', 'crash_points'],
     'every point at which the pipeline is killed or at which a loader or '
     'the aggregating process is terminated by the operating system',
     'Tests cannot kill a process at every point of its execution.',
     [H], [('kill', H), ('mp_processes registry', H),
           ('batch_iterator', H)],
     [('mp_processes', 'processes started by the handler', H)],
     ['Process.is_alive', 'next() on the generator'])

prop('P08', 'Endless mode keeps delivering whole listed files',
     'With pick_random_files_forever=True every requested batch is '
     'delivered within bounded time as long as one listed file is readable, '
     'every event delivered belongs to a listed file, and between two '
     'loads of the same file by the workers each event of that file is used '
     'exactly num_repetitions times (up to events still in flight). Every '
     'readable listed file is eventually used.',
     ['schedules', 'configurations'],
     'every interleaving, every number of jobs and additional files and '
     'every prefix length of the endless stream',
     'Tests take a handful of batches from one schedule.',
     [H], [('file_loader random choice', H), ('data_queue_iterator', H)],
     [], ['batches yielded by get_batch_generator'])

prop('P09', 'Generators do not influence each other',
     'Any number of batch generators that are alive at the same time, from '
     'one data handler or several, each deliver exactly the events of '
     'their own file list under their own settings. Advancing, pausing or '
     'exhausting one generator never adds events to, removes events from '
     'or blocks another one.',
     ['schedules', 'configurations', 'histories'],
     'every interleaving of next() calls on the generators and of their '
     'workers (training and validation run side by side)',
     'No test runs two generators at once.',
     [H], [('per-call queues and locks in get_batch_generator', H)],
     [], ['batches yielded by each generator'])

prop('P10', 'The TensorFlow dataset is a faithful view of the generator',
     'get_tf_dataset yields the same events under the same delivery '
     'guarantees as the batch generator with the given settings: every '
     'setting is passed through unchanged, every element has the declared '
     'types and shapes, with a placeholder for tensors that do not '
     'exist, and matches the published dataset signature. Iterating a '
     'finite dataset again starts a new complete pass.',
     ['schedules', 'configurations', 'inputs'],
     'every interleaving of workers and every setting of the iterator',
     'No test builds the dataset on multi-process input.',
     [H], [('get_tf_dataset', H), ('get_data_set_signature', H)],
     [], ['elements of the tf.data.Dataset'])

prop('P11', 'Loading a file is all or nothing',
     'Loading one file or frame through the modular data handler (pulses, '
     'exclusions, labels, seeds, filters) either returns exactly the '
     'content of the file for the events that pass the filter, with every pulse, time '
     'exclusion, DOM exclusion, label and seed assigned to its own event, '
     'or reports the file as skipped or raises, whichever read operation '
     'fails. It never returns partial or mixed content, it closes every '
     'file handle it opened, and an optional exclusion table that is absent '
     'counts as no exclusions.',
     ['fault_sequences', 'inputs'],
     'every read fault at every read operation (open, table lookup, missing '
     'table) and every layout of events, pulses and exclusions over file',
     'The module tests read one well-formed file and inject no fault.',
     [MOD, PUL, 'egenerator/data/modules/labels/cascades.py',
      'egenerator/data/modules/misc/seed_loader.py',
      'egenerator/data/modules/filters/general_filter.py'],
     [('_get_data', MOD), ('_filter_data', MOD),
      ('get_data_from_hdf', PUL)],
     [], ['return value of get_data_from_hdf', 'open handles'])

prop('P12', 'The data transformation is the statistics of what was delivered',
     'The mean and standard deviation stored by a data transformation '
     'equal, within floating point accuracy, the statistics (with '
     'logarithm where declared, combined over the declared axes, and 1 '
     'where the spread is zero) of exactly the events in the first '
     'num_batches batches delivered to it, for every schedule, worker count '
     'and split into batches. If the input ends or fails before num_batches '
     'batches, configuring raises and the object stays unconfigured and can '
     'be configured again.',
     ['schedules', 'fault_sequences', 'inputs'],
     'every order and partition in which the workers deliver the events and '
     'every point at which the input ends',
     'Tests use one tiny in-order data set.',
     [TRAFO, H], [('_update_online_variance_vars', TRAFO),
                  ('_configure', TRAFO)],
     [], ['data of the DataTransformer'])

prop('P13', 'Checkpoint retention is exact over every history of saves',
     'After any sequence of saves (max_keep >= 1) the checkpoints that can be '
     'loaded are exactly all protected ones plus the unprotected ones that the rule '
     '"after saving an unprotected checkpoint only the max_keep newest '
     'unprotected checkpoints are kept" leaves, and the checkpoint files on '
     'disk are exactly those of the loadable checkpoints. Loading checkpoint'
     ' k restores exactly the weights and step counter that were saved as k,'
     ' loading without a number restores the newest, numbers increase by '
     'one per save across restarts, and none of this depends on the clock.',
     ['histories', 'configurations'],
     'every sequence of save and load operations with mixed max_keep and '
     'protection, restarts in between and arbitrary clock jumps',
     'Tests save a few checkpoints in one process with one setting.',
     [MB], [('save_weights', MB), ('load_weights', MB)],
     [('model_checkpoint.yaml', 'checkpoint meta data', MB)],
     ['load_weights results', 'directory listing'])

prop('P14', 'A crash or I/O error while saving weights loses no checkpoint',
     'If the process dies or a file operation fails at any point of saving '
     'weights, then after a restart every checkpoint that was loadable '
     'before and is not due for removal by that save is still loadable '
     'with its exact weights, and the default load restores either the '
     'previous newest or the new checkpoint, never anything else. The next '
     'save after the crash or error succeeds without manual repair and '
     'follows the normal rules.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every file operation of every save in every history as crash point '
     '(with unflushed data lost or torn) or as failing operation',
     'No test interrupts a save.',
     [MB], [('save_weights', MB), ('update_num_training_steps', MB)],
     [('model_checkpoint.yaml', 'checkpoint meta data', MB)],
     ['load_weights results after restart'])

prop('P15', 'Saving touches nothing but its own checkpoints',
     'Saving weights, training settings or components into a directory '
     'never creates, modifies or deletes a file outside that directory nor '
     'touches a file in it that the same model did not write, whatever '
     'characters the directory name contains and whichever other models, '
     'exported copies or user files lie next to it. (Component directories '
     'are named without a file extension, which saving strips by design.)',
     ['histories', 'configurations'],
     'every interleaved history of saves of several models into '
     'neighbouring directories with unusual names and foreign files',
     'Tests use one directory with a plain name.',
     [MB, COMP], [('removal of old checkpoints', MB), ('save', COMP)],
     [], ['directory tree outside the checkpoint files'])

prop('P16', 'The training history stays complete and attributable',
     'Every started training adds exactly one step record, numbered '
     'consecutively across restarts, with the training configuration and '
     'the components it was started with, and reported iteration numbers '
     'change the record of the most recent training only. If the process '
     'dies or a file operation fails while history is written, all earlier '
     'records and their settings stay readable and unchanged, and the next '
     'training start succeeds.',
     ['histories', 'crash_points', 'fault_sequences'],
     'every history of training starts and progress reports with a crash '
     'or an I/O error at any file operation',
     'No test starts a second training or interrupts one.',
     [MB], [('save_training_settings', MB),
            ('update_num_training_steps', MB)],
     [('training_steps.yaml', 'training history', MB)],
     ['training directory of the model'])

prop('P17', 'A saved component loads back as the same component',
     'For every tree of components, loading a saved directory gives a '
     'configured component with equal settings, data and sub components, '
     'whatever was saved there before with overwrite=True, and saving with '
     'overwrite=False over an existing save raises and changes nothing. '
     'Loading with modified sub components uses a modified one only if it '
     'is compatible or declared mutable, rejects unknown ones, leaves the '
     'caller\'s arguments unchanged, and gives the same result every time '
     'it is repeated; a failed load leaves a component that reports itself '
     'as not configured, and a version mismatch is only a warning.',
     ['histories', 'inputs', 'configurations'],
     'every component tree and every history of save, overwrite, load and '
     'load with modified sub components, across package versions',
     'The component tests need an uninstallable package and check single '
     'saves and loads of one or two fixed components.',
     [COMP, 'egenerator/utils/configurator.py'],
     [('save', COMP), ('load', COMP), ('Configuration.is_compatible', COMP)],
     [], ['state of the loaded component'])

prop('P18', 'An interrupted save never loads as a mixture',
     'If the process dies or a file operation fails at any point while a '
     'component is saved, a later load of that directory either raises or '
     'gives a tree of components whose configurations are all those of one '
     'and the same save (the interrupted or an earlier one), and every '
     'component in it has data that was saved together with its '
     'configuration, never truncated data or data of a save with another '
     'configuration. Interrupting a save that changes nothing never makes '
     'the directory unloadable, and saving again with overwrite=True after '
     'the interruption makes the directory load as the new component.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every file operation of every save and overwrite as crash point '
     '(with unflushed data lost or torn) or as failing operation',
     'No test interrupts a save.',
     [COMP], [('save', COMP), ('load', COMP)],
     [('configuration.yaml, data.pickle',
       'the two files of a saved component', COMP)],
     ['state of the loaded component after restart'])

prop('P19', 'Training can be stopped at any point and resumed',
     'A training run of N >= 0 iterations performs exactly N optimiser steps, '
     'each of all models on one new training batch, advances every model\'s '
     'step counter by N, saves weights at the start and the end (protected) '
     'and whenever the iteration index is a non-zero multiple of '
     'save_frequency, and each checkpoint holds the weights of the moment it '
     'was taken. The recorded settings and the recorded number of iterations '
     'are those of the run. Validation losses and evaluation modules get '
     'validation batches, at the configured frequencies. If the process '
     'dies at any file operation or iteration, loading the manager, in '
     'particular by starting the training script again, restores the '
     'weights of the last completed save in all models, and a new training '
     'run from there completes. An invalid loss or an error of the input '
     'aborts the run without adding a checkpoint; with remove_nan_gradients '
     'NaN gradients count as zero.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every file operation and iteration as crash point, over several '
     'consecutive runs, with a NaN loss at any validation',
     'No test trains a model at all.',
     [MAN, MB], [('train', MAN), ('save_weights', MB)],
     [], ['checkpoints and step counters after restart'])

prop('P20', 'Members of an ensemble stay in step',
     'All models of a manager, including the base sources of multi-source '
     'models, receive the same checkpoint numbers, protection flags, '
     'retention rule and training records, and loading a checkpoint number '
     'of the manager restores that number in every model. Loading without a '
     'number, or loading the manager, restores the newest checkpoint that '
     'all models have, so that the loaded ensemble is always exactly one '
     'that was saved together, wherever an earlier save was interrupted. '
     'An interrupted save neither removes the checkpoints that were '
     'complete nor prevents or renumbers later ones; old checkpoints are '
     'only removed once the new one is complete in all models.',
     ['histories', 'crash_points'],
     'every history of saves, loads and restarts of managers with one or '
     'more models, with a crash between the saves of two members',
     'Tests use single models.',
     [MAN, 'egenerator/model/multi_source/base.py'],
     [('BaseModelManager.save_weights', MAN),
      ('BaseModelManager.load_weights', MAN)],
     [], ['weights of all members after loading'])

prop('P21', 'One reconstruction call never sees another one\'s results',
     'A reconstruction tray runs its modules in the order they were added, '
     'gives each module the data batch and the results of exactly the '
     'earlier modules of the same call, and returns one result per module '
     'with its own run time. A fit finds the minimum of the loss for the '
     'given batch starting from the seed tensor, or from the result of the '
     'named earlier module of this call, keeps the parameters that are not '
     'fitted at the seed and reports the loss at seed and result; a '
     'selection hands on the result with the lowest loss, or the last one '
     'if no loss is usable. If a module fails, or the clock jumps, at any '
     'point, the error reaches the caller, the batch and the results of '
     'earlier calls are unchanged and the next call works on fresh results '
     'only. A module that could not be created leaves its name free, names '
     'are unique, and shared functions are created once per distinct '
     'settings.',
     ['histories', 'fault_sequences'],
     'every sequence of calls with failures of any module at any call and '
     'arbitrary clock readings',
     'There is no test of the tray.',
     [TRAY, 'egenerator/manager/reconstruction/modules/reconstruction.py'],
     [('ReconstructionTray.execute', TRAY), ('FunctionCache', TRAY),
      ('SelectBestReconstruction.execute',
       'egenerator/manager/reconstruction/modules/reconstruction.py')],
     [], ['results handed to and returned by modules'])

prop('P22', 'Batches hold the events of the files with their own data',
     'With the modular data handler every event of every readable listed '
     'file that passes the filter module arrives in the batches of a finite '
     'pass exactly num_repetitions times, each time with exactly its own '
     'pulses, charges, exclusions, labels and seeds as stored in the file, '
     'in the declared data types, whichever other events share the file or '
     'the batch. A file that cannot be read, or lacks a table or rows that '
     'are needed, contributes no event at all, and no file stays open after '
     'the pass.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'every configuration of the modules, layout of the tables, set of '
     'unreadable or incomplete files, iterator setting and interleaving of '
     'loaders, aggregator and consumer',
     'The tests of the modules read one well-formed file in one process; '
     'mixing events up needs particular row layouts and several files in '
     'one batch, and a bad table must not reach the batches of others.',
     [H, MOD, PUL, 'egenerator/data/modules/misc/seed_loader.py',
      'egenerator/data/modules/filters/general_filter.py',
      'egenerator/data/modules/labels/cascades.py'],
     [('get_batch_generator', H), ('_get_data', MOD),
      ('get_data_from_hdf', PUL)],
     [], ['batches yielded by get_batch_generator of a ModuleDataHandler'])

prop('P23', 'Frames get the reconstruction of their own event',
     'A module that applies saved models to the frames of an icetray job '
     'restores exactly the saved models, and writes to each frame the best '
     'fit of that frame\'s own event: the parameters that minimise the '
     'summed loss of all models of the ensemble (within the bounds, if '
     'any), found from the best of the given seeds, with parameters that are not fitted left at the '
     'seed, and the losses at the result and at the seed, covariances and '
     'particle that belong to it. What a frame gets does not depend on '
     'the frames before it, on other modules, on failures in between or '
     'on the clock. A frame for which reading or evaluating fails gets '
     'nothing and is not passed on, and existing content is never changed.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every set of saved models, seeds, fitted parameters and settings, '
     'history of frames with and without missing content, and failure '
     'while a frame is read or its loss evaluated',
     'There is no test of the module; state kept in graphs and caches '
     'between frames shows up only in histories of several frames.',
     ['egenerator/ic3/reconstruction.py',
      'egenerator/utils/configurator.py', TRAY,
      'egenerator/manager/source.py'],
     [('Physics', 'egenerator/ic3/reconstruction.py'),
      ('ManagerConfigurator', 'egenerator/utils/configurator.py'),
      ('reconstruct_events', 'egenerator/manager/source.py'),
      ('CovarianceMatrix.execute',
       'egenerator/manager/reconstruction/modules/covariance.py')],
     [], ['objects in the frames that are passed on'])

prop('P24', 'The table of results holds every test event with its own fit',
     'Reconstructing test data with saved models writes one row for every '
     'event of every readable listed file that passes the filter (times '
     'num_repetitions), and none for other events. Each row holds that '
     'event\'s true parameters, the seed that led to the best fit, the '
     'parameters minimising the summed loss of all models for that event '
     '(parameters that are not fitted left at the seed), the losses at '
     'truth, seed and result, and the uncertainties, whatever the order '
     'of delivery, the number of files, jobs and models and the settings '
     'of earlier runs. If the loss fails, the error is reported and an '
     'earlier table is left untouched.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'every set of saved models, test files, seeds and settings, '
     'interleaving of loaders, aggregator and reconstruction, unreadable '
     'file and failing evaluation',
     'There is no test of the reconstruction of test data.',
     ['egenerator/reconstruct_test_data.py', 'egenerator/manager/source.py',
      TRAY, H],
     [('main', 'egenerator/reconstruct_test_data.py'),
      ('reconstruct_testdata', 'egenerator/manager/source.py')],
     [], ['rows of the file of results'])

prop('P25', 'Exports are the latest trained models, complete and agreed to',
     'Exporting trained managers gives a directory from which an ensemble '
     'of exactly their models, in the given order and with the latest '
     'saved weights of each, and exactly the given settings are restored; '
     'exports can be combined to larger ensembles. Models that do not fit '
     'together are rejected. The managers exported and all other files '
     'are left unchanged. An existing export or transformation is only '
     'replaced if the user agrees and is otherwise not touched. An '
     'interrupted export or creation of a transformation is never taken '
     'for a complete one, and repeating it works.',
     ['histories', 'crash_points', 'configurations'],
     'every history of trainings, exports, answers of the user, crashes, '
     'errors of the disk and restarts, and every set of directory names',
     'There is no test of the scripts; what is left behind depends on '
     'the file operation at which they are interrupted.',
     ['egenerator/export_manager.py', 'egenerator/create_trafo_model.py',
      'egenerator/utils/configurator.py',
      'egenerator/utils/build_components.py'],
     [('main', 'egenerator/export_manager.py'),
      ('main', 'egenerator/create_trafo_model.py'),
      ('ManagerConfigurator', 'egenerator/utils/configurator.py'),
      ('build_manager', 'egenerator/utils/build_components.py')],
     [], ['file operations of the scripts'])

# ---- properties without a schedule, clock, fault or interleaving ----------
prop('P30', 'Transformation and inverse transformation cancel',
     'Applying the data transformation and then its inverse gives back the '
     'input within floating point accuracy, for numpy and TensorFlow '
     'tensors and every mix of logarithmic and linear columns.',
     ['inputs'], 'every finite input in the domain of the logarithm',
     'Tests use a few arrays.', [TRAFO],
     [('transform', TRAFO), ('inverse_transform', TRAFO)])

prop('P31', 'The best of several reconstructions is selected',
     'Selecting among several reconstructions returns, per event, the '
     'result and all attached values of the reconstruction with the '
     'smallest loss.',
     ['inputs'], 'every set of per-event losses',
     'There is no test of it.',
     ['egenerator/manager/reconstruction/modules/reconstruction.py'],
     [('SelectBestReconstruction.execute',
       'egenerator/manager/reconstruction/modules/reconstruction.py')])

prop('P32', 'Loss terms and basis functions are normalised',
     'Probability densities used by the likelihoods integrate to one and '
     'are finite and non-negative for all admissible parameters, and the '
     'losses are permutation invariant in the pulses.',
     ['inputs'], 'every admissible parameter value',
     'Tests sample a few values.',
     ['egenerator/utils/basis_functions.py', 'egenerator/loss/default.py'],
     [('basis functions', 'egenerator/utils/basis_functions.py')])

prop('P33', 'Combining config files is order-independent and conflict-free',
     'Combining configuration files gives the union of their settings, and '
     'a setting defined twice is rejected.',
     ['inputs', 'configurations'], 'every set of configuration files',
     'Tests use a few files.',
     ['egenerator/settings/setup_manager.py'],
     [('SetupManager', 'egenerator/settings/setup_manager.py')])

prop('P34', 'Multi-source superposition is consistent',
     'The expectation of a multi-source model is the sum of its sources\' '
     'expectations and its parameters map one-to-one onto source '
     'parameters.',
     ['inputs', 'configurations'], 'every number and order of sources',
     'Tests use one combination.',
     ['egenerator/model/multi_source/base.py'],
     [('MultiSource.get_tensors', 'egenerator/model/multi_source/base.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
