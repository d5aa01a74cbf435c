From d4d644c858ccaa83900c562bd971989322c25c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 01/37] fix: end markers instead of racing flags at the end of
 the batch pipeline

The consumer could wait forever for a batch, or miss the last ones, and the
aggregating process could wait forever for a file, depending on who won the
race for the shared end-of-input flags. Workers now mark the end of their
data on the queues themselves.
---
 egenerator/data/handler/base.py | 72 +++++++++++++--------------------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 8ce7e16..2c4ac03 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -674,30 +674,18 @@ class BaseDataHandler(BaseComponent):
         else:
             file_list = glob.glob(input_data)
 
-        # define shared memory variables
-        num_files_processed = multiprocessing.Value('i')
-        processed_all_files = multiprocessing.Value('b')
-        data_left_in_queue = multiprocessing.Value('b')
-
-        # initialize shared variables
-        num_files_processed.value = 0
-        processed_all_files.value = False
-        data_left_in_queue.value = True
-
         # create Locks
         file_counter_lock = multiprocessing.Lock()
 
         # create and randomly fill file_list queue
         file_list_queue = multiprocessing.Manager().Queue(maxsize=0)
 
-        number_of_files = 0
         if sample_randomly:
             np.random.shuffle(file_list)
 
         if not pick_random_files_forever:
             # Only go through given file list once
             for file in file_list:
-                number_of_files += 1
                 file_list_queue.put(file)
 
         # create data_batch_queue
@@ -731,7 +719,7 @@ class BaseDataHandler(BaseComponent):
             """
             local_random_state = np.random.RandomState(seed)
 
-            while not processed_all_files.value:
+            while True:
 
                 # get file
                 if pick_random_files_forever:
@@ -741,7 +729,8 @@ class BaseDataHandler(BaseComponent):
                         if not file_list_queue.empty():
                             file = file_list_queue.get()
                         else:
-                            file = None
+                            # this worker is done
+                            break
 
                 if file and os.path.exists(file):
 
@@ -801,11 +790,8 @@ class BaseDataHandler(BaseComponent):
                     self._logger.warning(
                         'File {!r} does not exist.'.format(file))
 
-                if not pick_random_files_forever:
-                    with file_counter_lock:
-                        num_files_processed.value += 1
-                        if num_files_processed.value == number_of_files:
-                            processed_all_files.value = True
+            # mark the end of the data of this worker
+            data_batch_queue.put(None)
 
         def fill_event_list(data_batch, event_list, exists, num_events):
             """Fills an event_list with a given data_batch.
@@ -860,41 +846,42 @@ class BaseDataHandler(BaseComponent):
                 If True, a random event order will be sampled.
                 If False, events will not be shuffled.
             """
-            if not pick_random_files_forever:
-                with file_counter_lock:
-                    if processed_all_files.value and data_batch_queue.empty():
-                        data_left_in_queue.value = False
+            num_active_workers = num_jobs
 
             # reset event batch
             size = 0
             batch = [[] for v in self.tensors.names]
 
-            while data_left_in_queue.value:
+            while num_active_workers > 0:
+                file_data = data_batch_queue.get()
+                if file_data is None:
+                    num_active_workers -= 1
+                    continue
+
                 # create lists and concatenate at end
                 # (faster than concatenating in each step)
                 exists = [True for v in self.tensors.names]
                 event_list = [[] for v in self.tensors.names]
 
                 # get a new set of events from queue and fill
-                num_events, data_batch = data_batch_queue.get()
+                num_events, data_batch = file_data
                 current_queue_size = num_events
                 fill_event_list(data_batch, event_list, exists, num_events)
 
                 n_files = 0
                 while ((n_files < num_add_files or current_queue_size <
                         np.sqrt(max(0, num_repetitions - 1)) * batch_size) and
-                       data_left_in_queue.value):
-
-                    # avoid dead lock and delay for a bit
-                    time.sleep(0.1)
+                       num_active_workers > 0):
 
-                    if (data_batch_queue.qsize() > 1 or
-                            not data_batch_queue.empty()):
-                        num_events, data_batch = data_batch_queue.get()
-                        n_files += 1
-                        current_queue_size += num_events
-                        fill_event_list(data_batch, event_list, exists,
-                                        num_events)
+                    file_data = data_batch_queue.get()
+                    if file_data is None:
+                        num_active_workers -= 1
+                        continue
+                    num_events, data_batch = file_data
+                    n_files += 1
+                    current_queue_size += num_events
+                    fill_event_list(data_batch, event_list, exists,
+                                    num_events)
 
                 # concatenate into one numpy array:
                 for i, tensor in enumerate(self.tensors.list):
@@ -970,12 +957,6 @@ class BaseDataHandler(BaseComponent):
                             size = 0
                             batch = [[] for v in self.tensors.names]
 
-                if not pick_random_files_forever:
-                    with file_counter_lock:
-                        if (processed_all_files.value and
-                                data_batch_queue.empty()):
-                            data_left_in_queue.value = False
-
             # collect leftovers and put them in an (incomplete) batch
             if size > 0:
                 # create numpy arrays from input tensors
@@ -990,6 +971,9 @@ class BaseDataHandler(BaseComponent):
                         batch[i] = np.asarray(batch[i])
                 final_batch_queue.put(tuple(batch))
 
+            # mark the end of the batches
+            final_batch_queue.put(None)
+
         def batch_iterator():
             """Create batch generator
 
@@ -1000,8 +984,10 @@ class BaseDataHandler(BaseComponent):
                 dom_responses: [batch_size, x_dim, y_dim, z_dim, num_bins]
                 cascade_parameters: [batch_size, num_cascade_parameters]
             """
-            while data_left_in_queue.value or not final_batch_queue.empty():
+            while True:
                 batch = final_batch_queue.get()
+                if batch is None:
+                    break
                 yield batch
 
         # create processes
-- 
2.43.0


From f6776258ae630177d414e1b4736f2d1f8d0154f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 02/37] fix: use the number of selected events after a biased
 selection

The aggregating process used the number of events in the file and failed
with an IndexError as soon as the selection had removed an event. The
selection is also not applied to a file that was skipped.
---
 egenerator/data/handler/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 2c4ac03..7cf75d7 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -745,9 +745,17 @@ class BaseDataHandler(BaseComponent):
                         self.get_data_from_hdf(file, *args, **kwargs)
 
                     # biased selection
-                    if biased_selection_module is not None:
+                    if (biased_selection_module is not None and
+                            data is not None):
                         data = biased_selection_module.select(data)
 
+                        # the selection may have removed events
+                        for i, tensor in enumerate(self.tensors.list):
+                            if (data is not None and data[i] is not None and
+                                    tensor.vector_info is None):
+                                num_events = len(data[i])
+                                break
+
                     if data is not None:
 
                         if num_splits is None:
-- 
2.43.0


From 82755d6628d1431ac4b0930e8d5ebdf7a5927d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 03/37] fix: cast the last, incomplete batch to the declared
 data types

Only complete batches were cast, so that the last batch of a finite pass
had whatever type the file had.
---
 egenerator/data/handler/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 7cf75d7..1b52521 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -971,12 +971,16 @@ class BaseDataHandler(BaseComponent):
                 for i, tensor in enumerate(self.tensors.list):
                     if exists[i]:
                         if tensor.vector_info is None:
-                            batch[i] = np.asarray(batch[i])
+                            batch[i] = np.asarray(
+                                batch[i], dtype=getattr(np, tensor.dtype))
 
                         else:
-                            batch[i] = np.concatenate(batch[i], axis=0)
+                            batch[i] = np.concatenate(
+                                batch[i], axis=0).astype(
+                                    getattr(np, tensor.dtype))
                     else:
-                        batch[i] = np.asarray(batch[i])
+                        batch[i] = np.asarray(
+                            batch[i], dtype=getattr(np, tensor.dtype))
                 final_batch_queue.put(tuple(batch))
 
             # mark the end of the batches
-- 
2.43.0


From c925924377753402e147a20be562a8183677cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 04/37] fix: an unreadable input file does not stop the batch
 pipeline

An exception while loading a file killed the loader process and left the
consumer waiting forever. Such a file is now skipped with a logged error,
as missing files and files without the required tables already are.
---
 egenerator/data/handler/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 1b52521..a27d151 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -741,8 +741,14 @@ class BaseDataHandler(BaseComponent):
                         self._logger.debug(msg.format(
                             file, usage.ru_maxrss / 1024.0 / 1024.0,
                             file_list_queue.qsize(), data_batch_queue.qsize()))
-                    num_events, data = \
-                        self.get_data_from_hdf(file, *args, **kwargs)
+                    try:
+                        num_events, data = \
+                            self.get_data_from_hdf(file, *args, **kwargs)
+                    except Exception:
+                        self._logger.exception(
+                            'Skipping file {!r}: it can not be read.'.format(
+                                file))
+                        num_events, data = None, None
 
                     # biased selection
                     if (biased_selection_module is not None and
-- 
2.43.0


From eb881d11a6ef50845211375e856a7b7f18d3b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 05/37] fix: do not wait forever for batches of dead worker
 processes

After kill(), or if a worker process dies unexpectedly, the generator
raises an error instead of waiting for a batch that never comes.
---
 egenerator/data/handler/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index a27d151..e6d4b4c 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -1,5 +1,6 @@
 import os
 import time
+import queue
 import multiprocessing
 import numpy as np
 import glob
@@ -1003,23 +1004,33 @@ class BaseDataHandler(BaseComponent):
                 cascade_parameters: [batch_size, num_cascade_parameters]
             """
             while True:
-                batch = final_batch_queue.get()
+                try:
+                    batch = final_batch_queue.get(timeout=1.0)
+                except queue.Empty:
+                    # a dead worker will never deliver its data
+                    if any(p.exitcode not in (None, 0) for p in processes):
+                        raise RuntimeError(
+                            'A worker process of the batch generator died.')
+                    continue
                 if batch is None:
                     break
                 yield batch
 
         # create processes
+        processes = []
         for i in range(num_jobs):
             process = multiprocessing.Process(target=file_loader, args=(i,))
             process.daemon = True
             process.start()
             self._untracked_data['mp_processes'].append(process)
+            processes.append(process)
 
         process = multiprocessing.Process(target=data_queue_iterator,
                                           args=(sample_randomly,))
         process.daemon = True
         process.start()
         self._untracked_data['mp_processes'].append(process)
+        processes.append(process)
 
         return batch_iterator()
 
-- 
2.43.0


From 57f0d142f18130b6862f716622dc0f9eb45a8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 06/37] fix: wrong use of a logging argument in the verbose
 batch pipeline

---
 egenerator/data/handler/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index e6d4b4c..64d7da4 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -905,7 +905,7 @@ class BaseDataHandler(BaseComponent):
 
                 queue_size = current_queue_size
                 if verbose:
-                    self._logger.debug('queue_size:', queue_size)
+                    self._logger.debug('queue_size: {}'.format(queue_size))
 
                 # num_repetitions:
                 #   potentially dangerous for batch_size approx file_size
-- 
2.43.0


From 0448c05786fea84e42d56a7c638f6c14c53dd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 07/37] fix: an interrupted save of model weights does not
 corrupt the checkpoints

---
 egenerator/model/base.py | 68 +++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index e2f5aa1..c74428b 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -255,6 +255,11 @@ class Model(tf.Module, BaseComponent):
             protected_checkpoints:
                 (same as unprotected_checkpoints)
 
+            pending_checkpoint: int
+                Only present while a checkpoint is being written: the number
+                of this checkpoint. If the save is interrupted, this marks
+                the files of this checkpoint as leftovers.
+
         Parameters
         ----------
         dir_path : str
@@ -317,8 +322,11 @@ class Model(tf.Module, BaseComponent):
 
         # check if file already exists
         if os.path.exists(checkpoint_file+'.index'):
-            raise IOError('Checkpoint file {!r} already exists!'.format(
-                checkpoint_file))
+            if meta_data.get('pending_checkpoint') != checkpoint_index:
+                raise IOError('Checkpoint file {!r} already exists!'.format(
+                    checkpoint_file))
+            msg = 'Overwriting leftovers of an interrupted save: {!r}'
+            self._logger.warning(msg.format(checkpoint_file))
 
         # check if meta data already exists
         if checkpoint_index in meta_data['unprotected_checkpoints'] or \
@@ -331,8 +339,19 @@ class Model(tf.Module, BaseComponent):
             self.update_num_training_steps(
                 dir_path=dir_path, num_training_steps=num_training_steps)
 
+        # mark the checkpoint as being written, such that the files can be
+        # identified as leftovers if this gets interrupted
+        if not os.path.isdir(dir_path):
+            os.makedirs(dir_path)
+        meta_data['pending_checkpoint'] = checkpoint_index
+        self._write_yaml(yaml_file, meta_data)
+
+        # save checkpoint
+        self._untracked_data['checkpoint'].write(checkpoint_file)
+
         # update latest checkpoint index
         meta_data['latest_checkpoint'] += 1
+        meta_data.pop('pending_checkpoint')
 
         # add entry to meta data
         now = datetime.now()
@@ -351,10 +370,8 @@ class Model(tf.Module, BaseComponent):
             meta_data['unprotected_checkpoints'][checkpoint_index] = \
                 checkpoint_meta_data
 
-        # save checkpoint
-        self._untracked_data['checkpoint'].write(checkpoint_file)
-
-        # remove old checkpoints
+        # collect old checkpoints that need to be removed
+        files_to_remove = []
         if not protected:
             old_checkpoint_numbers = \
                 sorted(meta_data['unprotected_checkpoints'].keys())
@@ -364,18 +381,41 @@ class Model(tf.Module, BaseComponent):
                     # remove entry from tracked checkpoints meta data
                     info = meta_data['unprotected_checkpoints'].pop(number)
 
-                    # remove files
+                    # keep track of files
                     pattern = os.path.join(dir_path,
                                            info['file_basename'] + '.*')
-                    files_to_remove = glob.glob(pattern)
-                    msg = 'Removing old checkpoint files: {!r}'
-                    self._logger.info(msg.format(files_to_remove))
-                    for file in files_to_remove:
-                        os.remove(file)
+                    files_to_remove.extend(glob.glob(pattern))
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
-            yaml.dump(meta_data, stream)
+        self._write_yaml(yaml_file, meta_data)
+
+        # Remove files of old checkpoints. This must only happen once these
+        # checkpoints are no longer listed in the saved meta data.
+        if files_to_remove:
+            msg = 'Removing old checkpoint files: {!r}'
+            self._logger.info(msg.format(files_to_remove))
+        for file in files_to_remove:
+            os.remove(file)
+
+    @staticmethod
+    def _write_yaml(file_path, data):
+        """Write data to a yaml file in a single step.
+
+        The data is first written to a temporary file that then replaces the
+        actual file. If this gets interrupted, the previous version of the
+        file remains intact.
+
+        Parameters
+        ----------
+        file_path : str
+            Path to the yaml file.
+        data : dict
+            The data that will be written.
+        """
+        temp_file = file_path + '.tmp'
+        with open(temp_file, 'w') as stream:
+            yaml.dump(data, stream)
+        os.replace(temp_file, file_path)
 
     def update_num_training_steps(self, dir_path, num_training_steps):
         """Update the number of training iterations for current training step.
-- 
2.43.0


From 6e9db497a715310bfe7dd1dfdfbdf8d0dbda185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 08/37] fix: only remove the files of the removed checkpoint,
 in any directory

---
 egenerator/model/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index c74428b..1a84b8b 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -300,8 +300,6 @@ class Model(tf.Module, BaseComponent):
             raise ValueError(msg.format(self.variables,
                                         self._untracked_data['variables']))
 
-        checkpoint_pattern = os.path.join(dir_path, 'model_checkpoint_{:08d}')
-
         # Load the model_checkpoints.yaml file if it exists.
         yaml_file = os.path.join(dir_path, 'model_checkpoint.yaml')
         if os.path.exists(yaml_file):
@@ -318,7 +316,8 @@ class Model(tf.Module, BaseComponent):
             }
 
         checkpoint_index = meta_data['latest_checkpoint'] + 1
-        checkpoint_file = checkpoint_pattern.format(checkpoint_index)
+        checkpoint_file = os.path.join(
+            dir_path, 'model_checkpoint_{:08d}'.format(checkpoint_index))
 
         # check if file already exists
         if os.path.exists(checkpoint_file+'.index'):
@@ -381,10 +380,12 @@ class Model(tf.Module, BaseComponent):
                     # remove entry from tracked checkpoints meta data
                     info = meta_data['unprotected_checkpoints'].pop(number)
 
-                    # keep track of files
-                    pattern = os.path.join(dir_path,
-                                           info['file_basename'] + '.*')
-                    files_to_remove.extend(glob.glob(pattern))
+                    # keep track of the files written by tensorflow
+                    # (there may be unrelated files with the same basename)
+                    file_path = glob.escape(
+                        os.path.join(dir_path, info['file_basename']))
+                    for pattern in ['.index', '.data-?????-of-?????']:
+                        files_to_remove.extend(glob.glob(file_path + pattern))
 
         # save new meta data
         self._write_yaml(yaml_file, meta_data)
-- 
2.43.0


From 1606ed8b4f973d9400f7e5972da9c1c3015c9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 09/37] fix: an interrupted save of training settings does not
 corrupt the history

---
 egenerator/model/base.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index 1a84b8b..5cd81e7 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -1,5 +1,6 @@
 from __future__ import division, print_function
 import os
+import shutil
 import logging
 import tensorflow as tf
 import numpy as np
@@ -448,8 +449,7 @@ class Model(tf.Module, BaseComponent):
             num_training_steps
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
-            yaml.dump(meta_data, stream)
+        self._write_yaml(yaml_file, meta_data)
 
     def save_training_settings(self, dir_path, new_training_settings):
         """Save a new training step with its components and settings.
@@ -491,20 +491,33 @@ class Model(tf.Module, BaseComponent):
 
         # check if file already exists
         if os.path.exists(training_step_dir):
-            raise IOError('Training dicrectory {!r} already exists!'.format(
-                training_step_dir))
-        else:
-            os.makedirs(training_step_dir)
-            msg = 'Creating directory: {!r}'
-            self._logger.info(msg.format(training_step_dir))
+            if meta_data.get('pending_step') != training_index:
+                msg = 'Training dicrectory {!r} already exists!'
+                raise IOError(msg.format(training_step_dir))
 
         # check if meta data already exists
         if training_index in meta_data['training_steps']:
             msg = 'Training index {!r} already exists in meta data: {!r}!'
             raise KeyError(msg.format(training_index, meta_data))
 
+        # mark the training step as being written, such that the directory
+        # can be identified as a leftover if this gets interrupted
+        if not os.path.isdir(training_dir):
+            os.makedirs(training_dir)
+        meta_data['pending_step'] = training_index
+        self._write_yaml(yaml_file, meta_data)
+
+        if os.path.exists(training_step_dir):
+            msg = 'Removing leftovers of an interrupted save: {!r}'
+            self._logger.warning(msg.format(training_step_dir))
+            shutil.rmtree(training_step_dir)
+        os.makedirs(training_step_dir)
+        msg = 'Creating directory: {!r}'
+        self._logger.info(msg.format(training_step_dir))
+
         # update latest training step
         meta_data['latest_step'] += 1
+        meta_data.pop('pending_step')
 
         # add entry to meta data
         now = datetime.now()
@@ -529,8 +542,7 @@ class Model(tf.Module, BaseComponent):
             component.save(component_dir)
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
-            yaml.dump(meta_data, stream)
+        self._write_yaml(yaml_file, meta_data)
 
     def _save(self, dir_path, max_keep=3, protected=False, description=None,
               new_training_settings=None, num_training_steps=None):
-- 
2.43.0


From 15b78ea3d8d6cf6ac6f2f2f867d8b6012a489440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 10/37] fix: loading a component of a different version only
 results in a warning

---
 egenerator/manager/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 367b8c8..bfed9e5 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -918,7 +918,9 @@ class BaseComponent(object):
             msg = 'Event-Generator versions do not match. '
             msg += 'Saved component was created with version {!r}, but this is'
             msg += ' version {!r}.'
-            self.logger.warning(msg.format())
+            self._logger.warning(msg.format(
+                config_dict['event_generator_version'],
+                egenerator.__version__))
 
         # check if this is the correct class
         if self.configuration.class_string != \
-- 
2.43.0


From 4dfd90ba697d332706e8d352d3be33fc360c08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 11/37] fix: loading a component does not modify the passed
 arguments

---
 egenerator/manager/component.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index bfed9e5..d78342d 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -898,6 +898,11 @@ class BaseComponent(object):
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
 
+        # do not modify the dictionary that was passed in and do not keep
+        # sub components of a previous attempt that failed
+        modified_sub_components = dict(modified_sub_components)
+        self._sub_components = {}
+
         # split of possible extension
         dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
-- 
2.43.0


From 90b5270590b69bb8a2ee0da98635785a08e3d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 12/37] fix: sub components with a dot in the name do not
 overwrite each other

---
 egenerator/manager/component.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index d78342d..c3fbc9e 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -849,7 +849,9 @@ class BaseComponent(object):
 
         # walk through dependent sub components and save these as well
         for name, sub_component in self.sub_components.items():
-            sub_component_dir_path = os.path.join(dir_path, name)
+            # Note: the trailing separator ensures that a dot in the name is
+            # not mistaken for a file extension
+            sub_component_dir_path = os.path.join(dir_path, name, '')
             sub_component.save(
                 sub_component_dir_path, overwrite=overwrite,
                 allow_untracked_attributes=allow_untracked_attributes,
@@ -957,7 +959,11 @@ class BaseComponent(object):
 
             sub_configuration = \
                 self.configuration.sub_component_configurations[name]
-            sub_component_dir_path = os.path.join(dir_path, name)
+            sub_component_dir_path = os.path.join(dir_path, name, '')
+            if not os.path.isdir(sub_component_dir_path):
+                # saved by a previous version, in which a dot in the name
+                # was mistaken for a file extension
+                sub_component_dir_path = os.path.join(dir_path, name)
 
             sub_class = misc.load_class(sub_configuration['class_string'])
             sub_component = sub_class()
-- 
2.43.0


From 2dd9da186d099772fe5d3cd633a299ef5873927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 13/37] fix: an interrupted save does not leave a mixture of
 two components

---
 egenerator/manager/component.py | 40 +++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index c3fbc9e..ec5e400 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -839,13 +839,18 @@ class BaseComponent(object):
             os.makedirs(dir_path)
             self._logger.info('Creating directory: {}'.format(dir_path))
 
-        # save configuration settings
-        with open(config_file_path, 'w') as yaml_file:
-            yaml.dump(self.configuration.dict, yaml_file)
+        # The configuration is what makes the component loadable: it is written
+        # last, and a differing previous one is removed before anything else
+        # is modified. Hence, an interrupted save does not leave behind a
+        # component that mixes the new with the previous version.
+        config_is_saved = self._is_saved_configuration(config_file_path)
+        if not config_is_saved and os.path.exists(config_file_path):
+            os.remove(config_file_path)
 
         # write data
-        with open(data_file_path, 'wb') as handle:
+        with open(data_file_path + '.tmp', 'wb') as handle:
             pickle.dump(self.data, handle, protocol=2)
+        os.replace(data_file_path + '.tmp', data_file_path)
 
         # walk through dependent sub components and save these as well
         for name, sub_component in self.sub_components.items():
@@ -860,6 +865,33 @@ class BaseComponent(object):
         # call additional tasks of derived class via virtual method
         self._save(dir_path, **kwargs)
 
+        # save configuration settings
+        if not config_is_saved:
+            with open(config_file_path + '.tmp', 'w') as yaml_file:
+                yaml.dump(self.configuration.dict, yaml_file)
+            os.replace(config_file_path + '.tmp', config_file_path)
+
+    def _is_saved_configuration(self, config_file_path):
+        """Check if the configuration is already saved in the given file.
+
+        Parameters
+        ----------
+        config_file_path : str
+            The path to the configuration file.
+
+        Returns
+        -------
+        bool
+            True if the file contains the configuration of this component.
+        """
+        try:
+            with open(config_file_path, 'r') as stream:
+                config_dict = yaml.load(stream, Loader=yaml.Loader)
+            return bool(config_dict == self.configuration.dict)
+        except Exception:
+            # there is no such file, or it is not readable or comparable
+            return False
+
     def load(self, dir_path, modified_sub_components={}, **kwargs):
         """Load component from file.
 
-- 
2.43.0


From 717389bd6704e321c30691d1d66f956fbcaf428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 14/37] fix: ensembles of models are saved and restored in step

The members of a manager or multi source are saved one after another. If this
was interrupted, the members had different checkpoints: the default restored a
mixture of two of them, old checkpoints were removed although the new one was
not complete, and explicit checkpoint numbers were shifted ever after. Training
settings of a multi source were not saved for its base sources.
---
 egenerator/manager/base.py            |  35 ++-
 egenerator/model/base.py              | 321 ++++++++++++++++++++++++--
 egenerator/model/multi_source/base.py |  59 ++++-
 3 files changed, 383 insertions(+), 32 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 9807c80..e92ab84 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -7,10 +7,10 @@ import timeit
 
 from egenerator import misc
 from egenerator.manager.component import Configuration
-from egenerator.model.base import Model
+from egenerator.model.base import Model, ModelCollection
 
 
-class BaseModelManager(Model):
+class BaseModelManager(ModelCollection, Model):
 
     @property
     def optimizer(self):
@@ -258,7 +258,8 @@ class BaseModelManager(Model):
         self._check_sub_component_compatibility(self.sub_components)
 
     def save_weights(self, dir_path, max_keep=3, protected=False,
-                     description=None, num_training_steps=None):
+                     description=None, num_training_steps=None,
+                     checkpoint_number=None):
         """Save the model weights.
 
         Metadata on the checkpoints is stored in a model_checkpoints.yaml
@@ -293,6 +294,7 @@ class BaseModelManager(Model):
             The maximum number of unprotectd checkpoints to keep.
             If there are more than this amount of unprotected checkpoints,
             the oldest checkpoints will be deleted.
+            If None, all checkpoints are kept.
         protected : bool, optional
             If True, this checkpoint will not be considered for deletion
             for max_keep.
@@ -304,6 +306,9 @@ class BaseModelManager(Model):
             This will be used to update the training_steps.yaml file to
             account for the correct number of training steps for the most
             recent training step.
+        checkpoint_number : int, optional
+            The number of the checkpoint. If None (default), the number of the
+            latest checkpoint is increased by one.
 
         Raises
         ------
@@ -315,6 +320,9 @@ class BaseModelManager(Model):
             If the model has changed since it was configured.
 
         """
+        if checkpoint_number is None:
+            checkpoint_number = self.get_latest_checkpoint(dir_path) + 1
+
         for name, sub_component in self.sub_components.items():
 
             # get directory of sub component
@@ -323,9 +331,14 @@ class BaseModelManager(Model):
             if issubclass(type(sub_component), Model):
                 # save weights of Model sub component
                 sub_component.save_weights(
-                    dir_path=sub_dir_path, max_keep=max_keep,
+                    dir_path=sub_dir_path, max_keep=None,
                     protected=protected, description=description,
-                    num_training_steps=num_training_steps)
+                    num_training_steps=num_training_steps,
+                    checkpoint_number=checkpoint_number)
+
+        # remove old checkpoints once all sub components have the new one
+        if not protected:
+            self._keep_newest_checkpoints(dir_path, max_keep)
 
     def save_training_settings(self, dir_path, new_training_settings):
         """Save a new training step with its components and settings.
@@ -366,13 +379,16 @@ class BaseModelManager(Model):
         checkpoint_number : None, optional
             Optionally specify a certain checkpoint number that should be
             loaded. If checkpoint_number is None (default), then the latest
-            checkpoint will be loaded.
+            checkpoint that exists for all sub components will be loaded.
 
         Raises
         ------
         IOError
             If the checkpoint meta data cannot be found in the input directory.
         """
+        if checkpoint_number is None:
+            checkpoint_number = self._get_newest_checkpoint(dir_path)
+
         for name, sub_component in self.sub_components.items():
 
             # get directory of sub component
@@ -412,9 +428,8 @@ class BaseModelManager(Model):
         to perform additional tasks necessary to load the component.
         This can for instance be loading of tensorflow model weights.
 
-        The MultiSource only contains weights in its submodules which are
-        automatically loaded via recursion. Therefore, it does not need
-        to explicitly load anything here.
+        The weights of the submodules are automatically loaded via recursion.
+        It only needs to be made sure that these match.
 
         Parameters
         ----------
@@ -429,6 +444,8 @@ class BaseModelManager(Model):
         # check for compatibilities of sub components
         self._check_sub_component_compatibility(self.sub_components)
 
+        super(BaseModelManager, self)._load(dir_path, **kwargs)
+
     def regularization_loss(self, variables, opt_config):
         """Get L1 and L2 regularization terms.
 
diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index 5cd81e7..544dd1b 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -229,7 +229,8 @@ class Model(tf.Module, BaseComponent):
                 raise ValueError('Model is already set up!')
 
     def save_weights(self, dir_path, max_keep=3, protected=False,
-                     description=None, num_training_steps=None):
+                     description=None, num_training_steps=None,
+                     checkpoint_number=None):
         """Save the model weights.
 
         Metadata on the checkpoints is stored in a model_checkpoints.yaml
@@ -269,6 +270,7 @@ class Model(tf.Module, BaseComponent):
             The maximum number of unprotectd checkpoints to keep.
             If there are more than this amount of unprotected checkpoints,
             the oldest checkpoints will be deleted.
+            If None, all checkpoints are kept.
         protected : bool, optional
             If True, this checkpoint will not be considered for deletion
             for max_keep.
@@ -280,6 +282,10 @@ class Model(tf.Module, BaseComponent):
             This will be used to update the training_steps.yaml file to
             account for the correct number of training steps for the most
             recent training step.
+        checkpoint_number : int, optional
+            The number of the checkpoint. This must be larger than the number
+            of the latest checkpoint. If None (default), the number of the
+            latest checkpoint is increased by one.
 
         Raises
         ------
@@ -316,7 +322,14 @@ class Model(tf.Module, BaseComponent):
                 'protected_checkpoints': {},
             }
 
-        checkpoint_index = meta_data['latest_checkpoint'] + 1
+        if checkpoint_number is None:
+            checkpoint_index = meta_data['latest_checkpoint'] + 1
+        elif checkpoint_number > meta_data['latest_checkpoint']:
+            checkpoint_index = checkpoint_number
+        else:
+            msg = 'Checkpoint number {!r} is not larger than the latest: {!r}'
+            raise ValueError(msg.format(
+                checkpoint_number, meta_data['latest_checkpoint']))
         checkpoint_file = os.path.join(
             dir_path, 'model_checkpoint_{:08d}'.format(checkpoint_index))
 
@@ -350,7 +363,7 @@ class Model(tf.Module, BaseComponent):
         self._untracked_data['checkpoint'].write(checkpoint_file)
 
         # update latest checkpoint index
-        meta_data['latest_checkpoint'] += 1
+        meta_data['latest_checkpoint'] = checkpoint_index
         meta_data.pop('pending_checkpoint')
 
         # add entry to meta data
@@ -371,25 +384,44 @@ class Model(tf.Module, BaseComponent):
                 checkpoint_meta_data
 
         # collect old checkpoints that need to be removed
-        files_to_remove = []
-        if not protected:
+        old_checkpoints = []
+        if not protected and max_keep is not None:
             old_checkpoint_numbers = \
                 sorted(meta_data['unprotected_checkpoints'].keys())
             if len(old_checkpoint_numbers) > max_keep:
-                for number in old_checkpoint_numbers[:-max_keep]:
+                old_checkpoints = old_checkpoint_numbers[:-max_keep]
+
+        # save new meta data and remove old checkpoints
+        self._remove_checkpoints(dir_path, meta_data, old_checkpoints)
+
+    def _remove_checkpoints(self, dir_path, meta_data, checkpoint_numbers):
+        """Remove unprotected checkpoints and save the updated meta data.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of the checkpoints.
+        meta_data : dict
+            The checkpoint meta data. This will be updated and saved to file.
+        checkpoint_numbers : list of int
+            The numbers of the unprotected checkpoints that will be removed.
+        """
+        files_to_remove = []
+        for number in checkpoint_numbers:
 
-                    # remove entry from tracked checkpoints meta data
-                    info = meta_data['unprotected_checkpoints'].pop(number)
+            # remove entry from tracked checkpoints meta data
+            info = meta_data['unprotected_checkpoints'].pop(number)
 
-                    # keep track of the files written by tensorflow
-                    # (there may be unrelated files with the same basename)
-                    file_path = glob.escape(
-                        os.path.join(dir_path, info['file_basename']))
-                    for pattern in ['.index', '.data-?????-of-?????']:
-                        files_to_remove.extend(glob.glob(file_path + pattern))
+            # keep track of the files written by tensorflow
+            # (there may be unrelated files with the same basename)
+            file_path = glob.escape(
+                os.path.join(dir_path, info['file_basename']))
+            for pattern in ['.index', '.data-?????-of-?????']:
+                files_to_remove.extend(glob.glob(file_path + pattern))
 
         # save new meta data
-        self._write_yaml(yaml_file, meta_data)
+        self._write_yaml(os.path.join(dir_path, 'model_checkpoint.yaml'),
+                         meta_data)
 
         # Remove files of old checkpoints. This must only happen once these
         # checkpoints are no longer listed in the saved meta data.
@@ -399,6 +431,75 @@ class Model(tf.Module, BaseComponent):
         for file in files_to_remove:
             os.remove(file)
 
+    def get_checkpoint_numbers(self, dir_path, protected=None):
+        """Get the numbers of all checkpoints that can be loaded.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of the checkpoints.
+        protected : bool, optional
+            If provided, only the numbers of the protected (True) or
+            unprotected (False) checkpoints are returned.
+
+        Returns
+        -------
+        list of int
+            The sorted checkpoint numbers.
+        """
+        yaml_file = os.path.join(dir_path, 'model_checkpoint.yaml')
+        if not os.path.exists(yaml_file):
+            return []
+
+        with open(yaml_file, 'r') as stream:
+            meta_data = yaml.safe_load(stream)
+
+        numbers = []
+        if protected is None or not protected:
+            numbers.extend(meta_data['unprotected_checkpoints'].keys())
+        if protected is None or protected:
+            numbers.extend(meta_data['protected_checkpoints'].keys())
+        return sorted(numbers)
+
+    def get_latest_checkpoint(self, dir_path):
+        """Get the number of the latest checkpoint.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of the checkpoints.
+
+        Returns
+        -------
+        int
+            The number of the latest checkpoint. Zero, if there is none.
+        """
+        yaml_file = os.path.join(dir_path, 'model_checkpoint.yaml')
+        if not os.path.exists(yaml_file):
+            return 0
+
+        with open(yaml_file, 'r') as stream:
+            return yaml.safe_load(stream)['latest_checkpoint']
+
+    def remove_old_checkpoints(self, dir_path, checkpoint_number):
+        """Remove unprotected checkpoints older than the given one.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of the checkpoints.
+        checkpoint_number : int
+            Unprotected checkpoints with a smaller number will be removed.
+        """
+        old_checkpoints = [
+            n for n in self.get_checkpoint_numbers(dir_path, protected=False)
+            if n < checkpoint_number]
+        if old_checkpoints:
+            yaml_file = os.path.join(dir_path, 'model_checkpoint.yaml')
+            with open(yaml_file, 'r') as stream:
+                meta_data = yaml.safe_load(stream)
+            self._remove_checkpoints(dir_path, meta_data, old_checkpoints)
+
     @staticmethod
     def _write_yaml(file_path, data):
         """Write data to a yaml file in a single step.
@@ -545,7 +646,8 @@ class Model(tf.Module, BaseComponent):
         self._write_yaml(yaml_file, meta_data)
 
     def _save(self, dir_path, max_keep=3, protected=False, description=None,
-              new_training_settings=None, num_training_steps=None):
+              new_training_settings=None, num_training_steps=None,
+              checkpoint_number=None):
         """Save the model weights.
 
         Parameters
@@ -577,13 +679,17 @@ class Model(tf.Module, BaseComponent):
             This will be used to update the training_steps.yaml file to
             account for the correct number of training steps for the most
             recent training step.
+        checkpoint_number : int, optional
+            The number of the checkpoint. If None (default), the number of the
+            latest checkpoint is increased by one.
         """
         if new_training_settings is not None:
             self.save_training_settings(
                 dir_path=dir_path, new_training_settings=new_training_settings)
         self.save_weights(dir_path=dir_path, max_keep=max_keep,
                           protected=protected, description=description,
-                          num_training_steps=num_training_steps)
+                          num_training_steps=num_training_steps,
+                          checkpoint_number=checkpoint_number)
 
     def load_weights(self, dir_path, checkpoint_number=None):
         """Load the model weights.
@@ -670,3 +776,184 @@ class Model(tf.Module, BaseComponent):
         # set counter of checkpoint to counter in file
         self.load_weights(dir_path=dir_path,
                           checkpoint_number=checkpoint_number)
+
+
+class ModelCollection(object):
+
+    """Mixin for models that only hold weights in their sub components.
+
+    The sub models are saved one after another. If this gets interrupted, only
+    some of them have the new checkpoint. This mixin keeps the sub models in
+    step: they are all saved with the same checkpoint number, only checkpoints
+    which exist for all of them are loaded by default, and old checkpoints are
+    removed after the new one has been saved for each of them.
+    """
+
+    def _get_sub_models(self, dir_path):
+        """Get the sub models and their directories.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of this component.
+
+        Returns
+        -------
+        list of tuple (str, Model)
+            The directory and the model of each Model sub component.
+        """
+        return [(os.path.join(dir_path, name), sub_component)
+                for name, sub_component in self.sub_components.items()
+                if issubclass(type(sub_component), Model)]
+
+    def get_checkpoint_numbers(self, dir_path, protected=None):
+        """Get the numbers of the checkpoints that exist for all sub models.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of this component.
+        protected : bool, optional
+            If provided, only the numbers of the protected (True) or
+            unprotected (False) checkpoints are returned.
+
+        Returns
+        -------
+        list of int
+            The sorted checkpoint numbers.
+        """
+        numbers = [set(model.get_checkpoint_numbers(path, protected=protected))
+                   for path, model in self._get_sub_models(dir_path)]
+        return sorted(set.intersection(*numbers)) if numbers else []
+
+    def get_latest_checkpoint(self, dir_path):
+        """Get the number of the latest checkpoint of any of the sub models.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of this component.
+
+        Returns
+        -------
+        int
+            The number of the latest checkpoint. Zero, if there is none.
+        """
+        return max([0] + [model.get_latest_checkpoint(path)
+                          for path, model in self._get_sub_models(dir_path)])
+
+    def remove_old_checkpoints(self, dir_path, checkpoint_number):
+        """Remove unprotected checkpoints older than the given one.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of this component.
+        checkpoint_number : int
+            Unprotected checkpoints with a smaller number will be removed.
+        """
+        for path, model in self._get_sub_models(dir_path):
+            model.remove_old_checkpoints(path, checkpoint_number)
+
+    def _keep_newest_checkpoints(self, dir_path, max_keep):
+        """Remove all but the newest unprotected checkpoints.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of this component.
+        max_keep : int or None
+            The number of unprotected checkpoints to keep. Only checkpoints
+            which exist for all sub models are counted.
+            If None, all checkpoints are kept.
+        """
+        if max_keep is None:
+            return
+        numbers = self.get_checkpoint_numbers(dir_path, protected=False)
+        if len(numbers) > max_keep:
+            self.remove_old_checkpoints(dir_path, numbers[-max_keep])
+
+    def save(self, dir_path, overwrite=False,
+             allow_untracked_attributes=False, max_keep=3, protected=False,
+             checkpoint_number=None, **kwargs):
+        """Save component to file.
+
+        Parameters
+        ----------
+        dir_path : str
+            The path to the output directory.
+        overwrite : bool, optional
+            If True, potential existing files will be overwritten.
+            If False, an error will be raised.
+        allow_untracked_attributes : bool, optional
+            If False, an error is raised if there are object attributes
+            which are untracked and would not be saved to file.
+        max_keep : int, optional
+            The maximum number of unprotectd checkpoints to keep.
+            If None, all checkpoints are kept.
+        protected : bool, optional
+            If True, this checkpoint will not be considered for deletion
+            for max_keep.
+        checkpoint_number : int, optional
+            The number of the checkpoint. If None (default), the number of the
+            latest checkpoint is increased by one.
+        **kwargs
+            Additional keyword arguments that will be passed on.
+        """
+        model_dir = os.path.splitext(dir_path)[0]
+        if checkpoint_number is None and self.is_configured:
+            checkpoint_number = self.get_latest_checkpoint(model_dir) + 1
+        super(ModelCollection, self).save(
+            dir_path, overwrite=overwrite,
+            allow_untracked_attributes=allow_untracked_attributes,
+            max_keep=None, protected=protected,
+            checkpoint_number=checkpoint_number, **kwargs)
+        if not protected:
+            self._keep_newest_checkpoints(model_dir, max_keep)
+
+    def _get_newest_checkpoint(self, dir_path):
+        """Get the number of the newest checkpoint of all sub models.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the directory of this component.
+
+        Returns
+        -------
+        int
+            The number of the newest checkpoint that exists for all sub models.
+
+        Raises
+        ------
+        IOError
+            If there is no such checkpoint.
+        """
+        numbers = self.get_checkpoint_numbers(dir_path)
+        if not numbers:
+            msg = 'Could not find checkpoints meta data {!r} of a checkpoint '
+            msg += 'that exists for all models.'
+            raise IOError(msg.format(dir_path))
+        if numbers[-1] != self.get_latest_checkpoint(dir_path):
+            msg = 'Not all models have the latest checkpoint, using {!r} of '
+            msg += '{!r}'
+            self._logger.warning(msg.format(numbers[-1], dir_path))
+        return numbers[-1]
+
+    def _load(self, dir_path, checkpoint_number=None, **kwargs):
+        """Make sure that all sub models were loaded from the same checkpoint.
+
+        Parameters
+        ----------
+        dir_path : str
+            The path to the input directory.
+        checkpoint_number : int, optional
+            The checkpoint number that was loaded. If None, the latest
+            checkpoint of each sub model was loaded.
+        **kwargs
+            Additional keyword arguments.
+        """
+        if checkpoint_number is None and self._get_sub_models(dir_path):
+            newest = self._get_newest_checkpoint(dir_path)
+            if newest != self.get_latest_checkpoint(dir_path):
+                self.load_weights(dir_path, checkpoint_number=newest)
diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index d8f95af..753b19a 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -4,12 +4,12 @@ import logging
 import tensorflow as tf
 
 from egenerator import misc
-from egenerator.model.base import Model
+from egenerator.model.base import Model, ModelCollection
 from egenerator.model.source.base import Source
 from egenerator.manager.component import Configuration
 
 
-class MultiSource(Source):
+class MultiSource(ModelCollection, Source):
 
     """Defines base class for an unbinned MultiSource.
 
@@ -423,7 +423,8 @@ class MultiSource(Source):
         return result_tensors
 
     def save_weights(self, dir_path, max_keep=3, protected=False,
-                     description=None, num_training_steps=None):
+                     description=None, num_training_steps=None,
+                     checkpoint_number=None):
         """Save the model weights.
 
         Metadata on the checkpoints is stored in a model_checkpoints.yaml
@@ -458,6 +459,7 @@ class MultiSource(Source):
             The maximum number of unprotectd checkpoints to keep.
             If there are more than this amount of unprotected checkpoints,
             the oldest checkpoints will be deleted.
+            If None, all checkpoints are kept.
         protected : bool, optional
             If True, this checkpoint will not be considered for deletion
             for max_keep.
@@ -469,6 +471,9 @@ class MultiSource(Source):
             This will be used to update the training_steps.yaml file to
             account for the correct number of training steps for the most
             recent training step.
+        checkpoint_number : int, optional
+            The number of the checkpoint. If None (default), the number of the
+            latest checkpoint is increased by one.
 
         Raises
         ------
@@ -480,6 +485,9 @@ class MultiSource(Source):
             If the model has changed since it was configured.
 
         """
+        if checkpoint_number is None:
+            checkpoint_number = self.get_latest_checkpoint(dir_path) + 1
+
         for name, sub_component in self.sub_components.items():
 
             # get directory of sub component
@@ -488,9 +496,43 @@ class MultiSource(Source):
             if issubclass(type(sub_component), Model):
                 # save weights of Model sub component
                 sub_component.save_weights(
-                    dir_path=sub_dir_path, max_keep=max_keep,
+                    dir_path=sub_dir_path, max_keep=None,
                     protected=protected, description=description,
-                    num_training_steps=num_training_steps)
+                    num_training_steps=num_training_steps,
+                    checkpoint_number=checkpoint_number)
+
+        # remove old checkpoints once all sub components have the new one
+        if not protected:
+            self._keep_newest_checkpoints(dir_path, max_keep)
+
+    def save_training_settings(self, dir_path, new_training_settings):
+        """Save a new training step with its components and settings.
+
+        Parameters
+        ----------
+        dir_path : str
+            Path to the output directory.
+        new_training_settings : dict, optional
+            If provided, a training step will be created.
+            A dictionary containing the settings of the new training step.
+            This dictionary must contain the following keys:
+
+                config: dict
+                    The configuration settings used to train.
+                components: dict
+                    The components used during training. These typically
+                    include the Loss and Evaluation components.
+        """
+        for name, sub_component in self.sub_components.items():
+
+            # get directory of sub component
+            sub_dir_path = os.path.join(dir_path, name)
+
+            if issubclass(type(sub_component), Model):
+                # save training settings of Model sub component
+                sub_component.save_training_settings(
+                    dir_path=sub_dir_path,
+                    new_training_settings=new_training_settings)
 
     def load_weights(self, dir_path, checkpoint_number=None):
         """Load the model weights.
@@ -502,13 +544,16 @@ class MultiSource(Source):
         checkpoint_number : None, optional
             Optionally specify a certain checkpoint number that should be
             loaded. If checkpoint_number is None (default), then the latest
-            checkpoint will be loaded.
+            checkpoint that exists for all sub components will be loaded.
 
         Raises
         ------
         IOError
             If the checkpoint meta data cannot be found in the input directory.
         """
+        if checkpoint_number is None:
+            checkpoint_number = self._get_newest_checkpoint(dir_path)
+
         for name, sub_component in self.sub_components.items():
 
             # get directory of sub component
@@ -598,6 +643,8 @@ class MultiSource(Source):
                     sub_components_id != id(self.sub_components)):
                 raise ValueError('Tracked components were changed!')
 
+        super(MultiSource, self)._load(dir_path, **kwargs)
+
     def check_source_parameter_creation(self):
         """Check created source input parameters
 
-- 
2.43.0


From f94b35518131a7476e60b85687d0b3443189e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 15/37] fix: removing nan gradients raised an error

tf.is_nan does not exist in tensorflow 2, and the gradients were assigned to
the wrong variables if there is a variable without a gradient.
---
 egenerator/manager/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index e92ab84..44325b8 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -597,8 +597,11 @@ class BaseModelManager(ModelCollection, Model):
         else:
             remove_nan_gradients = False
         if remove_nan_gradients:
-            gradients = [tf.where(tf.is_nan(grad), tf.zeros_like(grad), grad)
-                         for grad in gradients if grad is not None]
+            variables = [var for grad, var in zip(gradients, variables)
+                         if grad is not None]
+            gradients = [
+                tf.where(tf.math.is_nan(grad), tf.zeros_like(grad), grad)
+                for grad in gradients if grad is not None]
 
         if 'clip_gradients_value' in opt_config:
             clip_gradients_value = opt_config['clip_gradients_value']
-- 
2.43.0


From a40b5ea6ba25a1814fb93b2af5896e23a80d559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 16/37] fix: record the number of training steps that were
 performed

The number was one too low, and training for zero iterations raised an error.
---
 egenerator/manager/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 44325b8..d5c43dc 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -865,7 +865,7 @@ class BaseModelManager(ModelCollection, Model):
             # ----------
             if step % opt_config['save_frequency'] == 0 and step != 0:
                 self.save_weights(dir_path=save_dir,
-                                  num_training_steps=step)
+                                  num_training_steps=step + 1)
 
             # -----------------------
             # Profile steps 90 to 100
@@ -880,6 +880,6 @@ class BaseModelManager(ModelCollection, Model):
 
         # save model
         self.save_weights(dir_path=save_dir,
-                          num_training_steps=step,
+                          num_training_steps=num_training_iterations,
                           description='End of training step',
                           protected=True)
-- 
2.43.0


From 716ba2d0a09e19fcb0738540bf3984e23f6a8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 17/37] fix: evaluation modules are evaluated on validation
 batches

---
 egenerator/manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index d5c43dc..fbf70f8 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -848,7 +848,7 @@ class BaseModelManager(ModelCollection, Model):
                 if evaluation_module is not None:
 
                     # get new batch of validation data
-                    val_data_batch = next(train_dataset)
+                    val_data_batch = next(validation_dataset)
 
                     evaluation_module.evaluate(
                         data_batch=val_data_batch,
-- 
2.43.0


From fe1e670b01e51bb93d93acd1a158424dcef905a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 18/37] fix: training with a dot in the name of the manager
 directory

Weights were saved to a directory other than that of the manager, and the
training script did not find the saved manager.
---
 egenerator/manager/base.py | 6 ++++--
 egenerator/train_model.py  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index fbf70f8..027c679 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -693,7 +693,9 @@ class BaseModelManager(ModelCollection, Model):
         self.assert_configured(True)
 
         # deine directories
-        save_dir = self.configuration.config['config']['manager_dir']
+        # (components are saved to the path without its extension)
+        manager_dir = self.configuration.config['config']['manager_dir']
+        save_dir = os.path.splitext(manager_dir)[0]
         train_log_dir = os.path.join(save_dir, 'logs/training')
         val_log_dir = os.path.join(save_dir, 'logs/validation')
         eval_log_dir = os.path.join(save_dir, 'logs/evaluation')
@@ -731,7 +733,7 @@ class BaseModelManager(ModelCollection, Model):
             'config': config,
             'components': training_components,
         }
-        self.save(dir_path=save_dir,
+        self.save(dir_path=manager_dir,
                   description='Starting Training',
                   new_training_settings=new_training_settings,
                   num_training_steps=None,
diff --git a/egenerator/train_model.py b/egenerator/train_model.py
index 539e537..6299f82 100644
--- a/egenerator/train_model.py
+++ b/egenerator/train_model.py
@@ -58,7 +58,8 @@ def main(config_files):
     # Create and configure/load Model Manager
     # ---------------------------------------
     manager_config = config['model_manager_settings']
-    manager_dir = manager_config['config']['manager_dir']
+    # (components are saved to the path without its extension)
+    manager_dir = os.path.splitext(manager_config['config']['manager_dir'])[0]
 
     if manager_config['restore_model']:
         if os.path.exists(os.path.join(manager_dir, 'configuration.yaml')):
-- 
2.43.0


From f99c95939a6da1c620aefa6807ca486bc6672f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 19/37] fix: select the best reconstruction instead of the last
 one

---
 egenerator/manager/reconstruction/modules/reconstruction.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index f740713..5f4ad28 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -340,8 +340,7 @@ class SelectBestReconstruction:
             # check if it has a lower loss
             if reco_results['loss_reco'] < min_loss:
                 min_loss = reco_results['loss_reco']
-                min_results = reco_results
-        min_results = dict(reco_results)
+                min_results = dict(reco_results)
 
         if min_results is None:
 
@@ -349,7 +348,7 @@ class SelectBestReconstruction:
             # For now: just choose last reco_results
             print('Did not find a minimium, choosing last reco: {}!'.format(
                 reco_name))
-            min_results = reco_results
+            min_results = dict(reco_results)
 
         # rename runtime key of result
         min_results['reco_runtime'] = min_results.pop('runtime')
-- 
2.43.0


From 3173e2f9086c7ae58967fcd6d99fad2250b6a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 20/37] fix: datasets with additional arguments for the reading
 of files

---
 egenerator/data/handler/base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 64d7da4..561b71f 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -1111,18 +1111,18 @@ class BaseDataHandler(BaseComponent):
         """
         def get_generator():
             return self.get_batch_generator(
-                    input_data=input_data,
-                    batch_size=batch_size,
-                    sample_randomly=sample_randomly,
-                    pick_random_files_forever=pick_random_files_forever,
-                    file_capacity=file_capacity,
-                    batch_capacity=batch_capacity,
-                    num_jobs=num_jobs,
-                    num_add_files=num_add_files,
-                    num_repetitions=num_repetitions,
-                    num_splits=num_splits,
-                    verbose=verbose,
-                    biased_selection_module=biased_selection_module,
+                    input_data,
+                    batch_size,
+                    sample_randomly,
+                    pick_random_files_forever,
+                    file_capacity,
+                    batch_capacity,
+                    num_jobs,
+                    num_add_files,
+                    num_repetitions,
+                    num_splits,
+                    verbose,
+                    biased_selection_module,
                     *args, **kwargs)
 
         # collect output types and shapes
-- 
2.43.0


From ecd3d90eaeaf7066a71df1afc91f1f7f87e281dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 21/37] fix: boolean data tensors with recent versions of numpy

---
 egenerator/data/handler/base.py | 18 +++++++++---------
 egenerator/data/tensor.py       |  6 ++++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 561b71f..66825f4 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -337,7 +337,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(data[i])
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
 
         return num_events, tuple(data_tensors)
 
@@ -384,7 +384,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(tf.convert_to_tensor(data[i]))
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
         return tuple(data_tensors)
 
     def _get_data_from_frame(self, frame, *args, **kwargs):
@@ -931,7 +931,7 @@ class BaseDataHandler(BaseComponent):
                                     indices[:, 0] = size
                                     batch[i].append(indices)
                             else:
-                                batch[i].append(getattr(np, tensor.dtype)())
+                                batch[i].append(np.dtype(tensor.dtype).type())
                                 # batch[i].append(None)
                         size += 1
 
@@ -944,16 +944,16 @@ class BaseDataHandler(BaseComponent):
                                     if tensor.vector_info is None:
                                         batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype))
 
                                     else:
                                         batch[i] = np.concatenate(
                                                 batch[i], axis=0).astype(
-                                                    getattr(np, tensor.dtype))
+                                                    np.dtype(tensor.dtype))
                                 else:
                                     batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype))
 
                             if verbose:
                                 usage = resource.getrusage(
@@ -979,15 +979,15 @@ class BaseDataHandler(BaseComponent):
                     if exists[i]:
                         if tensor.vector_info is None:
                             batch[i] = np.asarray(
-                                batch[i], dtype=getattr(np, tensor.dtype))
+                                batch[i], dtype=np.dtype(tensor.dtype))
 
                         else:
                             batch[i] = np.concatenate(
                                 batch[i], axis=0).astype(
-                                    getattr(np, tensor.dtype))
+                                    np.dtype(tensor.dtype))
                     else:
                         batch[i] = np.asarray(
-                            batch[i], dtype=getattr(np, tensor.dtype))
+                            batch[i], dtype=np.dtype(tensor.dtype))
                 final_batch_queue.put(tuple(batch))
 
             # mark the end of the batches
diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index a92da26..435f6da 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -95,8 +95,10 @@ class DataTensor(object):
         if not isinstance(self.dtype, str):
             raise ValueError('{!r} != {!r}'.format(type(self.dtype), str))
 
-        if not hasattr(np, self.dtype):
-            raise ValueError('Invalid dtype str: {!r}'.format(self.type))
+        try:
+            np.dtype(self.dtype)
+        except TypeError:
+            raise ValueError('Invalid dtype str: {!r}'.format(self.dtype))
 
         if self.vector_info is not None:
             if self.vector_info['type'] not in ['index', 'value']:
-- 
2.43.0


From 639852e103ae439ff1a12047c58a628cf11d1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 22/37] fix: filter events of tensors that do not exist

---
 egenerator/data/handler/modular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index e28ddba..9dcd847 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -505,7 +505,7 @@ class ModuleDataHandler(BaseDataHandler):
 
                         filtered_batch[value_index] = values
                         filtered_batch[tensor_index] = indices
-            else:
+            elif event_batch[tensor_index] is not None:
                 # This data input is already in event structure and
                 # must simply be concatenated along axis 0.
                 filtered_batch[tensor_index] = \
-- 
2.43.0


From f5af045b8dc46d7434ab600efe69ab57daeedafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 23/37] fix: filter events if none of the remaining ones has
 any pulses

---
 egenerator/data/handler/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 66825f4..2beb1f2 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -560,6 +560,10 @@ class BaseDataHandler(BaseComponent):
         if len(values_list) > 0:
             values_list = np.stack(values_list, axis=0)
             indices_list = np.stack(indices_list, axis=0)
+        elif num_events > 0:
+            # there are no values in any of the events
+            values_list = values[0][:0]
+            indices_list = indices[0][:0]
 
         return values_list, indices_list
 
-- 
2.43.0


From a380bb99e053a131d323506bd123b486144ebb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 24/37] fix: load more than one seed and leading missing values
 from file

---
 egenerator/data/modules/misc/seed_loader.py | 40 +++++++++++----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 7bbfb13..6c07a64 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -126,13 +126,17 @@ class SeedLoaderMiscModule(BaseComponent):
             )
         return configuration, data, {}
 
-    def get_data_from_hdf(self, file):
+    def get_data_from_hdf(self, file, *args, **kwargs):
         """Get misc data from hdf file.
 
         Parameters
         ----------
         file : str
             The path to the hdf file.
+        *args
+            Variable length argument list.
+        **kwargs
+            Arbitrary keyword arguments.
 
         Returns
         -------
@@ -153,39 +157,37 @@ class SeedLoaderMiscModule(BaseComponent):
         num_events_list = []
         missing_value = self.configuration.config['missing_value']
         missing_value_dict = self.configuration.config['missing_value_dict']
-        for tensor in self.data['misc_tensors'].list:
-            seed_name = tensor.name
+        dtype = getattr(np, self.configuration.config['float_precision'])
+        try:
+            for tensor in self.data['misc_tensors'].list:
+                seed_name = tensor.name
 
-            seed_parameters = []
-            try:
+                seed_parameters = []
                 _labels = f[seed_name]
+                num_events = len(_labels)
                 for l in self.configuration.config['seed_parameter_names']:
                     if l in _labels:
                         seed_parameters.append(_labels[l].values)
                     elif l in missing_value_dict:
-                        num_events = len(seed_parameters[-1])
                         seed_parameters.append(
                             [missing_value_dict[l]]*num_events)
                     elif missing_value is not None:
-                        num_events = len(seed_parameters[-1])
                         seed_parameters.append([missing_value]*num_events)
                     else:
                         raise KeyError('Could not find key {!r}'.format(l))
 
-            except Exception as e:
-                self._logger.warning(e)
-                self._logger.warning('Skipping file: {}'.format(file))
-                return None, None
-            finally:
-                f.close()
+                # format cascade parameters
+                seed_parameters = np.array(seed_parameters, dtype=dtype).T
 
-            # format cascade parameters
-            dtype = getattr(np, self.configuration.config['float_precision'])
-            seed_parameters = np.array(seed_parameters, dtype=dtype).T
+                seeds.append(seed_parameters)
+                num_events_list.append(num_events)
 
-            seeds.append(seed_parameters)
-            num_events = len(seed_parameters)
-            num_events_list.append(num_events)
+        except Exception as e:
+            self._logger.warning(e)
+            self._logger.warning('Skipping file: {}'.format(file))
+            return None, None
+        finally:
+            f.close()
 
         # check if number of events matches accross all events
         if not np.all([n == num_events for n in num_events_list]):
-- 
2.43.0


From 733f3692913c65b7eeeee75125fcc7019fe2f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 25/37] fix: check the length of the table in a filter
 constraint

---
 egenerator/data/modules/filters/general_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 80929d1..a678d7e 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -145,6 +145,10 @@ class GeneralFilterModule(BaseComponent):
             else:
                 raise ValueError('Unknown operation: {}'.format(op))
 
+            if len(constraint_mask) != num_events:
+                raise ValueError('{!r} != {!r}'.format(
+                    len(constraint_mask), num_events))
+
             filter_mask = np.logical_and(filter_mask, constraint_mask)
 
         return filter_mask
-- 
2.43.0


From 4ae31491bc6d7c06f1917a3937a15024c8d421ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 26/37] fix: apply filter constraints on columns of frame
 objects

---
 egenerator/data/modules/filters/general_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index a678d7e..d29112f 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -188,10 +188,10 @@ class GeneralFilterModule(BaseComponent):
                 values = np.atleast_1d(frame[key][column])
             else:
                 value_table = frame[key]
-                if key in value_table:
-                    values = np.atleast_1d(value_table[key])
+                if hasattr(value_table, 'keys') and column in value_table:
+                    values = np.atleast_1d(value_table[column])
                 else:
-                    values = np.atleast_1d(getattr(value_table, key))
+                    values = np.atleast_1d(getattr(value_table, column))
 
             if op == '>':
                 constraint_mask = values > threshold
-- 
2.43.0


From fadc4e5d47f3480460e3e10bd0388c26f935f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 27/37] fix: load events without any table of time exclusions

---
 egenerator/data/modules/data/pulse_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 603fab4..f58970d 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -273,7 +273,8 @@ class PulseDataModule(BaseComponent):
             x_dom_exclusions = None
 
         if self.data['time_exclusions_exist']:
-            num_tws = len(time_exclusions['Event'])
+            num_tws = \
+                0 if time_exclusions is None else len(time_exclusions['Event'])
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
@@ -590,6 +591,7 @@ class PulseDataModule(BaseComponent):
                     # gather pulse ids (batch index, string, dom)
                     x_time_exclusions_ids.append([index, string-1, dom-1])
 
+        if self.data['time_exclusions_exist']:
             if x_time_exclusions:
                 x_time_exclusions = np.array(
                     x_time_exclusions, dtype=self.data['np_float_precision'])
-- 
2.43.0


From 844c733871e9f130563a7bbc65ea8fb16a449518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 28/37] fix: shape of the pulses in a frame without pulses

---
 egenerator/data/modules/data/pulse_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index f58970d..b0d80c5 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -552,6 +552,10 @@ class PulseDataModule(BaseComponent):
         x_pulses = np.array(x_pulses, dtype=self.data['np_float_precision'])
         x_pulses_ids = np.array(x_pulses_ids, dtype=np.int32)
 
+        # make sure the shapes are correct if there are no pulses
+        x_pulses = x_pulses.reshape(-1, 3 if add_charge_quantiles else 2)
+        x_pulses_ids = x_pulses_ids.reshape(-1, 3)
+
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
 
-- 
2.43.0


From ebdafe5a60365d0dcca1da2b18c1b37d9e03e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 29/37] fix: remove skipped pulses and time windows of DOMs
 above 60

---
 egenerator/data/modules/data/pulse_data.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index b0d80c5..91bb470 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -293,6 +293,7 @@ class PulseDataModule(BaseComponent):
         x_pulses = np.empty((num_pulses, pulse_dim),
                             dtype=self.data['np_float_precision'])
         x_pulses_ids = np.empty((num_pulses, 3), dtype=np.int32)
+        pulse_mask = np.ones(num_pulses, dtype=bool)
 
         # create array for time data
         x_time_window = np.empty(
@@ -309,6 +310,7 @@ class PulseDataModule(BaseComponent):
             if dom > 60:
                 self._logger.warning(
                     'skipping pulse: {} {}'.format(string, dom))
+                pulse_mask[pulse_index] = False
                 continue
             index = event_dict[(row[1:5])]
 
@@ -336,6 +338,10 @@ class PulseDataModule(BaseComponent):
             if row[10] < x_time_window[index, 0]:
                 x_time_window[index, 0] = row[10]
 
+        # remove the pulses that were skipped
+        x_pulses = x_pulses[pulse_mask]
+        x_pulses_ids = x_pulses_ids[pulse_mask]
+
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
 
@@ -356,12 +362,14 @@ class PulseDataModule(BaseComponent):
         # get time exclusions
         # -------------------
         if time_exclusions is not None:
+            tw_mask = np.ones(num_tws, dtype=bool)
             for tw_index, row in enumerate(time_exclusions.itertuples()):
                 string = row[6]
                 dom = row[7]
                 if dom > 60:
                     self._logger.warning(
                         'skipping tw: {} {}'.format(string, dom))
+                    tw_mask[tw_index] = False
                     continue
                 index = event_dict[(row[1:5])]
 
@@ -373,6 +381,10 @@ class PulseDataModule(BaseComponent):
                 # gather pulse ids (batch index, string, dom)
                 x_time_exclusions_ids[tw_index] = [index, string-1, dom-1]
 
+            # remove the time windows that were skipped
+            x_time_exclusions = x_time_exclusions[tw_mask]
+            x_time_exclusions_ids = x_time_exclusions_ids[tw_mask]
+
         # ------------------
         # get dom exclusions
         # ------------------
-- 
2.43.0


From dcf0ad67c2a3365c11f5541243e27cf79bfdc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 30/37] fix: creation of the muon label module

---
 egenerator/data/modules/labels/muons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/modules/labels/muons.py b/egenerator/data/modules/labels/muons.py
index 37281e8..c429b2a 100644
--- a/egenerator/data/modules/labels/muons.py
+++ b/egenerator/data/modules/labels/muons.py
@@ -27,7 +27,7 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         """
 
         logger = logger or logging.getLogger(__name__)
-        super(CascadeGeneratorLabelModule, self).__init__(logger=logger)
+        super(DummyMuonFixedCascadesLabelModule, self).__init__(logger=logger)
 
     def _configure(self, config_data, trafo_log, float_precision, num_cascades,
                    label_key='LabelsDeepLearning'):
-- 
2.43.0


From f75125b2d19acaa825d15524488a981c059e5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 31/37] fix: pass additional arguments on to the modules of the
 data handler

---
 egenerator/data/handler/modular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index 9dcd847..4705a31 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -533,7 +533,7 @@ class ModuleDataHandler(BaseDataHandler):
             The input data (array-like) as specified in the
             DataTensorList (self.tensors).
         """
-        return self._get_data(file, method='get_from_hdf', *args, **kwargs)
+        return self._get_data(file, 'get_from_hdf', *args, **kwargs)
 
     def _get_data_from_frame(self, frame, *args, **kwargs):
         """Get data from I3Frame.
@@ -553,7 +553,7 @@ class ModuleDataHandler(BaseDataHandler):
             The input data (array-like) as specified in the
             DataTensorList (self.tensors).
         """
-        return self._get_data(frame, method='get_from_frame', *args, **kwargs)
+        return self._get_data(frame, 'get_from_frame', *args, **kwargs)
 
     def _create_data_from_frame(self, frame, *args, **kwargs):
         """Create data from I3Frame.
@@ -575,7 +575,7 @@ class ModuleDataHandler(BaseDataHandler):
         """
 
         return self._get_data(
-            frame, method='create_from_frame', *args, **kwargs)
+            frame, 'create_from_frame', *args, **kwargs)
 
     def _write_data_to_frame(self, data, frame, *args, **kwargs):
         """Write data to I3Frame.
-- 
2.43.0


From bdae80469d2bbcbbfe5ced5ef1dd8cc40605e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 32/37] fix: configuration of the muon label module

---
 egenerator/data/modules/labels/muons.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/egenerator/data/modules/labels/muons.py b/egenerator/data/modules/labels/muons.py
index c429b2a..ab4fcec 100644
--- a/egenerator/data/modules/labels/muons.py
+++ b/egenerator/data/modules/labels/muons.py
@@ -94,11 +94,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
             Description
         """
 
-        # sanity checks:
-        if not isinstance(shift_cascade_vertex, bool):
-            raise TypeError('{!r} is not a boolean value!'.format(
-                shift_cascade_vertex))
-
         data = {}
         data['label_tensors'] = DataTensorList([DataTensor(
                                         name='x_parameters',
@@ -116,7 +111,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         configuration = Configuration(
             class_string=misc.get_full_class_string_of_object(self),
             settings=dict(config_data=config_data,
-                          shift_cascade_vertex=shift_cascade_vertex,
                           trafo_log=trafo_log,
                           float_precision=float_precision,
                           num_cascades=num_cascades,
-- 
2.43.0


From 887921082d20d13df388be40f6e4da705d57decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 33/37] fix: covariances if the minimization is not in the
 transformed space

cov and its companions were only defined for minimize_in_trafo_space=True.
---
 egenerator/manager/reconstruction/modules/covariance.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/covariance.py b/egenerator/manager/reconstruction/modules/covariance.py
index 6591592..27e3bc4 100644
--- a/egenerator/manager/reconstruction/modules/covariance.py
+++ b/egenerator/manager/reconstruction/modules/covariance.py
@@ -157,6 +157,13 @@ class CovarianceMatrix:
                     cov_trafo=result_obj.hess_inv,
                     tensor_name=self.parameter_tensor_name,
                 )
+        else:
+            # the minimization and derivatives are in the original space
+            cov = cov_trafo
+            cov_sand = cov_sand_trafo
+            if hasattr(result_obj, 'hess_inv'):
+                cov_sand_fit = cov_sand_fit_trafo
+                cov_fit = result_obj.hess_inv
 
         results = {
             'cov': cov,
-- 
2.43.0


From b62cb22aef4f87688864e72e74e53c9f148cad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 34/37] fix: reconstruction of test data into the current
 directory

os.makedirs was called with an empty path.
---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 33c7fe0..ca03dc3 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1302,7 +1302,7 @@ class SourceManager(BaseModelManager):
 
         # create directory if needed
         directory = os.path.dirname(reco_config['reco_output_file'])
-        if not os.path.exists(directory):
+        if directory and not os.path.exists(directory):
             os.makedirs(directory)
             self._logger.info('Creating directory: {!r}'.format(directory))
 
-- 
2.43.0


From 5592c32860ea6ab27f6669ff21150b3cd40696e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 35/37] fix: use of managers with a dot in the name of the
 directory

Components are saved to the path without its extension, but the export, the
reconstruction of test data and the configurator looked at the full path.
---
 egenerator/export_manager.py        | 3 +++
 egenerator/reconstruct_test_data.py | 3 ++-
 egenerator/utils/configurator.py    | 9 ++++++---
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/egenerator/export_manager.py b/egenerator/export_manager.py
index 4e4fcbf..f0018cd 100644
--- a/egenerator/export_manager.py
+++ b/egenerator/export_manager.py
@@ -41,6 +41,9 @@ def main(config_files, output_dir, reco_config_file=None):
         Description
     """
 
+    # components are saved to the path without its extension
+    output_dir = os.path.splitext(output_dir)[0]
+
     if os.path.exists(output_dir):
         if not click.confirm(
                 'Directory already exists at destination. Delete {!r}?'.format(
diff --git a/egenerator/reconstruct_test_data.py b/egenerator/reconstruct_test_data.py
index dc6960d..3c5d72a 100644
--- a/egenerator/reconstruct_test_data.py
+++ b/egenerator/reconstruct_test_data.py
@@ -125,7 +125,8 @@ def main(config_files, reco_config_file=None):
     # Create and load Model Manager
     # -----------------------------
     manager_config = config['model_manager_settings']
-    manager_dir = manager_config['config']['manager_dir']
+    # (components are saved to the path without its extension)
+    manager_dir = os.path.splitext(manager_config['config']['manager_dir'])[0]
 
     if manager_config['restore_model']:
         if not os.path.exists(os.path.join(manager_dir, 'configuration.yaml')):
diff --git a/egenerator/utils/configurator.py b/egenerator/utils/configurator.py
index 87a80bc..2b7bea7 100644
--- a/egenerator/utils/configurator.py
+++ b/egenerator/utils/configurator.py
@@ -59,7 +59,9 @@ class ManagerConfigurator:
         else:
             reco_config_dir = [reco_config_dir]
 
-        reco_config_file = os.path.join(reco_config_dir[0], 'reco_config.yaml')
+        # (components are saved to the path without its extension)
+        reco_config_file = os.path.join(
+            os.path.splitext(reco_config_dir[0])[0], 'reco_config.yaml')
 
         tf.random.set_seed(tf_random_seed)
 
@@ -162,8 +164,9 @@ class ManagerConfigurator:
         for manager_dir in manager_dirs:
 
             # adjust manager_dir
-            config_i = SetupManager(
-                [os.path.join(manager_dir, 'reco_config.yaml')]).get_config()
+            config_i = SetupManager([os.path.join(
+                os.path.splitext(manager_dir)[0], 'reco_config.yaml'),
+            ]).get_config()
             config_i['model_manager_settings']['config']['manager_dir'] = \
                 manager_dir
 
-- 
2.43.0


From f4c01b848845e287028de4b89c6a0ac478efbc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 36/37] fix: bounds in fits of some of the parameters

Bounds have to be given for all parameters for the transformation, but were
all passed on to scipy, which raised as the number did not match.
---
 egenerator/manager/source.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index ca03dc3..dc2e761 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -690,6 +690,13 @@ class SourceManager(BaseModelManager):
             # get seed parameters
             x0 = seed_array_trafo[:, fit_paramater_list]
 
+            # bounds are provided for all parameters: choose the fitted ones
+            if 'bounds' in kwargs and \
+                    len(kwargs['bounds']) == len(fit_paramater_list):
+                kwargs['bounds'] = [
+                    bound for bound, fit in zip(kwargs['bounds'],
+                                                fit_paramater_list) if fit]
+
         x0_flat = np.reshape(x0, [-1])
         result = optimize.minimize(fun=func, x0=x0_flat, jac=jac,
                                    method=method,
-- 
2.43.0


From 38e1d3911e1aa8ae0db07a8ebaddae3ebdbefe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 37/37] fix: export the settings in one step

---
 egenerator/export_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/export_manager.py b/egenerator/export_manager.py
index f0018cd..a693911 100644
--- a/egenerator/export_manager.py
+++ b/egenerator/export_manager.py
@@ -105,8 +105,10 @@ def main(config_files, output_dir, reco_config_file=None):
     manager.save(output_dir)
 
     # copy over reco config to output directory
-    shutil.copy(reco_config_file[0],
-                os.path.join(output_dir, 'reco_config.yaml'))
+    # (in one step: a part of it could be taken for the complete config)
+    reco_config_path = os.path.join(output_dir, 'reco_config.yaml')
+    shutil.copy(reco_config_file[0], reco_config_path + '.tmp')
+    os.replace(reco_config_path + '.tmp', reco_config_path)
 
     print('\n====================================')
     print('= Successfully exported model to:  =')
-- 
2.43.0

