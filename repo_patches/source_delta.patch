From 179254846dafd173902d006948cf87e410d1690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 01/33] fix: range(only_new_items=True) must not acquire the
 reader lock again

It called self.read() while already holding the reader lock. With a writer
(the ingestion thread) waiting in between, the inner acquire waits for the
writer and the writer waits for the outer one: a deadlock. Looking the next
item up on the reader that is already locked also fixes the TypeError when
there is nothing new and the key function accepts None.
---
 stream2py/buffer_reader.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..b23f778 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -260,12 +260,9 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above: self.last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From d16379acd237f445edd301b526cd6696ab15a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 02/33] fix: strict_n must accept exactly n available items

read(n, strict_n=True) raised ValueError although n new items were in the
buffer whenever they were the last ones.
---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index b23f778..f3665d4 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -403,7 +403,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From c2813e441cc99b39abf4eaf23f39758962c5c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 03/33] fix: read must use the reader's default for peek

The peek given when making the reader was ignored by read().
---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index f3665d4..6da96a0 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -358,8 +358,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From 021e7084d4f4fdd1c85958cc127ff2818cf9a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 04/33] fix: assigning SortedDeque.key must keep maxlen

The inherited property is bound to SortedCollection._setkey, so SortedDeque's
own _setkey was never used and a new key function removed the bound.
---
 stream2py/utility/sorted_deque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..e454d70 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,10 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    key = property(
+        SortedCollection._getkey, _setkey, SortedCollection._delkey, 'key function'
+    )
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From 5585d88026068b0f6491f9081c2933280530bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 05/33] fix: clearing, copying or resizing a sorted container
 must not break pickling

Without a given key these passed the identity lambda on as if it had been
given, after which the container could not be pickled any more.
---
 stream2py/utility/sorted_collection.py | 4 ++--
 stream2py/utility/sorted_deque.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4dd2757..23b2214 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -97,10 +97,10 @@ class SortedCollection(object):
     key = property(_getkey, _setkey, _delkey, 'key function')
 
     def clear(self):
-        self.__init__([], self._key)
+        self.__init__([], self._given_key)
 
     def copy(self):
-        return self.__class__(self, self._key)
+        return self.__class__(self, self._given_key)
 
     def __len__(self):
         return len(self._items)
diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index e454d70..d317a3a 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -41,7 +41,7 @@ class SortedDeque(SortedCollection):
 
     def _setmaxlen(self, maxlen):
         if maxlen is not self._maxlen:
-            self.__init__(self._items, key=self._key, maxlen=maxlen)
+            self.__init__(self._items, key=self._given_key, maxlen=maxlen)
 
     def _delmaxlen(self):
         self._setmaxlen(None)
@@ -57,10 +57,10 @@ class SortedDeque(SortedCollection):
     )
 
     def clear(self):
-        self.__init__([], self._key, self._maxlen)
+        self.__init__([], self._given_key, self._maxlen)
 
     def copy(self):
-        return self.__class__(self, self._key, self._maxlen)
+        return self.__class__(self, self._given_key, self._maxlen)
 
     def __repr__(self):
         return '%s(%r, key=%s, maxlen=%s)' % (
-- 
2.43.0


From 2f3ba39b4791e1699eaa8c296450427c0a4e8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 06/33] fix: items ingested right before the end of the stream
 must not be lost

Iterating readers and blocking reads looked for the stop only after an empty read, so items that arrived between
the two were never delivered.
---
 stream2py/buffer_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 6da96a0..1a971fb 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -150,8 +150,6 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
@@ -164,11 +162,14 @@ class BufferReader:
         This makes BufferReader compatible with Python's iterator protocol while
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
+        # Must be looked up before reading: items may still arrive up to the stop
+        was_stopped = self.is_stopped
+
         # Call read with the args fixed by init
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and was_stopped:
             raise StopIteration
 
         return result
@@ -377,6 +378,8 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                # Must be looked up before reading: items may still arrive up to the stop
+                was_stopped = self.is_stopped
                 _read = self.read(
                     n,
                     peek=peek,
@@ -386,7 +389,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif was_stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 408ad0e1da08581c34711385b0376804184e40ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 07/33] fix: iterating the stream buffer itself must follow the
 current session

The reader behind next(stream_buffer) was kept over a restart when the session had ended by itself, and thrown away one
second after a stop, so that a following next() delivered everything again instead of ending.
---
 stream2py/stream_buffer.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..6916ba5 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -158,9 +158,11 @@ class StreamBuffer:
         yield from iter(reader)
 
     def __next__(self):
-        if self._next_reader is None:
-            self._next_reader = self.mk_reader()
-        return next(self._next_reader)
+        with self.start_lock:
+            if self._next_reader is None:
+                self._next_reader = self._mk_reader()
+            reader = self._next_reader
+        return next(reader)
 
     def drop(self, n=1):
         """Manually drop items from buffer when auto_drop is False
@@ -179,6 +181,7 @@ class StreamBuffer:
         with self.start_lock:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
+            self._next_reader = None  # iteration follows the new session
             self._set_read_to_buffer_thread_and_source_buffer()
             self._open()
             self._read_to_buffer_thread.start()
@@ -187,7 +190,6 @@ class StreamBuffer:
         """Stop reading and close source_reader"""
         self._stop_event.set()
         time.sleep(1)
-        self._next_reader = None
 
     def mk_reader(self, **read_kwargs) -> BufferReader:
         """ Makes a BufferReader instance for the currently running  StreamBuffer.
@@ -197,12 +199,15 @@ class StreamBuffer:
         :raises StreamNotStartedError: if the StreamBuffer hasn't been started yet
         """
         with self.start_lock:
-            if not isinstance(self.source_buffer, _SourceBuffer):
-                raise StreamNotStartedError(
-                    'StreamBuffer must be started before creating readers. '
-                    'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
-                )
-            return self.source_buffer.mk_reader(**read_kwargs)
+            return self._mk_reader(**read_kwargs)
+
+    def _mk_reader(self, **read_kwargs) -> BufferReader:
+        if not isinstance(self.source_buffer, _SourceBuffer):
+            raise StreamNotStartedError(
+                'StreamBuffer must be started before creating readers. '
+                'Call StreamBuffer.start() or use "with StreamBuffer(...) as buffer:"'
+            )
+        return self.source_buffer.mk_reader(**read_kwargs)
 
     def attach_reader(self, reader):
         """Allows a StreamReader instance to read from this buffer.
-- 
2.43.0


From 5f76bf4867b06dfebbfef80e351cbdb64c09152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 08/33] fix: stopping must not wait for the polling interval to
 elapse

With a polling interval of more than a second the source was still open when stop returned.
---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 6916ba5..96ba772 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -266,7 +266,7 @@ class StreamBuffer:
                 if data is not None:
                     self.source_buffer.append(data)
                 else:
-                    time.sleep(self._sleep_time_on_read_none_s)
+                    self._stop_event.wait(self._sleep_time_on_read_none_s)
         finally:
             if not self._stop_event.is_set():
                 self._stop_event.set()
-- 
2.43.0


From 8587fb06336f754de422508e301bbcc7525200d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 09/33] fix: a restart must wait for the previous session to
 close the source

A read taking longer than the one second stop waits used to go on into the new session: the source was opened while
being read, the item went into the new buffer, and the source was closed under the new session.
---
 stream2py/stream_buffer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 96ba772..7be5d2d 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -280,6 +280,13 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
+        previous_thread = self._read_to_buffer_thread
+        if (
+            previous_thread is not None
+            and previous_thread.is_alive()
+            and previous_thread is not threading.current_thread()
+        ):
+            previous_thread.join()  # it closes the source when its last read is done
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From 0950761a97e03bdfce5047bce1fbb02ecdfd70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 10/33] fix: a failed start must not leave the stream running
 or the source open

When opening the source or getting its info raised, is_running stayed True, and a source opened before its info failed
was never closed.
---
 stream2py/stream_buffer.py | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 7be5d2d..e4cccfe 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -183,7 +183,11 @@ class StreamBuffer:
                 self.stop()
             self._next_reader = None  # iteration follows the new session
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
+            try:
+                self._open()
+            except BaseException:
+                self._stop_event.set()
+                raise
             self._read_to_buffer_thread.start()
 
     def stop(self):
@@ -270,10 +274,7 @@ class StreamBuffer:
         finally:
             if not self._stop_event.is_set():
                 self._stop_event.set()
-            try:
-                self.source_reader.close()
-            except Exception as e:
-                logger.error(e)
+            self._close()
 
     def _set_read_to_buffer_thread_and_source_buffer(self):
         """Initialize source and buffer
@@ -296,15 +297,26 @@ class StreamBuffer:
         Calls source_reader.open() and then sets up source_buffer with latest
         source_reader.info"""
         self.source_reader.open()
-        self.source_buffer = _SourceBuffer(
-            source_reader_info=self.source_reader.info,
-            stop_event=self._stop_event,
-            key=self.source_reader.key,
-            maxlen=self._maxlen,
-            buffer_reader_class=getattr(
-                self.source_reader, 'buffer_reader_class', BufferReader
-            ),
-        )
+        try:
+            self.source_buffer = _SourceBuffer(
+                source_reader_info=self.source_reader.info,
+                stop_event=self._stop_event,
+                key=self.source_reader.key,
+                maxlen=self._maxlen,
+                buffer_reader_class=getattr(
+                    self.source_reader, 'buffer_reader_class', BufferReader
+                ),
+            )
+        except BaseException:
+            self._close()
+            raise
+
+    def _close(self):
+        """Calls source_reader.close(), an error is only logged"""
+        try:
+            self.source_reader.close()
+        except Exception as e:
+            logger.error(e)
 
     # def _mk_contextualized_iterator(self):
     #     """Return next item (entering the context beforehand, if not running).
-- 
2.43.0


From 8bae8700c93420b1a8e895def1a7f67b37ed3bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 11/33] fix: source_reader_info must be there before the first
 item, also during a restart

The buffer was tested by its length, so the info of a running stream was None as long as the buffer was empty, and a
restart between test and use made the query fail.
---
 stream2py/stream_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e4cccfe..6ca087e 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -232,8 +232,9 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
-            return self.source_buffer.source_reader_info
+        source_buffer = self.source_buffer
+        if source_buffer is not None:
+            return source_buffer.source_reader_info
         return None
 
     @property
-- 
2.43.0


From 59f9a05fcd463b318949c9c7e56811cf5e45df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 12/33] fix: an unlimited buffer must work without automatic
 dropping

Comparing the length to maxlen=None ended the read thread with a TypeError.
---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 6ca087e..b7e6446 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -263,7 +263,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From fb5fca260cf2bb3da547525d2e878911a1a87568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 13/33] fix: closing a reader made by a stream buffer must not
 raise

onclose was only declared, so that closing a reader which had none set, or leaving its context, raised AttributeError.
---
 stream2py/buffer_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 1a971fb..ff56fde 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -80,8 +80,8 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
-    onopen: Callable
+    onclose: Callable = None
+    onopen: Callable = None
 
     def __init__(
         self,
-- 
2.43.0


From 280a424a6d708585b807cac98e360e4faf75e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 14/33] fix: a stream source must restart when a reader is
 opened after the last one was closed

The buffer was started only when it was made, so that readers opened after the last one had been closed, after the
session had ended, or after a failed open, never got a running stream.
---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..9a4839a 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -103,6 +103,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if not self._stream_buffer.is_running:
             self._stream_buffer.start()
 
     def _handle_reader_open(self):
-- 
2.43.0


From f4c65957792d75942e37812aa483262cabbc84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 15/33] fix: closing a reader of a stream source again must not
 count twice

Closing one reader twice closed the source under the other readers.
---
 stream2py/stream_source.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 9a4839a..756c5aa 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -131,9 +131,19 @@ class StreamSource(Source, metaclass=ABCMeta):
         )
         self._handle_reader_open()
         new_reader.open()
-        new_reader.onclose = self._handle_reader_closed
+        new_reader.onclose = self._mk_onclose()
         return new_reader
 
+    def _mk_onclose(self):
+        closed = []
+
+        def onclose():
+            if not closed:  # a reader may be closed more than once, but counts once
+                closed.append(True)
+                self._handle_reader_closed()
+
+        return onclose
+
     def set_sleep_time_on_iter_none(self, sleep_time_s: Union[int, float] = 0.1):
         """Set the sleep time of the iter yield loop when next data item is not yet available.
 
-- 
2.43.0


From d282680b757ac65500d4f1f1e92455b0f86b705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 16/33] fix: readers of a stream source may be opened and
 closed from several threads

The count of open readers and the start of the buffer were not protected: readers opened or closed at the same time
could leave the source open forever, close it under an open reader, or open it twice.
---
 stream2py/stream_source.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 756c5aa..b9482f8 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -4,6 +4,7 @@ as next(), range(), head(), tail().  Each BufferReader instance has it's own cur
 what data was last seen."""
 
 from abc import ABCMeta, abstractmethod
+import threading
 import time
 from typing import Optional, Union
 
@@ -106,6 +107,11 @@ class StreamSource(Source, metaclass=ABCMeta):
         if not self._stream_buffer.is_running:
             self._stream_buffer.start()
 
+    @property
+    def _reader_lock(self):
+        # made on first use as subclasses may not call __init__
+        return self.__dict__.setdefault('_reader_lock_instance', threading.RLock())
+
     def _handle_reader_open(self):
         self._open_readers += 1
 
@@ -123,13 +129,14 @@ class StreamSource(Source, metaclass=ABCMeta):
         :param ignore_no_item_found: if True, by default return None when no next item
             instead of raising exception during a read
         """
-        self._ensure_buffer()
-        new_reader = self._stream_buffer.mk_reader(
-            read_size=read_size,
-            strict_n=strict_n,
-            ignore_no_item_found=ignore_no_item_found,
-        )
-        self._handle_reader_open()
+        with self._reader_lock:
+            self._ensure_buffer()
+            new_reader = self._stream_buffer.mk_reader(
+                read_size=read_size,
+                strict_n=strict_n,
+                ignore_no_item_found=ignore_no_item_found,
+            )
+            self._handle_reader_open()
         new_reader.open()
         new_reader.onclose = self._mk_onclose()
         return new_reader
@@ -138,9 +145,10 @@ class StreamSource(Source, metaclass=ABCMeta):
         closed = []
 
         def onclose():
-            if not closed:  # a reader may be closed more than once, but counts once
-                closed.append(True)
-                self._handle_reader_closed()
+            with self._reader_lock:
+                if not closed:  # a reader may be closed more than once, but counts once
+                    closed.append(True)
+                    self._handle_reader_closed()
 
         return onclose
 
-- 
2.43.0


From b470a652b8987a434bb0eac00f350f773b498409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 17/33] fix: mk_stream_buffer must not make items of reads
 without data

With enumerate_data (the default) a read of None was wrapped to (index, None): never waiting for data, the stream
filled the buffer with these and pushed the real data out.
---
 stream2py/simply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..244dc88 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,6 +96,8 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
+            if read_data is None:
+                return None  # no data yet
             if enumerate_data:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
-- 
2.43.0


From cbc1d2a24a970f8435eff3a373cd60a094d4ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 18/33] fix: the HTTP source must send the configured request
 and decode characters split across chunks

---
 stream2py/sources/http.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..ad6efe4 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -9,6 +9,7 @@ HTTP Response streaming reader with no external dependencies
 
 """
 
+import codecs
 import urllib.request
 from typing import Union, Optional
 import time
@@ -52,12 +53,12 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        elif isinstance(body, str):
+            body = body.encode()
 
         self._url = url
         self._n_bytes_read = 0
-        self._request = urllib.request.Request(
-            url, data=body, headers=headers, method=method
-        )
+        self._request_kwargs = dict(data=body, headers=headers, method=method)
         if response_read_args is None:
             response_read_args = ()
         if not isinstance(response_read_args, tuple):
@@ -98,10 +99,11 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
-        request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
-        )
-        self._response = urllib.request.urlopen(request)
+        self._request = urllib.request.Request(self._url, **self._request_kwargs)
+        encoding = self._init_kwargs.get('encoding')
+        self._decoder = codecs.getincrementaldecoder(encoding)() if encoding else None
+        self._n_bytes_read = 0
+        self._response = urllib.request.urlopen(self._request)
 
     def close(self):
         if self._response:
@@ -109,14 +111,21 @@ class HTTPResponseReader(SourceReader):
             self._response = None
 
     def read(self):
-        """Returns a chunk of raw binary data.
+        """Returns (timestamp, chunk), the chunk being bytes or, with an encoding, str.
+        Returns None when there is no more data.
         """
-        encoding = self._init_kwargs.get('encoding')
-        result = self._response.read(*self.response_read_args)
-        timestamp = time.time()
-        if encoding:
-            result = result.decode(encoding)
-        return timestamp, result
+        while True:
+            result = self._response.read(*self.response_read_args)
+            timestamp = time.time()
+            at_end = not result
+            self._n_bytes_read += len(result)
+            if self._decoder:
+                # a chunk may end within a character: the rest comes with the next one
+                result = self._decoder.decode(result, final=at_end)
+            if result:
+                return timestamp, result
+            if at_end:
+                return None
 
 
 def _test_run_HTTPResponseReader(url, **kwargs):
-- 
2.43.0


From e1ffd909fb4fed75b2c5f962bb929201835599c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 19/33] fix: exit functions that cannot take the exception
 details must be rejected

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 758a7b9..600067a 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -55,7 +55,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From 965e0098e315d3358db38cf65eccff94ca05839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 20/33] fix: wrapping a ContextualizeCall must not replace the
 enter and exit functions

---
 stream2py/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 600067a..03e0ed7 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -125,12 +125,12 @@ class ContextualizeCall:
             f'Not a valid exit function (should be a callable with at least one arg or '
             f'varadic args): {exit_func}',
         )
-        # assignment
+        # wrapping self with attributes of func (signature, name, etc.)
+        wraps(func)(self)
+        # assignment (after wrapping: func may have attributes of these names)
         self.func = func
         self.enter_func = enter_func
         self.exit_func = exit_func
-        # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
 
     def __call__(self, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From 55ffd50f2d33252f73ae48466b3a5762f672c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 21/33] fix: get_timestamp of stream sources must find its
 conversion factor

---
 stream2py/stream_source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index b9482f8..889c90b 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -175,6 +175,8 @@ class StreamSource(Source, metaclass=ABCMeta):
         """
         return None
 
+    timestamp_seconds_to_unit_conversion = timestamp_seconds_to_unit_conversion
+
     @classmethod
     def get_timestamp(cls) -> int:
         """Get timestamp of now as int microseconds
-- 
2.43.0


From 4fdf72c5ddd55e3b8592f46e6754203c9d10732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 22/33] fix: reading the configs of all sections must read
 sections

---
 pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index 9b19fe3..86079a1 100644
--- a/pack.py
+++ b/pack.py
@@ -69,7 +69,7 @@ def read_configs(
     if section is None:
         d = dict(c)
         if postproc:
-            d = {k: dict(postproc(v)) for k, v in c}
+            d = {k: dict(postproc(v)) for k, v in c.items()}
     else:
         d = dict(c[section])
         if postproc:
-- 
2.43.0


From 60ec827b62a62376cde50ca5eb18163c9ef1585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 23/33] fix: ujoin must ignore empty parts and not double
 slashes

---
 pack.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pack.py b/pack.py
index 86079a1..4cb33c4 100644
--- a/pack.py
+++ b/pack.py
@@ -177,11 +177,15 @@ def ujoin(*args):
     >>> ujoin()
     ''
     """
-    if len(args) == 0 or len(args[0]) == 0:
-        return ''
+    args = [x for x in args if x]
+    parts = [x[x.startswith('/') :] for x in args]
+    parts = [x[:-1] if x.endswith('/') else x for x in parts]
+    url = '/'.join(x for x in parts if x)
+    if not url:
+        return '/' if args else ''
     return (
         (args[0][0] == '/') * '/'  # prepend slash if first arg starts with it
-        + '/'.join(x[(x[0] == '/') : (len(x) - (x[-1] == '/'))] for x in args)
+        + url
         + (args[-1][-1] == '/') * '/'
     )  # append slash if last arg ends with it
 
-- 
2.43.0


From 32ee45b119b6147a3664d1e532d26e34a2e00c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 24/33] fix: cyclic references in templates must raise
 ValueError instead of growing

---
 pack.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pack.py b/pack.py
index 4cb33c4..c0f8618 100644
--- a/pack.py
+++ b/pack.py
@@ -225,6 +225,15 @@ def _fields_to_format(d):
             yield from partial_formatter.format_fields_set(v)
 
 
+def _raise_if_cyclic(d, keys, path=()):
+    # A cycle never resolves, and its values could grow beyond memory while trying.
+    for k in keys:
+        if k in path:
+            raise ValueError(f'These fields refer to each other: {path}')
+        if k in d:
+            _raise_if_cyclic(d, set(_fields_to_format({k: d[k]})), path + (k,))
+
+
 def format_str_vals_of_dict(d, *, max_formatting_loops=10, **kwargs):
     """
 
@@ -283,6 +292,8 @@ def format_str_vals_of_dict(d, *, max_formatting_loops=10, **kwargs):
             + f"  {', '.join(missing_fields)}"
         )
 
+    _raise_if_cyclic({**kwargs, **d}, d)
+
     for i in range(max_formatting_loops):
         unformatted = set(_unformatted(d))
 
-- 
2.43.0


From d18dc241996380efce47bf3af9fb77181bba1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 25/33] fix: iterating a stream source must wait for data
 instead of raising AttributeError

---
 stream2py/stream_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 889c90b..e694a78 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -72,7 +72,7 @@ class StreamSource(Source, metaclass=ABCMeta):
             _next = self.read()
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
+            elif getattr(self, 'is_stopped', False):
                 return None
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 3a07fb72e4ed2b212ae490900fbcbad76d7d728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 26/33] fix: building, copying or re-keying a sorted container
 must not compare items with equal keys

---
 stream2py/utility/sorted_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 23b2214..21d31b2 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -79,7 +79,9 @@ class SortedCollection(object):
     def __init__(self, iterable=(), key=None):
         self._given_key = key
         key = (lambda x: x) if key is None else key
-        decorated = sorted((key(item), item) for item in iterable)
+        decorated = sorted(
+            ((key(item), item) for item in iterable), key=lambda pair: pair[0]
+        )
         self._keys = [k for k, item in decorated]
         self._items = [item for k, item in decorated]
         self._key = key
-- 
2.43.0


From be5640f328f225c719a9b7fa09ef71b67d3caa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 27/33] fix: a stream source must make readers of the class it
 was given

---
 stream2py/stream_source.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index e694a78..fe281a2 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -60,12 +60,13 @@ class StreamSource(Source, metaclass=ABCMeta):
 
     _buffer_kwargs: dict = {}
     _open_readers = 0
-    _reader_cls = BufferReader
+    buffer_reader_class = BufferReader  # looked up by StreamBuffer
     _sleep_time_on_iter_none_s = 0.001
     _stream_buffer: StreamBuffer = None
 
-    def __init__(self, *, reader_cls=BufferReader):
-        self._reader_cls = reader_cls
+    def __init__(self, *, reader_cls=None):
+        if reader_cls is not None:
+            self.buffer_reader_class = reader_cls
 
     def __iter__(self):
         while True:
-- 
2.43.0


From bbfb7dac4431bbd4b27601eab0c00d110291933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 28/33] fix: the first read of a reader must not compare keys
 with None

---
 stream2py/buffer_reader.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ff56fde..74e4dda 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -307,17 +307,14 @@ class BufferReader:
         with self._buffer.reader_lock() as reader:
             if only_new_items:
                 try:
-                    item = reader.find_last_gt(self.last_key)
+                    if self.last_key is None and len(reader) > 0:
+                        item = reader[-1]  # first time reading a value from buffer
+                    else:
+                        item = reader.find_last_gt(self.last_key)
                 except ValueError as e:  # ValueError: No item found with key above: self.last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-                except TypeError as e:
-                    # TypeError: '>' not supported between instances of type(key) and 'NoneType'
-                    if self.last_item is None:  # first time reading a value from buffer
-                        item = reader[-1]
-                    else:
-                        raise e
             else:
                 try:
                     item = reader[-1]
@@ -396,18 +393,15 @@ class BufferReader:
 
         with self._buffer.reader_lock() as reader:
             try:
-                next_item = reader.find_gt(self.last_key)
+                if self.last_key is None and len(reader) > 0:
+                    next_item = reader[0]  # first time reading a value from buffer
+                else:
+                    next_item = reader.find_gt(self.last_key)
             except ValueError as e:  # ValueError: No item found with key above:
                 # self.last_key
                 if ignore_no_item_found:
                     return None
                 raise e
-            except TypeError as e:
-                # TypeError: '<' not supported between instances of 'NoneType' and type(key)
-                if self.last_item is None:  # first time reading a value from buffer
-                    next_item = reader[0]
-                else:
-                    raise e
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-- 
2.43.0


From 6f50a69cc5d0f18d0a3f7573e7cc06f25095f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 29/33] fix: chunks of the HTTP source read within one clock
 tick must not end the stream

---
 stream2py/sources/http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index ad6efe4..e568099 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -24,6 +24,7 @@ class HTTPResponseReader(SourceReader):
     _init_kwargs: dict
     _url: str
     _response = ''
+    _timestamp = 0.0
 
     def __init__(
         self,
@@ -116,7 +117,9 @@ class HTTPResponseReader(SourceReader):
         """
         while True:
             result = self._response.read(*self.response_read_args)
-            timestamp = time.time()
+            # later than the one before, whatever the clock does: items are sorted by it
+            timestamp = max(time.time(), self._timestamp + 1e-6)
+            self._timestamp = timestamp
             at_end = not result
             self._n_bytes_read += len(result)
             if self._decoder:
-- 
2.43.0


From 1e5914cd3a2fb57b66a1fc624f4ddcf7ce9f2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:21 +0000
Subject: [PATCH 30/33] fix: a reader that cannot be made must not leave the
 stream source open

---
 stream2py/stream_source.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index fe281a2..b012830 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -132,14 +132,19 @@ class StreamSource(Source, metaclass=ABCMeta):
         """
         with self._reader_lock:
             self._ensure_buffer()
-            new_reader = self._stream_buffer.mk_reader(
-                read_size=read_size,
-                strict_n=strict_n,
-                ignore_no_item_found=ignore_no_item_found,
-            )
             self._handle_reader_open()
-        new_reader.open()
-        new_reader.onclose = self._mk_onclose()
+            onclose = self._mk_onclose()
+            try:
+                new_reader = self._stream_buffer.mk_reader(
+                    read_size=read_size,
+                    strict_n=strict_n,
+                    ignore_no_item_found=ignore_no_item_found,
+                )
+                new_reader.open()
+            except BaseException:
+                onclose()  # a reader that did not come about is not open
+                raise
+        new_reader.onclose = onclose
         return new_reader
 
     def _mk_onclose(self):
-- 
2.43.0


From d9f85f847e31e82e85fedd8911b33baf325cee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:27 +0000
Subject: [PATCH 31/33] fix: a restart must not hold the lock of the stream
 while the last read is done

start() joined the thread of the previous session under start_lock; a source whose
read or close uses the stream (is_running, mk_reader, next) then waited for start_lock
for ever.
---
 stream2py/stream_buffer.py | 43 ++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index b7e6446..0e3e1e0 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -178,17 +178,31 @@ class StreamBuffer:
 
     def start(self):
         """Open and start reading from source_reader into buffer"""
-        with self.start_lock:
-            if self._stop_event and not self._stop_event.is_set():
-                self.stop()
-            self._next_reader = None  # iteration follows the new session
-            self._set_read_to_buffer_thread_and_source_buffer()
-            try:
-                self._open()
-            except BaseException:
-                self._stop_event.set()
-                raise
-            self._read_to_buffer_thread.start()
+        while True:
+            with self.start_lock:
+                if self._stop_event and not self._stop_event.is_set():
+                    self.stop()
+                previous_thread = self._read_to_buffer_thread
+                if (
+                    previous_thread is None
+                    or not previous_thread.is_alive()
+                    or previous_thread is threading.current_thread()
+                ):
+                    self._start()
+                    return
+            # it closes the source when its last read is done. Wait without the lock: the
+            # read may be using this stream
+            previous_thread.join()
+
+    def _start(self):
+        self._next_reader = None  # iteration follows the new session
+        self._set_read_to_buffer_thread_and_source_buffer()
+        try:
+            self._open()
+        except BaseException:
+            self._stop_event.set()
+            raise
+        self._read_to_buffer_thread.start()
 
     def stop(self):
         """Stop reading and close source_reader"""
@@ -286,13 +300,6 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
-        previous_thread = self._read_to_buffer_thread
-        if (
-            previous_thread is not None
-            and previous_thread.is_alive()
-            and previous_thread is not threading.current_thread()
-        ):
-            previous_thread.join()  # it closes the source when its last read is done
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From 90097930e57539f6ba68f56811f7cdb452386d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:32 +0000
Subject: [PATCH 32/33] fix: opening a reader must not hold the lock of the
 readers while the last read is done

open_reader() waited for the thread of the previous session under the lock of the
readers; a read (or close) of the source that closes a reader then waited for ever.
---
 stream2py/stream_source.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index b012830..e75909d 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -105,8 +105,22 @@ class StreamSource(Source, metaclass=ABCMeta):
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
-        if not self._stream_buffer.is_running:
-            self._stream_buffer.start()
+        while not self._stream_buffer.is_running:
+            previous_thread = self._stream_buffer._read_to_buffer_thread
+            if (
+                previous_thread is None
+                or not previous_thread.is_alive()
+                or previous_thread is threading.current_thread()
+            ):
+                self._stream_buffer.start()
+                return
+            # it closes the source when its last read is done. Wait without the lock: the
+            # read may be closing a reader
+            self._reader_lock.release()
+            try:
+                previous_thread.join()
+            finally:
+                self._reader_lock.acquire()
 
     @property
     def _reader_lock(self):
-- 
2.43.0


From 059240e02bcae8d9bb89bf6b211fa1c0f3767435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:40 +0000
Subject: [PATCH 33/33] fix: an interrupt while waiting for the reader-writer
 lock leaves it usable

A reader or writer interrupted in its wait (KeyboardInterrupt) left the inner
locks and counters taken, and the context managers then released a lock that
was never acquired: every later reader or writer hung.
---
 stream2py/utility/locked_sorted_deque.py |  4 ++--
 stream2py/utility/reader_writer_lock.py  | 23 ++++++++++++-----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/stream2py/utility/locked_sorted_deque.py b/stream2py/utility/locked_sorted_deque.py
index 17d1d12..a516de3 100644
--- a/stream2py/utility/locked_sorted_deque.py
+++ b/stream2py/utility/locked_sorted_deque.py
@@ -39,16 +39,16 @@ class RWLockSortedDeque(RWLock):
 
     @contextmanager
     def reader_lock(self) -> Generator[SortedDeque, None, None]:
+        self.reader_acquire()
         try:
-            self.reader_acquire()
             yield self._sorted_deque
         finally:
             self.reader_release()
 
     @contextmanager
     def writer_lock(self):
+        self.writer_acquire()
         try:
-            self.writer_acquire()
             yield self._sorted_deque
         finally:
             self.writer_release()
diff --git a/stream2py/utility/reader_writer_lock.py b/stream2py/utility/reader_writer_lock.py
index fda1300..59df93a 100644
--- a/stream2py/utility/reader_writer_lock.py
+++ b/stream2py/utility/reader_writer_lock.py
@@ -39,18 +39,20 @@ class RWLock:
         cases (see [2] for a discussion)"""
 
     def reader_acquire(self):
-        self.__readers_queue.acquire()
-        self.__no_readers.acquire()
-        self.__read_switch.acquire(self.__no_writers)
-        self.__no_readers.release()
-        self.__readers_queue.release()
+        with self.__readers_queue, self.__no_readers:
+            self.__read_switch.acquire(self.__no_writers)
 
     def reader_release(self):
         self.__read_switch.release(self.__no_writers)
 
     def writer_acquire(self):
         self.__write_switch.acquire(self.__no_readers)
-        self.__no_writers.acquire()
+        try:
+            self.__no_writers.acquire()
+        except BaseException:
+            # interrupted while waiting: this writer does not get the lock
+            self.__write_switch.release(self.__no_readers)
+            raise
 
     def writer_release(self):
         self.__no_writers.release()
@@ -66,11 +68,10 @@ class _LightSwitch:
         self.__mutex = threading.Lock()
 
     def acquire(self, lock):
-        self.__mutex.acquire()
-        self.__counter += 1
-        if self.__counter == 1:
-            lock.acquire()
-        self.__mutex.release()
+        with self.__mutex:
+            if self.__counter == 0:
+                lock.acquire()
+            self.__counter += 1
 
     def release(self, lock):
         self.__mutex.acquire()
-- 
2.43.0

