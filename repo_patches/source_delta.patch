From c7f479cd0613d2bb8748538639c7d56869bb8024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 001/158] fix: do not call the referenced object when rendering
 a weak callable

The repr of a `WeakCallable` called the referenced callable. A weak timer whose callback raised was called for the
second time while the error was reported, and the error raised by that call stopped the event loop.
---
 scarletio/utils/weak_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/weak_core.py b/scarletio/utils/weak_core.py
index 16ec784..3d45a56 100755
--- a/scarletio/utils/weak_core.py
+++ b/scarletio/utils/weak_core.py
@@ -132,7 +132,7 @@ class WeakReferer(WeakrefType):
     def __repr__(self):
         repr_parts = ['<', type(self).__name__]
         
-        value = self()
+        value = WeakReferer.__call__(self) # subtypes may override `__call__`
         if value is None:
             repr_parts.append(' (dead)')
         else:
-- 
2.43.0


From 89e27adc062424ca60bedde221ffffd25172c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 002/158] fix: deliver the cancellation of a task whose awaited
 future is already done

---
 scarletio/core/traps/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index 34f6ee7..87185fd 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -147,9 +147,10 @@ class Task(Future):
                 )
             
             waited_future = self._waited_future
-            if (waited_future is None) or waited_future.cancel():
-                state |= FUTURE_STATE_CANCELLING_SELF
+            if (waited_future is not None):
+                waited_future.cancel()
             
+            state |= FUTURE_STATE_CANCELLING_SELF
             self._result = exception
             result = 1
         
-- 
2.43.0


From c7abb0fdab887e180ae070f0a86a0f7141179f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 003/158] fix: pass the lock on when its new owner is cancelled
 before waking up, and isolate lock.__await__ from cancellations

---
 scarletio/core/traps/locks.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/traps/locks.py b/scarletio/core/traps/locks.py
index 2ebe9d5..de09d25 100755
--- a/scarletio/core/traps/locks.py
+++ b/scarletio/core/traps/locks.py
@@ -72,7 +72,8 @@ class Lock:
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The lock was already passed to us, pass it further.
+                    self.release()
                 
                 raise
     
@@ -111,7 +112,8 @@ class Lock:
         """
         waiters = self._waiters
         while waiters:
-            yield from waiters[0]
+            # Do not wait on the waiter directly, since it would be cancelled with us, or cancel us.
+            yield from waiters[0].async_wrap(self._loop).wait_for_completion().__await__()
     
     __await__ = __iter__
     
@@ -217,7 +219,8 @@ class ScarletLock(Lock):
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The lock was already passed to us, pass it further.
+                    self.release()
                 
                 raise
     
-- 
2.43.0


From 56207dd7038e91da7bb8bd2caa19b5c8f5550b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 004/158] fix: do not fail leaving a timed out Timeout without
 exception

---
 scarletio/web_common/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/helpers.py b/scarletio/web_common/helpers.py
index 820cdb9..9277807 100755
--- a/scarletio/web_common/helpers.py
+++ b/scarletio/web_common/helpers.py
@@ -309,7 +309,11 @@ class Timeout:
         
         state = self._state
         self._state = TIMEOUT_STATE_EXITED
-        if (state == TIMEOUT_STATE_TIMED_OUT) and issubclass(exception_type, CancelledError):
+        if (
+            (state == TIMEOUT_STATE_TIMED_OUT) and
+            (exception_type is not None) and
+            issubclass(exception_type, CancelledError)
+        ):
             raise TimeoutError from None
         
         return False
-- 
2.43.0


From b66fec05c7385cb8830b95aeee537b329156a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 005/158] fix: do not lose, duplicate or reorder queue elements
 when getters or setters are concurrent or cancelled

---
 scarletio/core/traps/queues.py | 339 ++++++++++++++++-----------------
 1 file changed, 167 insertions(+), 172 deletions(-)

diff --git a/scarletio/core/traps/queues.py b/scarletio/core/traps/queues.py
index 60b24c0..acee059 100755
--- a/scarletio/core/traps/queues.py
+++ b/scarletio/core/traps/queues.py
@@ -27,17 +27,20 @@ class AsyncQueue:
     _loop : ``EventThread``
         The loop to what the queue is bound to.
     
+    _max_length : `None | int`
+        The maximal length of the queue.
+    
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
     
     _set_result_waiters : `None`, `list` of ``Future``
         Result setter waiters for the queue to become empty.
     
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _waiters : `deque` of ``Future``
+        If the queue is empty and it's result is already waited, then the waiters' futures are in here. Each
+        ``.set_result`` call feeds the first of them, while a ``.set_exception`` call feeds all of them.
     """
-    __slots__ = ('_exception', '_loop', '_results', '_set_result_waiters', '_waiter',)
+    __slots__ = ('_exception', '_loop', '_max_length', '_results', '_set_result_waiters', '_waiters',)
     
     def __new__(cls, loop, iterable = None, max_length = None, exception = None):
         """
@@ -75,8 +78,9 @@ class AsyncQueue:
         
         self = object.__new__(cls)
         self._loop = loop
-        self._results = results
-        self._waiter = None
+        self._max_length = max_length
+        self._results = deque(results)
+        self._waiters = deque()
         self._exception = exception
         self._set_result_waiters = None
         return self
@@ -85,7 +89,7 @@ class AsyncQueue:
     def set_result(self, element):
         """
         Puts the given `element` on the queue. If the queue is empty and it's result is already waited, feeds it to
-        ``._waiter`` instead.
+        the first of ``._waiters`` instead.
         
         Parameters
         ----------
@@ -98,21 +102,16 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`.
         """
         # should we raise InvalidStateError?
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result = 1
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+        if self._feed_waiter(element):
+            return 0
+        
+        results = self._results
+        max_length = self._max_length
+        if (max_length is None) or (len(results) < max_length):
+            results.append(element)
+            return 0
         
-        return set_result
+        return 1
     
     
     async def set_result_wait(self, element):
@@ -132,55 +131,52 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`. If you needed to wait
             for setting the result, returns `2`.
         """
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
+        if not self.set_result(element):
+            return 0
+        
+        waiter = None
+        while True:
+            set_result_waiters = self._set_result_waiters
+            if (set_result_waiters is None):
+                set_result_waiters = []
+                self._set_result_waiters = set_result_waiters
+            
+            # If our place got taken meanwhile we were waking up we continue waiting at the front.
+            if waiter is None:
+                index = len(set_result_waiters)
             else:
-                set_result_waiters = self._set_result_waiters
-                if (set_result_waiters is None):
-                    set_result_waiters = []
-                    self._set_result_waiters = set_result_waiters
-                
-                waiter = Future(self._loop)
-                
-                set_result_waiters.append(waiter)
-                
+                index = 0
+            
+            waiter = Future(self._loop)
+            set_result_waiters.insert(index, waiter)
+            
+            try:
+                can_set_result = await waiter
+            except:
                 try:
-                    can_set_result = await waiter
-                except:
-                    try:
-                        set_result_waiters.remove(waiter)
-                    except ValueError:
-                        pass
-                    else:
-                        if not set_result_waiters:
-                            self._set_result_waiters = None
-                    
-                    raise
-                
+                    set_result_waiters.remove(waiter)
+                except ValueError:
+                    # We might have been notified already. Notify someone else instead.
+                    self._poll_from_set_result_waiters()
                 else:
-                    if can_set_result:
-                        results.append(element)
-                        set_result = 2
-                    else:
-                        set_result = 1
+                    if (not set_result_waiters) and (self._set_result_waiters is set_result_waiters):
+                        self._set_result_waiters = None
                 
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
-        
-        return set_result
+                raise
+            
+            if not can_set_result:
+                return 1
+            
+            if not self.set_result(element):
+                # We might have fed someone, so there is still space for others.
+                self._poll_from_set_result_waiters()
+                return 2
     
     
     def set_exception(self, exception):
         """
         Sets the given `exception` to raise, when it's queue gets empty. If the queue is empty and it's result is
-        already waited, feeds it to ``._waiter`` instead.
+        already waited, feeds it to the waiters too.
         
         Parameters
         ----------
@@ -203,10 +199,9 @@ class AsyncQueue:
         
         self._exception = exception
         
-        waiter = self._waiter
-        if (waiter is not None):
-            self._waiter = None
-            waiter.set_exception_if_pending(exception)
+        waiters = self._waiters
+        while waiters:
+            waiters.popleft().set_exception_if_pending(exception)
         
         # cancel all waiters
         set_result_waiters = self._set_result_waiters
@@ -234,23 +229,21 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            return results.popleft()
+        if self._results:
+            return self.get_result_no_wait()
         
         exception = self._exception
         if exception is not None:
             raise exception
         
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
+        waiter = Future(self._loop)
+        self._waiters.append(waiter)
         
         try:
             return (yield from waiter)
-        finally:
-            self._poll_from_set_result_waiters()
+        except:
+            self._abandon_waiter(waiter)
+            raise
     
     get_result = to_coroutine(copy_func(__await__))
     
@@ -259,21 +252,86 @@ class AsyncQueue:
         return self.get_result
     
     
+    def _feed_waiter(self, element):
+        """
+        Feeds the given element to the first waiter if there is any.
+        
+        Parameters
+        ----------
+        element : `object`
+            The element to feed.
+        
+        Returns
+        -------
+        fed : `bool`
+        """
+        waiters = self._waiters
+        while waiters:
+            if waiters.popleft().set_result_if_pending(element):
+                return True
+        
+        return False
+    
+    
+    def _abandon_waiter(self, waiter):
+        """
+        Called when waiting on a waiter is interrupted. If it was already fed with an element, that element is given to
+        the next waiter, or is put back on the queue.
+        
+        Parameters
+        ----------
+        waiter : ``Future``
+            The abandoned waiter.
+        """
+        try:
+            self._waiters.remove(waiter)
+        except ValueError:
+            pass
+        
+        if waiter.is_done() and (not waiter.is_cancelled()) and (waiter.get_exception() is None):
+            element = waiter.get_result()
+            if not self._feed_waiter(element):
+                self._put_back_result(element)
+    
+    
+    def _take_result(self):
+        """
+        Removes and returns the next element of the queue. The queue must not be empty.
+        
+        Returns
+        -------
+        result : `object`
+        """
+        return self._results.popleft()
+    
+    
+    def _put_back_result(self, element):
+        """
+        Puts back an element on the queue, so it will be the next one.
+        
+        Parameters
+        ----------
+        element : `object`
+            The element to put back.
+        """
+        self._results.appendleft(element)
+    
+    
     def _poll_from_set_result_waiters(self):
         """
-        Polls one future from set result waiters.
+        Notifies as many result setter waiters as many elements we have space for.
         """
         set_result_waiters = self._set_result_waiters
-        if (set_result_waiters is not None):
-            while True:
-                set_result = set_result_waiters.pop(0).set_result_if_pending(True)
-                
-                if (not set_result_waiters):
-                    self._set_result_waiters = None
-                    break
-                
-                if set_result == 1:
-                    break
+        if (set_result_waiters is None):
+            return
+        
+        space = self._max_length - len(self._results)
+        while set_result_waiters and (space > 0):
+            if set_result_waiters.pop(0).set_result_if_pending(True):
+                space -= 1
+        
+        if not set_result_waiters:
+            self._set_result_waiters = None
     
     
     def get_result_no_wait(self):
@@ -294,9 +352,8 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
+        if self._results:
+            result = self._take_result()
             self._poll_from_set_result_waiters()
             return result
         
@@ -334,7 +391,7 @@ class AsyncQueue:
             
         repr_parts.append(']')
         
-        max_length = results.maxlen
+        max_length = self._max_length
         if (max_length is not None):
             repr_parts.append(', max_length = ')
             repr_parts.append(repr(max_length))
@@ -382,28 +439,14 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
-            return result
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
         try:
-            return (await waiter)
+            return (await self.get_result())
         except CancelledError as err:
-            raise StopAsyncIteration from err
+            # Stop only if the queue is cancelled. If we are, propagate it.
+            if err is self._exception:
+                raise StopAsyncIteration from err
+            
+            raise
     
     # deque operations
     
@@ -416,7 +459,7 @@ class AsyncQueue:
         -------
         max_length: `int`
         """
-        return self._results.maxlen
+        return self._max_length
     
     
     def clear(self):
@@ -424,6 +467,7 @@ class AsyncQueue:
         Clears the queue's results.
         """
         self._results.clear()
+        self._poll_from_set_result_waiters()
     
     
     def copy(self):
@@ -437,8 +481,9 @@ class AsyncQueue:
         new = object.__new__(type(self))
         
         new._loop = self._loop
+        new._max_length = self._max_length
         new._results = self._results.copy()
-        new._waiter = None
+        new._waiters = deque()
         new._exception = self._exception
         new._set_result_waiters = None
         
@@ -462,14 +507,13 @@ class AsyncQueue:
     if __debug__:
         def __del__(self):
             """
-            If the queue has ``_waiter`` set, silences it.
+            If the queue has waiters, silences them.
             
             Notes
             -----
             This function is only present, when `__debug__` is set as `True`.
             """
-            waiter = self._waiter
-            if waiter is not None:
+            for waiter in self._waiters:
                 waiter.silence()
 
 
@@ -488,66 +532,17 @@ class AsyncLifoQueue(AsyncQueue):
         The loop to what the queue is bound to.
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _waiters : `deque` of ``Future``
+        If the queue is empty and it's result is already waited, then the waiters' futures are in here. Each
+        ``.set_result`` call feeds the first of them, while a ``.set_exception`` call feeds all of them.
     """
     __slots__ = ()
     
-    @copy_docs(AsyncQueue.__await__)
-    def __await__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        return (yield from waiter)
-    
-    @copy_docs(AsyncQueue.result_no_wait)
-    def get_result_no_wait(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is None:
-            raise IndexError('The queue is empty')
-        
-        raise exception
-    
-    
-    @property
-    def result_no_wait(self):
-        return self.get_result_no_wait
+    @copy_docs(AsyncQueue._take_result)
+    def _take_result(self):
+        return self._results.pop()
     
     
-    @copy_docs(AsyncQueue.__anext__)
-    async def __anext__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        try:
-            return (await waiter)
-        except CancelledError as err:
-            raise StopAsyncIteration from err
+    @copy_docs(AsyncQueue._put_back_result)
+    def _put_back_result(self, element):
+        self._results.append(element)
-- 
2.43.0


From 2b58e21e7d2f72124c286b0181f9e1c73ca617db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 006/158] fix: do not lose done callbacks or fail removing them
 when the future is completed from an other thread

---
 scarletio/core/event_loop/event_loop.py |  9 +++++++--
 scarletio/core/traps/future.py          | 25 ++++++++++++++++---------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index f5a45bb..7798a48 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -486,8 +486,13 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                 return
         
         while callbacks:
-            handle = Handle(callbacks.pop(), (future,))
-            self._ready.append(handle)
+            try:
+                callback = callbacks.pop()
+            except IndexError:
+                # Removed meanwhile from an other thread.
+                break
+            
+            self._ready.append(Handle(callback, (future,)))
     
     
     def create_future(self):
diff --git a/scarletio/core/traps/future.py b/scarletio/core/traps/future.py
index 3a896f6..aa3375e 100755
--- a/scarletio/core/traps/future.py
+++ b/scarletio/core/traps/future.py
@@ -125,14 +125,14 @@ class Future:
         state = self._state
         
         if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
+            self._state = state | FUTURE_STATE_SILENCED
             result = 0
         else:
-            state |= FUTURE_STATE_CANCELLED
+            # The state must be set before scheduling, since someone might wait for us in an other thread.
+            self._state = state | FUTURE_STATE_CANCELLED
             result = 1
             self._loop._schedule_callbacks(self)
         
-        self._state = state
         return result
     
     
@@ -148,7 +148,7 @@ class Future:
         state = self._state
         
         if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
+            self._state = state | FUTURE_STATE_SILENCED
             result = 0
         
         else:
@@ -160,12 +160,11 @@ class Future:
                     f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
                 )
             
-            state |= FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
             self._result = exception
+            self._state = state | FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
             self._loop._schedule_callbacks(self)
             result = 1
         
-        self._state = state
         return result
         
     
@@ -359,6 +358,10 @@ class Future:
             self._loop.call_soon(func, self)
         else:
             self._callbacks.append(func)
+            
+            # We might be marked as done meanwhile in an other thread.
+            if self._state & FUTURE_STATE_MASK_DONE:
+                self._loop._schedule_callbacks(self)
     
     
     def remove_done_callback(self, func):
@@ -380,9 +383,13 @@ class Future:
         index = len(callbacks)
         while index:
             index -= 1
-            if callbacks[index] is func:
-                del callbacks[index]
-                count += 1
+            try:
+                if callbacks[index] is func:
+                    del callbacks[index]
+                    count += 1
+            except IndexError:
+                # The callbacks might be scheduled meanwhile in an other thread.
+                continue
         
         return count
     
-- 
2.43.0


From 94d7ec73630028827f31044dd9aa782e5404c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 007/158] fix: hand out every future of a task group exactly
 once

---
 scarletio/core/traps/task_group.py | 156 ++++++++++-------------------
 1 file changed, 55 insertions(+), 101 deletions(-)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index 01806fa..8cedfa9 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -106,20 +106,13 @@ def _handler_wait_next():
     """
     Task group handler waiting for the next finishing task.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
-    should_add_to_done : `int`
-        Whether the task should be added to done.
     result : `Nobe`
         Yes, we return `None`.
     """
-    yield 1
-    return 1, None
+    yield
+    return None
 
 
 def _handler_wait_first(task_group):
@@ -131,26 +124,19 @@ def _handler_wait_first(task_group):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
-    should_add_to_done : `int`
-        Whether the task should be added to done.
     result : ``Future``
         The first done task.
     """
     done = task_group.done
     if done:
-        return 1, next(iter(done))
+        return next(iter(done))
     
     if task_group.pending:
-        return 1, (yield 1)
+        return (yield)
     
-    return 1, None
+    return None
 
 
 def _handler_wait_first_and_pop(task_group):
@@ -164,26 +150,26 @@ def _handler_wait_first_and_pop(task_group):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
-    should_add_to_done : `int`
-        Whether the task should be added to done.
     result : ``Future``
         The first done task.
     """
     done = task_group.done
     if done:
-        return 1, done.pop()
+        return done.pop()
     
-    if task_group.pending:
-        return 0, (yield 0)
-    
-    return 1, None
+    pending = task_group.pending
+    while True:
+        if not pending:
+            return None
+        
+        future = (yield)
+        # An other waiter might have popped it already.
+        if future in done:
+            done.discard(future)
+            return future
+
     
 
 def _handler_wait_exception(task_group):
@@ -195,30 +181,23 @@ def _handler_wait_exception(task_group):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
-    should_add_to_done : `int`
-        Whether the task should be added to done.
     result : ``Future``
         The first failing task.
     """
     for future in task_group.done:
         if future._state & FUTURE_STATE_RESULT_RAISE:
-            return 1, future
+            return future
     
     pending = task_group.pending
     while True:
         if not pending:
-            return 1, None
+            return None
         
-        future = (yield 1)
+        future = (yield)
         if future._state & FUTURE_STATE_RESULT_RAISE:
-            return 1, future
+            return future
 
 
 def _handler_wait_exception_and_pop(task_group):
@@ -232,31 +211,26 @@ def _handler_wait_exception_and_pop(task_group):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
-    should_add_to_done : `int`
-        Whether the task should be added to done.
     result : ``Future``
         The first failing task.
     """
     for future in task_group.done:
         if future._state & FUTURE_STATE_RESULT_RAISE:
             task_group.done.discard(future)
-            return 0, future
+            return future
     
     pending = task_group.pending
     while True:
         if not pending:
-            return 1, None
+            return None
         
-        future = (yield 1)
-        if future._state & FUTURE_STATE_RESULT_RAISE:
-            return 0, future
+        future = (yield)
+        # An other waiter might have popped it already.
+        if (future._state & FUTURE_STATE_RESULT_RAISE) and (future in task_group.done):
+            task_group.done.discard(future)
+            return future
 
 
 def _handler_wait_exception_or_cancellation(task_group):
@@ -268,30 +242,23 @@ def _handler_wait_exception_or_cancellation(task_group):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
-    should_add_to_done : `int`
-        Whether the task should be added to done.
     result : ``Future``
         The first failing task.
     """
     for future in task_group.done:
         if future._state & FUTURE_STATE_CANCELLED_OR_RAISE:
-            return 1, future
+            return future
     
     pending = task_group.pending
     while True:
         if not pending:
-            return 1, None
+            return None
         
-        future = (yield 1)
+        future = (yield)
         if future._state & FUTURE_STATE_CANCELLED_OR_RAISE:
-            return 1, future
+            return future
 
 
 def _handler_wait_exception_or_cancellation_and_pop(task_group):
@@ -305,31 +272,26 @@ def _handler_wait_exception_or_cancellation_and_pop(task_group):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
-    should_add_to_done : `int`
-        Whether the task should be added to done.
     result : ``Future``
         The first failing task.
     """
     for future in task_group.done:
         if future._state & FUTURE_STATE_CANCELLED_OR_RAISE:
             task_group.done.discard(future)
-            return 0, future
+            return future
     
     pending = task_group.pending
     while True:
         if not pending:
-            return 1, None
+            return None
         
-        future = (yield 1)
-        if future._state & FUTURE_STATE_CANCELLED_OR_RAISE:
-            return 0, future
+        future = (yield)
+        # An other waiter might have popped it already.
+        if (future._state & FUTURE_STATE_CANCELLED_OR_RAISE) and (future in task_group.done):
+            task_group.done.discard(future)
+            return future
 
 
 def _handler_wait_first_n(task_group, required_count):
@@ -341,11 +303,6 @@ def _handler_wait_first_n(task_group, required_count):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
     done_count : `int`
@@ -354,9 +311,9 @@ def _handler_wait_first_n(task_group, required_count):
     done_count = len(task_group.done)
     while True:
         if done_count >= required_count:
-            return 1, done_count
+            return done_count
         
-        (yield 1)
+        yield
         done_count += 1
 
 
@@ -369,11 +326,6 @@ def _handler_wait_all(task_group):
     task_group : ``TaskGroup``
         The parent task group.
     
-    Yield
-    -----
-    should_add_to_done : `int`
-        Whether the task should be added to done.
-    
     Returns
     -------
     should_add_to_done : `int`
@@ -384,9 +336,9 @@ def _handler_wait_all(task_group):
     pending = task_group.pending
     while True:
         if not pending:
-            return 1, None
+            return None
         
-        yield 1
+        yield
 
 
 class TaskGroup(RichAttributeErrorBaseType):
@@ -454,17 +406,19 @@ class TaskGroup(RichAttributeErrorBaseType):
             An added future.
         """
         self.pending.discard(future)
-    
+        self.done.add(future)
+        
         done_waiters = None
-        should_add_to_done = 1
         
         for waiter, handler in self.waiters.items():
+            # The waiter might be cancelled, in this case it must not receive the future.
+            if waiter.is_done():
+                continue
+            
             try:
-                should_add_to_done &= handler.send(future)
+                handler.send(future)
             except StopIteration as err:
-                result = err.value
-                should_add_to_done &= result[0]
-                waiter.set_result_if_pending(result[1])
+                waiter.set_result_if_pending(err.value)
                 
                 if done_waiters is None:
                     done_waiters = []
@@ -477,9 +431,6 @@ class TaskGroup(RichAttributeErrorBaseType):
                     done_waiters = []
                 done_waiters.append(waiter)
         
-        if should_add_to_done:
-            self.done.add(future)
-        
         if (done_waiters is not None):
             for waiter in done_waiters:
                 try:
@@ -524,7 +475,7 @@ class TaskGroup(RichAttributeErrorBaseType):
         try:
             handler.send(None)
         except StopIteration as err:
-            waiter.set_result_if_pending(err.value[1])
+            waiter.set_result_if_pending(err.value)
         except BaseException as err:
             waiter.set_exception_if_pending(err)
         else:
@@ -560,6 +511,9 @@ class TaskGroup(RichAttributeErrorBaseType):
         task_group = TaskGroup(loop, [Task(loop, coro(12)), Future(loop)])
         ```
         """
+        if (future in self.pending) or (future in self.done):
+            return future
+        
         if future.is_done():
             self._waited_done_callback(future)
         else:
-- 
2.43.0


From f9c8381086b457d5e2d7bad255675880155fbf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 008/158] fix: do not lose the error or the tasks of a limited
 executor when leaving it

---
 scarletio/core/traps/async_executing.py | 44 ++++++++++++-------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/scarletio/core/traps/async_executing.py b/scarletio/core/traps/async_executing.py
index daff54f..92e0d5d 100755
--- a/scarletio/core/traps/async_executing.py
+++ b/scarletio/core/traps/async_executing.py
@@ -39,7 +39,11 @@ def _scarlet_executor_callback(parent_reference, future):
     
     active = parent._active
     
-    active.discard(future)
+    try:
+        active.remove(future)
+    except KeyError:
+        # The executor has been left since.
+        return
     
     try:
         future.get_result()
@@ -347,39 +351,33 @@ class ScarletExecutor:
         if exception_type is None:
             active = self._active
             
-            while active:
-                waiter = self._waiter
-                if waiter is None:
-                    waiter = Future(self._loop)
-                    self._waiter = waiter
+            try:
+                while active and (self._exception is None):
+                    waiter = self._waiter
+                    if (waiter is None) or waiter.is_done():
+                        waiter = Future(self._loop)
+                        self._waiter = waiter
+                    
+                    await waiter
+            finally:
+                # If we were cancelled or if any of the tasks failed, the rest is cancelled.
+                for future in active:
+                    future.cancel()
                 
-                await waiter
+                active.clear()
                 
                 exception = self._exception
-                if exception is None:
-                    waiter = Future(self._loop)
-                    self._waiter = waiter
-                    continue
                 
                 self._callback = None
                 
                 self._waiter = None
                 self._loop = None
                 self._exception = None
-                
-                for future in active:
-                    future.cancel()
-                
-                active.clear()
-                
-                raise exception
             
-            self._callback = None
+            if exception is None:
+                return False
             
-            self._waiter = None
-            self._loop = None
-            self._exception = None
-            return False
+            raise exception
         
         active = self._active
         for future in active:
-- 
2.43.0


From 3d09c5cf58fb9e69f6ccbae905ab6486ee6f2c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 009/158] fix: shield futures of other loops and threads, and
 do not report a passed on exception as never retrieved

---
 scarletio/core/traps/future_chaining.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/scarletio/core/traps/future_chaining.py b/scarletio/core/traps/future_chaining.py
index 044a79b..052a6f8 100755
--- a/scarletio/core/traps/future_chaining.py
+++ b/scarletio/core/traps/future_chaining.py
@@ -1,6 +1,7 @@
 __all__ = ('shield',)
 
 from .future import Future
+from .task import Task
 
 
 class _FutureChainer:
@@ -45,10 +46,12 @@ class _FutureChainer:
         
         # set result
         if target.is_pending():
-            target._state |= future._state
             target._result = future._result
-            
+            target._state |= future._state
             target._loop._schedule_callbacks(target)
+        
+        # The result is either retrieved from the target, or nobody is interested in it anymore.
+        future.silence()
 
 
 class _ChainRemover:
@@ -67,13 +70,12 @@ class _ChainRemover:
     
     def __call__(self, future):
         # remove chainer
-        callbacks = self.target._callbacks
-        for index in range(len(callbacks)):
-            callback = callbacks[index]
+        target = self.target
+        for callback in target._callbacks.copy():
             if (type(callback) is _FutureChainer) and (callback.target is future):
-                del callbacks[index]
+                target.remove_done_callback(callback)
                 # because this might be the only place, where we retrieve the result, we will just silence it.
-                future.silence()
+                target.silence()
                 break
 
 
@@ -103,7 +105,12 @@ def shield(awaitable, loop):
     if protected.is_done():
         return protected # already done, we can return
     
+    if not isinstance(protected, Future):
+        # The future is bound to an other loop.
+        protected = Task(loop, protected.wait())
+    
     un_protected = Future(loop)
-    protected._callbacks.append(_FutureChainer(un_protected))
     un_protected._callbacks.append(_ChainRemover(protected))
+    # The future might be marked as done meanwhile in an other thread.
+    protected.add_done_callback(_FutureChainer(un_protected))
     return un_protected
-- 
2.43.0


From 9d11baca4854cbdc98145cacb59ff299bebee633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 010/158] fix: do not undo the completion of a task when
 cancelling it from an other thread

---
 scarletio/core/traps/task.py | 61 ++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index 87185fd..bc538b2 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -114,48 +114,41 @@ class Task(Future):
     
     @copy_docs(Future.cancel)
     def cancel(self):
-        state = self._state
+        # We might be called from an other thread, so do not write back a state read before.
+        if self._state & FUTURE_STATE_MASK_DONE:
+            self._state |= FUTURE_STATE_SILENCED
+            return 0
         
-        if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
-            result = 0
-        else:
-            waited_future = self._waited_future
-            if (waited_future is None) or (not waited_future.cancel()):
-                state |= FUTURE_STATE_CANCELLING_SELF
-            
-            result = 1
+        waited_future = self._waited_future
+        if (waited_future is None) or (not waited_future.cancel()):
+            self._state |= FUTURE_STATE_CANCELLING_SELF
         
-        self._state = state
-        return result
+        return 1
     
     
     @copy_docs(Future.cancel_with)
     def cancel_with(self, exception):
-        state = self._state
-        if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
-            result = 0
+        # We might be called from an other thread, so do not write back a state read before.
+        if self._state & FUTURE_STATE_MASK_DONE:
+            self._state |= FUTURE_STATE_SILENCED
+            return 0
         
-        else:
-            if isinstance(exception, type):
-                exception = exception()
-            
-            if isinstance(exception, StopIteration):
-                raise TypeError(
-                    f'{exception} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
-                )
-            
-            waited_future = self._waited_future
-            if (waited_future is not None):
-                waited_future.cancel()
-            
-            state |= FUTURE_STATE_CANCELLING_SELF
-            self._result = exception
-            result = 1
+        if isinstance(exception, type):
+            exception = exception()
+        
+        if isinstance(exception, StopIteration):
+            raise TypeError(
+                f'{exception} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
+            )
+        
+        self._result = exception
+        self._state |= FUTURE_STATE_CANCELLING_SELF
+        
+        waited_future = self._waited_future
+        if (waited_future is not None):
+            waited_future.cancel()
         
-        self._state = state
-        return result
+        return 1
     
     
     @copy_docs(Future.is_cancelling)
-- 
2.43.0


From 44ac89e0f9509f3156e0e34f5c8a24e0dc744df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 011/158] fix: keep cyclers cancelled, rescheduled or modified
 from inside of a cycle that way, and able to be cancelled when created from
 an other thread

---
 scarletio/core/event_loop/cycler.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/scarletio/core/event_loop/cycler.py b/scarletio/core/event_loop/cycler.py
index 372f957..fc27018 100755
--- a/scarletio/core/event_loop/cycler.py
+++ b/scarletio/core/event_loop/cycler.py
@@ -1,5 +1,6 @@
 __all__ = ('Cycler',)
 
+from heapq import heappush
 from threading import current_thread
 
 from ...utils import CallableAnalyzer, include
@@ -7,6 +8,8 @@ from ...utils import CallableAnalyzer, include
 from ..time import LOOP_TIME
 from ..traps import Task
 
+from .handles import TimerHandle
+
 
 write_exception_async = include('write_exception_async')
 
@@ -238,11 +241,12 @@ class Cycler:
         self.funcs = validated_funcs
         self.cycle_time = cycle_time
         if current_thread() is loop:
-            handle = loop.call_after(cycle_time, cls._run, self)
+            self.handle = loop.call_after(cycle_time, cls._run, self)
         else:
-            handle = loop.call_soon_thread_safe_lazy(type(loop).call_after, loop, cycle_time, cls._run, self)
-        
-        self.handle = handle
+            # The handle must be set before passing it to the loop. It might run it before we return.
+            handle = TimerHandle(LOOP_TIME() + cycle_time, cls._run, (self,))
+            self.handle = handle
+            loop.call_soon_thread_safe_lazy(heappush, loop._scheduled, handle)
         
         return self
     
@@ -250,7 +254,10 @@ class Cycler:
         """
         Runs all the functions added to the cycler.
         """
-        for func in self.funcs:
+        handle = self.handle
+        
+        # The functions might modify us. They take effect from the next cycle.
+        for func in self.funcs.copy():
             try:
                 result = func.func(self)
                 if func.is_async:
@@ -267,7 +274,9 @@ class Cycler:
                     loop = self.loop,
                 )
         
-        self.handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
+        # If a function cancelled or rescheduled us, we must not do it again.
+        if self.handle is handle:
+            self.handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
     
     def __repr__(self):
         """Returns the cycler's representation."""
-- 
2.43.0


From 07dd6d61a93d1ce597e1906170cd6b28919fe0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 012/158] fix: finalize asynchronous generators on the event
 loop that iterated them, and shut them down

---
 scarletio/core/event_loop/event_loop.py       | 16 +++----
 .../event_loop_functionality_helpers.py       | 43 ++++++++++++++++---
 .../core/event_loop/event_thread_type.py      |  4 ++
 3 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 7798a48..fd8c16d 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -781,20 +781,18 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         self._async_generators_shutdown_called = True
         
         async_generators = self._async_generators
-        if async_generators:
+        closing_async_generators = list(async_generators)
+        if not closing_async_generators:
             return
         
-        closing_async_generators = list(async_generators)
         async_generators.clear()
         
-        results = await TaskGroup(
-            self,
-            (Task(self, ag.aclose()) for ag in closing_async_generators),
-        )
+        tasks = [Task(self, async_generator.aclose()) for async_generator in closing_async_generators]
+        await TaskGroup(self, tasks).wait_all()
         
-        for result, async_generator in zip(results, closing_async_generators):
-            exception = result.exception
-            if (exception is not None) and (not isinstance(exception,CancelledError)):
+        for task, async_generator in zip(tasks, closing_async_generators):
+            exception = task.get_exception()
+            if (exception is not None) and (not isinstance(exception, CancelledError)):
                 await write_exception_async(
                     exception, [
                         'Exception occurred during shutting down async generator:\n',
diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index de6238c..5e556b9 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -108,18 +108,49 @@ def _async_generator_finalizer_hook(async_generator):
     """
     loop = current_thread()
     if isinstance(loop, EventThread):
-        loop._async_generators.discard(async_generator)
-        if not loop.running:
-            return
-            
-        Task(loop, async_generator.aclose())
-        loop.wake_up()
+        _finalize_async_generator(loop, async_generator)
         return
     
     finalizer = _OLD_ASYNC_GENERATOR_HOOKS.finalizer
     if finalizer is not None:
         finalizer(async_generator)
 
+
+def _finalize_async_generator(loop, async_generator):
+    """
+    Removes the asynchronous generator from the given event loop and closes it on it.
+    
+    The asynchronous generator might be garbage collected in any thread.
+    
+    Parameters
+    ----------
+    loop : ``EventThread``
+        The event loop that iterated the asynchronous generator.
+    async_generator : `async_generator`
+    """
+    loop._async_generators.discard(async_generator)
+    if not loop.running:
+        return
+    
+    Task(loop, async_generator.aclose())
+    loop.wake_up()
+
+
+def _set_async_generator_hooks(loop):
+    """
+    Sets the asynchronous generator hooks of the current thread. These hooks are always bound to a single thread.
+    
+    Parameters
+    ----------
+    loop : ``EventThread``
+        The event loop running on the current thread.
+    """
+    sys.set_asyncgen_hooks(
+        firstiter = _async_generator_first_iteration_hook,
+        finalizer = MethodType(_finalize_async_generator, loop),
+    )
+
+
 sys.set_asyncgen_hooks(firstiter = _async_generator_first_iteration_hook, finalizer = _async_generator_finalizer_hook)
 
 
diff --git a/scarletio/core/event_loop/event_thread_type.py b/scarletio/core/event_loop/event_thread_type.py
index 6e4ecf3..cf27fe3 100755
--- a/scarletio/core/event_loop/event_thread_type.py
+++ b/scarletio/core/event_loop/event_thread_type.py
@@ -6,6 +6,8 @@ from threading import Event as SyncEvent, Thread, current_thread
 
 from ...utils import ignore_frame
 
+from .event_loop_functionality_helpers import _set_async_generator_hooks
+
 
 ignore_frame(threading.__spec__.origin, '_bootstrap', 'self._bootstrap_inner()', )
 ignore_frame(threading.__spec__.origin, '_bootstrap_inner', 'self.run()', )
@@ -93,6 +95,8 @@ class EventThreadContextManager:
             thread._self_read_socket = self_read_socket
             thread._self_write_socket = self_write_socket
             thread.add_reader(self_read_socket.fileno(), thread.empty_self_socket)
+            
+            _set_async_generator_hooks(thread)
         finally:
             thread_waiter.set()
     
-- 
2.43.0


From 09b1b102996b2eeeacaa40895c7cead6cd70a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 013/158] fix: let future wrappers be awaited from other event
 loops and threads

---
 scarletio/core/traps/future_wrapper_base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scarletio/core/traps/future_wrapper_base.py b/scarletio/core/traps/future_wrapper_base.py
index 44e689a..7640e33 100755
--- a/scarletio/core/traps/future_wrapper_base.py
+++ b/scarletio/core/traps/future_wrapper_base.py
@@ -144,6 +144,16 @@ class FutureWrapperBase:
         return exception_set
     
     
+    @copy_docs(Future.sync_wrap)
+    def sync_wrap(self):
+        return self._future.sync_wrap()
+    
+    
+    @copy_docs(Future.async_wrap)
+    def async_wrap(self, loop):
+        return self._future.async_wrap(loop)
+    
+    
     def wait(self, timeout = None, propagate_cancellation = False):
         """
         Waits till the waited future's result or exception is set.
-- 
2.43.0


From 268cc0e0c55f1c28ece48bdf79df99513fbcfc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 014/158] fix: hand out each element of a sync queue to one
 consumer and wake its consumers on cancellation

---
 scarletio/core/event_loop/executor.py | 70 ++++++++++++++++-----------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 426d37b..1183fdf 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -33,20 +33,24 @@ class SyncWait:
     
     Attributes
     ----------
+    _cancelled : `bool`
+        Whether the waiter is cancelled.
     _result : `object`
         The waiter's result if applicable. Defaults to `None`.
     _waiter : `threading.SyncEvent`
-        Threading event, what is set, when the waiter's result is set.
+        Threading event, what is set, when the waiter's result is set or when it is cancelled.
     """
-    __slots__ = ('_result', '_waiter',)
+    __slots__ = ('_cancelled', '_result', '_waiter',)
     
     def __init__(self):
         """
         Creates a new ``SyncWait``.
         """
+        self._cancelled = False
         self._result = None
         self._waiter = SyncEvent()
-        
+    
+    
     def set_result(self, result):
         """
         Sets the waiter's result.
@@ -60,6 +64,14 @@ class SyncWait:
         self._waiter.set()
     
     
+    def cancel(self):
+        """
+        Cancels the waiter.
+        """
+        self._cancelled = True
+        self._waiter.set()
+    
+    
     def wait(self):
         """
         Waits till the waiter's result is set, then returns it.
@@ -70,12 +82,13 @@ class SyncWait:
         
         Raises
         ------
-        TypeError
-            The set exception is not a  `BaseException`.
-        BaseException
-            The set exception.
+        CancelledError
+            The waiter was cancelled.
         """
         self._waiter.wait()
+        if self._cancelled:
+            raise CancelledError()
+        
         return self._result
 
 
@@ -91,10 +104,10 @@ class SyncQueue:
         Threading lock to grant exclusive access to the queue.
     _results : `deque`
         A deque of the results set to the queue.
-    _waiter : `None`, ``SyncWait``
-        Result waiter of the queue.
+    _waiters : `deque` of ``SyncWait``
+        Result waiters of the queue, one for each blocked consumer.
     """
-    __slots__ = ('_cancelled', '_lock', '_results', '_waiter',)
+    __slots__ = ('_cancelled', '_lock', '_results', '_waiters',)
     
     def __init__(self, iterable = None, max_length = None, cancelled = False):
         """
@@ -110,7 +123,7 @@ class SyncQueue:
             Whether the queue should be initially cancelled.
         """
         self._results = deque(maxlen = max_length) if iterable is None else deque(iterable, maxlen = max_length)
-        self._waiter = None
+        self._waiters = deque()
         self._cancelled = cancelled
         self._lock = SyncLock()
     
@@ -126,12 +139,11 @@ class SyncQueue:
         """
         with self._lock:
             # Should we raise InvalidStateError?
-            waiter = self._waiter
-            if waiter is None:
-                self._results.append(result)
+            waiters = self._waiters
+            if waiters:
+                waiters.popleft().set_result(result)
             else:
-                waiter.set_result(result)
-                self._waiter = None
+                self._results.append(result)
     
     
     def cancel(self):
@@ -145,10 +157,9 @@ class SyncQueue:
             # Should we raise InvalidStateError?
             self._cancelled = True
             
-            waiter = self._waiter
-            if waiter is not None:
-                waiter.cancel()
-                self._waiter = None
+            waiters = self._waiters
+            while waiters:
+                waiters.popleft().cancel()
     
     
     def get_result(self):
@@ -159,19 +170,22 @@ class SyncQueue:
         Returns
         -------
         result : `object`
+        
+        Raises
+        ------
+        CancelledError
+            The queue is cancelled.
         """
         with self._lock:
             results = self._results
             if results:
                 return results.popleft()
             
-            waiter = self._waiter
-            if waiter is None:
-                if self._cancelled:
-                    raise CancelledError()
-                
-                waiter = SyncWait()
-                self._waiter = waiter
+            if self._cancelled:
+                raise CancelledError()
+            
+            waiter = SyncWait()
+            self._waiters.append(waiter)
         
         return waiter.wait()
     
@@ -285,7 +299,7 @@ class SyncQueue:
             new = object.__new__(type(self))
             
             new._results = self._results.copy()
-            new._waiter = None
+            new._waiters = deque()
             new._cancelled = self._cancelled
             new._lock = SyncLock()
             
-- 
2.43.0


From 6b280e0e499c0e040b66005b5f4e3f706be051c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 015/158] fix: do not add to a sync queue when rendering it

---
 scarletio/core/event_loop/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 1183fdf..77e4cc0 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -244,7 +244,7 @@ class SyncQueue:
                     result = results[index]
                     index += 1
                     
-                    results.append(repr(result))
+                    repr_parts.append(repr(result))
                     if index == limit:
                         break
                     
-- 
2.43.0


From f77b6f0a0976dd4c260e612a2c8738a89801e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 016/158] fix: cancel executor threads which take from their
 queue meanwhile

---
 scarletio/core/event_loop/executor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 77e4cc0..2c4e206 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -477,8 +477,17 @@ class ExecutorThread(Thread):
         """
         self.state = EXECUTOR_THREAD_STOPPED
         queue = self.queue
-        while queue:
-            future = queue.get_result_no_wait().future
+        while True:
+            # The thread itself might take elements meanwhile.
+            try:
+                pair = queue.get_result_no_wait()
+            except IndexError:
+                break
+            
+            if pair is None:
+                continue
+            
+            future = pair.future
             future._loop.call_soon_thread_safe(future.cancel)
         
         queue.set_result(None)
-- 
2.43.0


From 99882827551d5476c97b505e70c63c64a7e3b794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 017/158] fix: give back claimed executors which still have
 calls queued up

---
 scarletio/core/event_loop/executor.py | 47 +++++++++++++++------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 2c4e206..32940e3 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -504,16 +504,18 @@ class ExecutorThread(Thread):
         """
         Removes all the done elements from the executor's queue.
         """
-        results = self.queue._results
-        index = 0
-        limit = len(results)
-        while index < limit:
-            future = results[index]
-            if future.is_done():
-                del results[index]
-                limit -= 1
-            else:
-                index += 1
+        queue = self.queue
+        with queue._lock:
+            results = queue._results
+            index = 0
+            limit = len(results)
+            while index < limit:
+                pair = results[index]
+                if (pair is not None) and pair.future.is_done():
+                    del results[index]
+                    limit -= 1
+                else:
+                    index += 1
     
     
     def get_stack(self, limit = -1):
@@ -830,16 +832,21 @@ class ClaimedExecutor:
         
         executor._shrink_queue()
         
-        results = executor.queue._results
-        if results:
-            callback = _ClaimEndedCallback(self.parent, executor)
-            for element in results:
-                future = element.future
-                if future.is_done():
-                    continue
-                
-                future.add_done_callback(callback)
-        else:
+        callback = _ClaimEndedCallback(self.parent, executor)
+        callback_added = False
+        
+        for pair in [*executor.queue._results]:
+            if pair is None:
+                continue
+            
+            future = pair.future
+            if future.is_done():
+                continue
+            
+            future.add_done_callback(callback)
+            callback_added = True
+        
+        if not callback_added:
             self.parent._claim_ended(executor)
         
         self.executor = None
-- 
2.43.0


From 7df1106664bf1021c631cc3251ce1cc98885d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 018/158] fix: do not give further calls to an executor thread
 whose cancelled call goes on

---
 scarletio/core/event_loop/executor.py | 57 ++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 32940e3..af24408 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -345,6 +345,9 @@ class ExecutorThread(Thread):
     current_function : `object`
         The currently ran function.
     
+    finished_count : `int`
+        The amount of calls the thread finished (or skipped).
+    
     state : `int`
         Whether the executor thread is currently running.
         
@@ -359,17 +362,22 @@ class ExecutorThread(Thread):
         | EXECUTOR_THREAD_STOPPED   | 2     |
         +---------------------------+-------+
     
+    submitted_count : `int`
+        The amount of calls given to the thread.
+    
     queue : ``SyncQueue`` of ``ExecutionPair``
         Synchronous queue of functions to execute and of their waiter future.
     """
-    __slots__ = ('current_function', 'state', 'queue')
+    __slots__ = ('current_function', 'finished_count', 'state', 'submitted_count', 'queue')
     
     def __init__(self):
         """
         Creates and start a ``ExecutorThread``.
         """
         self.current_function = None
+        self.finished_count = 0
         self.state = EXECUTOR_THREAD_CREATED
+        self.submitted_count = 0
         self.queue = SyncQueue()
         Thread.__init__(self, daemon = True)
         self.start()
@@ -395,13 +403,20 @@ class ExecutorThread(Thread):
                 future = pair.future
                 if future.is_done():
                     future = None
+                    self.finished_count += 1
                     continue
                 
                 func = pair.func
                 self.current_function = func
                 
                 try:
-                    result = func()
+                    try:
+                        result = func()
+                    finally:
+                        # Has to be up to date when the executor is given back.
+                        self.current_function = None
+                        self.finished_count += 1
+                
                 except BaseException as exception:
                     if isinstance(exception, StopIteration):
                         new_exception = RuntimeError(f'{type(exception).__name__} cannot be raised to a Future.')
@@ -419,7 +434,6 @@ class ExecutorThread(Thread):
                     result = None
                 
                 finally:
-                    self.current_function = None
                     future = None
                     func = None
             
@@ -467,10 +481,35 @@ class ExecutorThread(Thread):
             
             future = Future(loop)
         
-        self.queue.set_result(ExecutionPair(func, future,),)
+        self._submit(ExecutionPair(func, future,),)
         return future
     
     
+    def _submit(self, pair):
+        """
+        Puts the given pair on the executor's queue.
+        
+        Parameters
+        ----------
+        pair : ``ExecutionPair``
+            The pair to execute.
+        """
+        self.submitted_count += 1
+        self.queue.set_result(pair)
+    
+    
+    def is_busy(self):
+        """
+        Returns whether the executor has unfinished calls. A call might go on even if its future is already done
+        (cancelled).
+        
+        Returns
+        -------
+        is_busy : `bool`
+        """
+        return self.submitted_count != self.finished_count
+    
+    
     def cancel(self):
         """
         Cancels all the pending elements on the executor thread's queue, then cancels the queue itself as well.
@@ -514,6 +553,7 @@ class ExecutorThread(Thread):
                 if (pair is not None) and pair.future.is_done():
                     del results[index]
                     limit -= 1
+                    self.submitted_count -= 1
                 else:
                     index += 1
     
@@ -817,7 +857,7 @@ class ClaimedExecutor:
         
         future = self.parent.create_future()
         
-        executor.queue.set_result(ExecutionPair(func, future,),)
+        executor._submit(ExecutionPair(func, future,),)
         
         return future
     
@@ -1085,7 +1125,7 @@ class Executor:
         executor = self._get_free_executor()
         self.running_executors.add(executor)
         future.add_done_callback(ExecutionEndedCallback(self, executor))
-        executor.queue.set_result(ExecutionPair(func, future,),)
+        executor._submit(ExecutionPair(func, future,),)
         return future
     
     
@@ -1183,6 +1223,11 @@ class Executor:
         executor : ``ExecutorThread``
             The given back executor.
         """
+        if executor.is_busy():
+            # A cancelled call is still going on. Do not let further calls get stuck behind it.
+            executor.release()
+            return
+        
         self.free_executors.append(executor)
         
         handle = self._kept_executor_release_handle
-- 
2.43.0


From 3f8b78bd0bd254894e823b8fae80b5056ed3ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 019/158] fix: keep track of cancellations while a task is
 moved to an executor thread

---
 scarletio/core/traps/task_thread_switcher.py | 72 +++++++++++++++-----
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/scarletio/core/traps/task_thread_switcher.py b/scarletio/core/traps/task_thread_switcher.py
index b5f3ec0..8be8db5 100755
--- a/scarletio/core/traps/task_thread_switcher.py
+++ b/scarletio/core/traps/task_thread_switcher.py
@@ -13,7 +13,6 @@ from .future_states import (
 from .task import Task
 
 
-FUTURE_MASK_CANCEL_INITIALISED_BEFORE = FUTURE_STATE_CANCELLING_SELF | FUTURE_STATE_CANCELLED
 FUTURE_MASK_CANCEL_WITH_EXCEPTION = FUTURE_STATE_RESULT_RAISE | FUTURE_STATE_CANCELLED
 
 
@@ -108,13 +107,24 @@ class enter_executor:
         """
         Moves the task's execution to an executor thread and wakes it up.
         """
-        callbacks = self._enter_future._callbacks
-        callbacks.clear()
+        enter_future = self._enter_future
+        if enter_future.is_done():
+            # Cancelled meanwhile, the task wakes up on the event loop.
+            return
+        
+        # From now on the task is not woken up by the enter future, it is stepped by the executor thread.
+        enter_future._callbacks.clear()
         
         task = self._task
+        task._waited_future = None
         task.add_done_callback(self._cancel_callback)
         
-        task._loop.run_in_executor(self._executor_task)
+        try:
+            task._loop.run_in_executor(self._executor_task)
+        except BaseException as exception:
+            task.remove_done_callback(self._cancel_callback)
+            enter_future.set_exception(exception)
+            task._loop.call_soon(task._step)
     
     
     def _cancel_callback(self, future):
@@ -132,6 +142,23 @@ class enter_executor:
         waited_future.cancel()
     
     
+    @staticmethod
+    def _cancel_waited_future(task, waited_future):
+        """
+        Called on the event loop if the task was cancelled just before its section inside of the executor started to
+        wait on a future.
+        
+        Parameters
+        ----------
+        task : ``Task``
+            The task moved to the executor.
+        waited_future : ``Future``
+            The future waited by the task.
+        """
+        if (task._state & FUTURE_STATE_CANCELLING_SELF) and waited_future.cancel():
+            task._state &= ~FUTURE_STATE_CANCELLING_SELF
+    
+    
     def _executor_task(self):
         """
         Wraps the tasks' section's running inside of an executor, still allowing it to use `await`-s.
@@ -140,9 +167,14 @@ class enter_executor:
         # relink future task
         loop = task._loop
         end_future = Future(loop)
-        task._waited_future = end_future
         self._exit_future = end_future
         
+        if task._state & FUTURE_STATE_CANCELLING_SELF:
+            # Cancelled before the switch, continue on the event loop.
+            task.remove_done_callback(self._cancel_callback)
+            loop.call_soon_thread_safe(task._step)
+            return
+        
         # Set result to the enter task, so it can be retrieved.
         self._enter_future.set_result(None)
         
@@ -151,21 +183,30 @@ class enter_executor:
         # If some1 await at the block, we will sync_wrap it. If the exit future is awaited, then we quit.
         local_waited_future = None
         
+        # Whether the section is reached. It is not cancelled before, since it could not be left on the event loop.
+        entered = False
+        
         try:
             while True:
                 if (local_waited_future is not None):
                     if local_waited_future is end_future:
                         end_future.set_result(None)
+                        task.remove_done_callback(self._cancel_callback)
                         loop.call_soon_thread_safe(task._step)
                         break
                     
                     self._waited_future = local_waited_future
-                    if task._state & FUTURE_MASK_CANCEL_INITIALISED_BEFORE:
-                        local_waited_future.cancel()
+                    task._waited_future = local_waited_future
+                    
+                    if task._state & FUTURE_STATE_CANCELLING_SELF:
+                        # Cancelled before waiting on the future. Futures are to be cancelled from the event loop.
+                        loop.call_soon_thread_safe(self._cancel_waited_future, task, local_waited_future)
                     
                     try:
                         local_waited_future.sync_wrap().wait_for_completion()
                     finally:
+                        task._waited_future = None
+                        self._waited_future = None
                         local_waited_future = None
                 
                 if task.is_done():
@@ -174,22 +215,23 @@ class enter_executor:
                 
                 try:
                     # Call either coroutine.throw(err) or coroutine.send(None).
-                    if task._state & FUTURE_STATE_CANCELLING_SELF:
+                    if entered and (task._state & FUTURE_STATE_CANCELLING_SELF):
+                        task._state &= ~FUTURE_STATE_CANCELLING_SELF
                         result = coroutine.throw(CancelledError())
                     else:
+                        entered = True
                         result = coroutine.send(None)
                 
                 except StopIteration as retrieved_exception:
                     state = task._state
                     if state & FUTURE_STATE_CANCELLING_SELF:
                         state |= FUTURE_STATE_CANCELLED
-                        task._loop._schedule_callbacks(self)
                     else:
                         task._result = retrieved_exception.value
                         state |= FUTURE_STATE_RESULT_RETURN
                     
                     task._state = state
-                    loop._schedule_callbacks(self)
+                    loop._schedule_callbacks(task)
                     loop.wake_up()
                     break
                     
@@ -202,14 +244,14 @@ class enter_executor:
                     else:
                         result.__cause__ = retrieved_exception
                     
-                    loop._schedule_callbacks(self)
+                    loop._schedule_callbacks(task)
                     loop.wake_up()
                     break
                 
                 except BaseException as retrieved_exception:
                     task._result = retrieved_exception
                     task._state |= FUTURE_STATE_RESULT_RAISE
-                    loop._schedule_callbacks(self)
+                    loop._schedule_callbacks(task)
                     loop.wake_up()
                     break
                 
@@ -217,12 +259,6 @@ class enter_executor:
                     if isinstance(result, Future) and result._blocking:
                         result._blocking = False
                         local_waited_future = result
-                        task._waited_future = result
-                        
-                        state = task._state
-                        if state & FUTURE_STATE_CANCELLING_SELF:
-                            if result.cancel():
-                                task._state = state & ~FUTURE_STATE_CANCELLING_SELF
                     else:
                         continue
         
-- 
2.43.0


From 421a038df252e0108e70c3a270ee2201d914338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 020/158] fix: do not override the internal stop method of
 threads with the event loop's

---
 scarletio/core/event_loop/event_loop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index fd8c16d..9cfc680 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -756,13 +756,13 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         """
         if self.should_run:
             if current_thread() is self:
-                self._stop()
+                self._stop_running()
             else:
-                self.call_soon(self._stop)
+                self.call_soon(self._stop_running)
                 self.wake_up()
     
     
-    def _stop(self):
+    def _stop_running(self):
         """
         Stops the event loop. Internal function of ``.stop``, called or queued up by it.
         
-- 
2.43.0


From 969bd4bd5129af9ae9d4e011b4b7a8a06a5781eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 021/158] fix: start event loops once when more threads start
 them at the same time

---
 scarletio/core/event_loop/event_loop.py                   | 8 +++-----
 .../core/event_loop/event_loop_functionality_helpers.py   | 2 +-
 scarletio/core/event_loop/event_thread_type.py            | 7 +++++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 9cfc680..047f667 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -196,12 +196,10 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         if thread_waiter is None:
             return
         
-        if not self._started.is_set():
-            try:
+        # More threads might try to start us at the same time.
+        with self.context.start_lock:
+            if not self._started.is_set():
                 Thread.start(self)
-            except:
-                thread_waiter.set()
-                raise
         
         thread_waiter.wait()
     
diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index 5e556b9..4df44ba 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -182,7 +182,7 @@ class EventThreadRunDescriptor:
             return obj.caller
         
         if not obj.started:
-            if obj._started.is_set():
+            if current_thread() is obj:
                 obj.started = True
                 return obj.runner
             else:
diff --git a/scarletio/core/event_loop/event_thread_type.py b/scarletio/core/event_loop/event_thread_type.py
index cf27fe3..a84b4a6 100755
--- a/scarletio/core/event_loop/event_thread_type.py
+++ b/scarletio/core/event_loop/event_thread_type.py
@@ -2,7 +2,7 @@ __all__ = ()
 
 import threading
 from socket import socketpair as create_socket_pair
-from threading import Event as SyncEvent, Thread, current_thread
+from threading import Event as SyncEvent, Lock as SyncLock, Thread, current_thread
 
 from ...utils import ignore_frame
 
@@ -20,12 +20,14 @@ class EventThreadContextManager:
     
     Attributes
     ----------
+    start_lock : `threading.Lock`
+        Lock held meanwhile the thread is being started up.
     thread : `None`, ``EventThread``
         The wrapped event loop.
     thread_waiter : `None`, `threading.Event`
        Threading event, what is set, when the thread is started up. Set as `None` after set.
     """
-    __slots__ = ('thread', 'thread_waiter',)
+    __slots__ = ('start_lock', 'thread', 'thread_waiter',)
     
     
     def __new__(cls, thread):
@@ -45,6 +47,7 @@ class EventThreadContextManager:
             Threading event, what is set, when the thread is started up.
         """
         self = object.__new__(cls)
+        self.start_lock = SyncLock()
         self.thread = thread
         self.thread_waiter = SyncEvent()
         return self
-- 
2.43.0


From ef70b0eab512664bce0d6aeb4621c95bd72a8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 022/158] fix: refuse to run on event loops which ended or
 failed to start instead of hanging

---
 scarletio/core/event_loop/event_loop.py       | 26 +++++++++----------
 .../event_loop_functionality_helpers.py       | 12 ++++-----
 .../core/event_loop/event_thread_type.py      |  5 ++--
 3 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 047f667..114129b 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -161,7 +161,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         """
         if not self.started:
             is_stopped = False
-        elif self._is_stopped or (not self.running):
+        elif self._is_stopped or (self.is_started() and (not self.running)):
             is_stopped = True
         else:
             is_stopped = False
@@ -176,13 +176,13 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         Returns
         -------
         started : `bool`
-            Whether the thread was started up.
+            Whether the thread is started up. An already stopped thread is not started again.
         """
-        if self.is_started():
-            return False
+        if not self.is_started():
+            self._do_start()
         
-        self._do_start()
-        return True
+        # It might have been started from an other thread since the caller checked it.
+        return self.running
     
     
     def _do_start(self):
@@ -424,20 +424,18 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         handle : `None`, ``Handle``
             The created handle is returned, what can be used to cancel it. If the event loop is stopped, returns `None`.
         """
-        if self.running:
-            should_wake_up = True
+        if self.is_started():
+            if not self.running:
+                return None
         else:
-            if self.is_started():
-                should_wake_up = True
-            elif self.should_run:
-                should_wake_up = False
-            else:
+            if not self.should_run:
                 return None
         
         handle = Handle(callback, args)
         self._ready.append(handle)
         
-        if should_wake_up:
+        # It might have been started meanwhile.
+        if self.running:
             self.wake_up()
         
         return handle
diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index 4df44ba..27f3372 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -181,15 +181,15 @@ class EventThreadRunDescriptor:
         if obj.running:
             return obj.caller
         
-        if not obj.started:
-            if current_thread() is obj:
+        if current_thread() is obj:
+            if not obj.started:
                 obj.started = True
                 return obj.runner
-            else:
-                obj._do_start()
-                return obj.caller
+        else:
+            # If an other thread is starting it right now, waits till it is started.
+            obj._maybe_start()
         
-        if not obj._is_stopped:
+        if not obj.is_stopped():
             return obj.caller
         
         raise RuntimeError(f'The {type(obj).__name__} is already stopped.')
diff --git a/scarletio/core/event_loop/event_thread_type.py b/scarletio/core/event_loop/event_thread_type.py
index a84b4a6..fbb418e 100755
--- a/scarletio/core/event_loop/event_thread_type.py
+++ b/scarletio/core/event_loop/event_thread_type.py
@@ -90,13 +90,14 @@ class EventThreadContextManager:
                     f'`{thread!r}.run` called when the thread is already stopped.'
                 )
             
-            thread.running = True
-            
             self_read_socket, self_write_socket = create_socket_pair()
             self_read_socket.setblocking(False)
             self_write_socket.setblocking(False)
             thread._self_read_socket = self_read_socket
             thread._self_write_socket = self_write_socket
+            
+            # Set it only if we will surely run.
+            thread.running = True
             thread.add_reader(self_read_socket.fileno(), thread.empty_self_socket)
             
             _set_async_generator_hooks(thread)
-- 
2.43.0


From 1e13614a76a6c33e72ec845b6ab844cb23b419ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 023/158] fix: send all the bytes of buffers with multi-byte
 items over sockets

---
 scarletio/core/event_loop/event_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 114129b..a4cf86b 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2456,6 +2456,10 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         if not isinstance(data, memoryview):
             data = memoryview(data)
         
+        # We count bytes and not items.
+        if (data.itemsize != 1) or (data.ndim != 1):
+            data = data.cast('B')
+        
         if not data:
             return
         
-- 
2.43.0


From cae7b16062d05e2ccebdb8da32f0675faf55c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 024/158] fix: close connections accepted while the accepting
 task is cancelled

---
 scarletio/core/event_loop/event_loop.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index a4cf86b..ba6f155 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2199,7 +2199,14 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         handle = self.add_reader(file_descriptor, self._socket_accept, future, socket)
         future.add_done_callback(partial_func(self._socket_read_done_callback, file_descriptor, handle))
         
-        return await future
+        try:
+            return await future
+        except:
+            # If we are cancelled after the connection was accepted no one would know about it.
+            if future.is_done() and (not future.is_cancelled()) and (future.get_exception() is None):
+                future.get_result()[0].close()
+            
+            raise
     
     
     def _socket_accept(self, future, socket):
-- 
2.43.0


From 03d6cb5216b0a3a75963ffcd10904f192e4315f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 025/158] fix: set the peer name of transports

---
 scarletio/core/protocols_and_transports/transport_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index b372a4d..91edc96 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -190,7 +190,7 @@ class SocketTransportLayerBase(TransportLayerBase):
         
         extra = set_extra_info(extra, EXTRA_INFO_NAME_SOCKET_NAME, socket_name)
         
-        if has_extra_info(extra, EXTRA_INFO_NAME_PEER_NAME):
+        if not has_extra_info(extra, EXTRA_INFO_NAME_PEER_NAME):
             try:
                 peer_name = socket.getpeername()
             except SocketError:
-- 
2.43.0


From 2693ff623b660e544ea867e625bab05a04cdc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 026/158] fix: do not start reading from transports closed or
 paused when their connection is made

---
 .../protocols_and_transports/transport_layer.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 91edc96..61fc771 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -578,7 +578,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         _set_nodelay(socket)
         
         # only start reading when connection_made() has been called
-        loop.call_soon(loop.add_reader, self._file_descriptor, self._read_ready)
+        loop.call_soon(self._add_reader)
         if (waiter is not None):
             # only wake up the waiter when connection_made() has been called
             loop.call_soon(type(waiter).set_result_if_pending, waiter, None)
@@ -586,6 +586,17 @@ class SocketTransportLayer(SocketTransportLayerBase):
         return self
     
     
+    def _add_reader(self):
+        """
+        Starts to read from the socket. Called after the protocol's ``.connection_made``, which might close the transport
+        or pause its reading.
+        """
+        if self._closing or self._paused:
+            return
+        
+        self._loop.add_reader(self._file_descriptor, self._read_ready)
+    
+    
     @copy_docs(SocketTransportLayerBase.write)
     def write(self, data):
         if not isinstance(data, (bytes, bytearray, memoryview)):
-- 
2.43.0


From 635741662c12b3b6ea5332f61728819a3a3b8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 027/158] fix: write all the bytes of buffers with multi-byte
 items to transports

---
 scarletio/core/protocols_and_transports/transport_layer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 61fc771..54fd129 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -604,6 +604,10 @@ class SocketTransportLayer(SocketTransportLayerBase):
                 f'`data` can be `bytes-like`, got {type(data).__name__}; {reprlib.repr(data)}.'
             )
         
+        # We count bytes and not items.
+        if isinstance(data, memoryview) and ((data.itemsize != 1) or (data.ndim != 1)):
+            data = data.cast('B')
+        
         if self._at_eof:
             raise RuntimeError(
                 f'Cannot call `.write` after `.write_eof`; self = {self!r}.'
-- 
2.43.0


From d2bb9d10451f8430b4acee384371601b0f516609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 028/158] fix: handle end of file written to transports which
 are closing or whose connection is gone

---
 .../protocols_and_transports/transport_layer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 54fd129..1924311 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -648,13 +648,24 @@ class SocketTransportLayer(SocketTransportLayerBase):
     
     @copy_docs(SocketTransportLayerBase.write_eof)
     def write_eof(self):
-        if self._at_eof:
+        if self._at_eof or self._closing:
             return
         
         self._at_eof = True
         
         if not self._buffer:
+            self._shutdown_writing()
+    
+    
+    def _shutdown_writing(self):
+        """
+        Closes the write end of the socket. Called when everything is written after a ``.write_eof`` call.
+        """
+        try:
             self._socket.shutdown(SOCKET_SHUTDOWN_WR)
+        except OSError as exception:
+            # The connection is gone.
+            self._force_close(exception)
     
 
     @copy_docs(SocketTransportLayerBase.can_write_eof)
@@ -773,7 +784,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
-                    self._socket.shutdown(SOCKET_SHUTDOWN_WR)
+                    self._shutdown_writing()
     
     else:
         def _write_ready(self):
@@ -824,7 +835,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
-                    self._socket.shutdown(SOCKET_SHUTDOWN_WR)
+                    self._shutdown_writing()
 
 
 class DatagramSocketTransportLayer(SocketTransportLayerBase):
-- 
2.43.0


From 6b6e1a04c17894c4fddee1e4bd6f9566b995c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 029/158] fix: report the exception of transports aborted while
 their protocol resumes writing

---
 .../protocols_and_transports/transport_layer.py    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 1924311..7bb2c0e 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -780,7 +780,12 @@ class SocketTransportLayer(SocketTransportLayerBase):
             if not buffer:
                 self._loop.remove_writer(self._file_descriptor)
                 
-                if self._closing:
+                if self._connection_lost:
+                    # Closed or aborted by the protocol meanwhile, connection lost is already scheduled.
+                    pass
+                
+                elif self._closing:
+                    self._connection_lost = True
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
@@ -831,7 +836,12 @@ class SocketTransportLayer(SocketTransportLayerBase):
             if not buffer:
                 self._loop.remove_writer(self._file_descriptor)
                 
-                if self._closing:
+                if self._connection_lost:
+                    # Closed or aborted by the protocol meanwhile, connection lost is already scheduled.
+                    pass
+                
+                elif self._closing:
+                    self._connection_lost = True
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
-- 
2.43.0


From 1df1bc8e3f2ee3e13495314b45e86d40934abf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 030/158] fix: report end of file only once when the reading of
 a transport is resumed after it

---
 .../protocols_and_transports/transport_layer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 7bb2c0e..da267d9 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -541,10 +541,13 @@ class SocketTransportLayer(SocketTransportLayerBase):
     _at_eof : `bool`
         Whether ``.write_eof`` was called.
     
+    _eof_received : `bool`
+        Whether end of file was received.
+    
     _server : ``None | Server``
         If the transport is server side, it's server is set as this attribute.
     """
-    __slots__ = ('_at_eof', '_server')
+    __slots__ = ('_at_eof', '_eof_received', '_server')
     
     def __new__(cls, loop, extra, socket, protocol, waiter, server):
         """
@@ -569,6 +572,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         
         self._server = server
         self._at_eof = False
+        self._eof_received = False
         
         if (server is not None):
             server._attach()
@@ -591,7 +595,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         Starts to read from the socket. Called after the protocol's ``.connection_made``, which might close the transport
         or pause its reading.
         """
-        if self._closing or self._paused:
+        if self._closing or self._paused or self._eof_received:
             return
         
         self._loop.add_reader(self._file_descriptor, self._read_ready)
@@ -698,9 +702,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
             return False
         
         self._paused = False
-        if not self._closing:
-            self._loop.add_reader(self._file_descriptor, self._read_ready)
-        
+        self._add_reader()
         return True
     
     
@@ -738,8 +740,11 @@ class SocketTransportLayer(SocketTransportLayerBase):
         else:
             if data:
                 self._protocol.data_received(data)
+                return
+            
+            self._eof_received = True
             
-            elif self._protocol.eof_received():
+            if self._protocol.eof_received():
                 # We're keeping the connection open so the protocol can write more, but we still can't receive more,
                 # so remove the reader callback.
                 self._loop.remove_reader(self._file_descriptor)
-- 
2.43.0


From 7b1fea4d1229f4c8cda04c183829551d0b88ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 031/158] fix: wake every task draining a protocol, also when
 its reading is paused or the connection is lost

---
 .../core/protocols_and_transports/protocol.py | 59 +++++++++++--------
 scarletio/web_common/http_protocol.py         |  7 ++-
 scarletio/web_socket/web_socket_client.py     |  4 +-
 .../web_socket/web_socket_common_protocol.py  |  4 +-
 .../web_socket/web_socket_server_protocol.py  |  4 +-
 5 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index be0b7d1..40b0a04 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1209,10 +1209,13 @@ class ReadWriteProtocolBase(ReadProtocolBase):
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
     
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
+    
+    _writing_paused : `bool`
+        Whether writing is paused, because the transport's write buffer is over its limit.
     """
-    __slots__ = ('_drain_waiter', )
+    __slots__ = ('_drain_waiters', '_writing_paused')
     
     def __new__(cls, loop):
         """
@@ -1225,39 +1228,46 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         """
         self = ReadProtocolBase.__new__(cls, loop)
         
-        self._drain_waiter = None
+        self._drain_waiters = None
+        self._writing_paused = False
         
         return self
     
     
     @copy_docs(AbstractProtocolBase.pause_writing)
     def pause_writing(self):
-        self._paused = True
+        self._writing_paused = True
     
     
     @copy_docs(AbstractProtocolBase.resume_writing)
     def resume_writing(self):
-        self._paused = False
+        self._writing_paused = False
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        drain_waiter.set_result_if_pending(None)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            drain_waiter.set_result_if_pending(None)
     
     
     async def _drain_helper(self):
         """
-        Called when the transport buffer after writing goes over the high limit mark to wait till it is drained.
+        Called after writing to wait till the write buffer is drained.
         
         This method is a coroutine.
         """
-        if not self._paused:
+        if not self._writing_paused:
             return
         
         drain_waiter = Future(self._loop)
-        self._drain_waiter = drain_waiter
+        
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
+            self._drain_waiters = drain_waiters = []
+        
+        drain_waiters.append(drain_waiter)
         await drain_waiter
     
     
@@ -1268,22 +1278,19 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         else:
             self.set_exception(exception)
         
-        # wake up the writer if currently paused.
-        if not self._paused:
-            return
+        # wake up the writers if currently paused.
+        self._writing_paused = False
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        if drain_waiter.is_done():
-            return
-        
-        if exception is None:
-            drain_waiter.set_result(None)
-        else:
-            drain_waiter.set_exception(exception)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            if exception is None:
+                drain_waiter.set_result_if_pending(None)
+            else:
+                drain_waiter.set_exception_if_pending(exception)
     
     
     @copy_docs(AbstractProtocolBase.write)
diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 334031d..b836f20 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -682,8 +682,8 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
     """
     __slots__ = ()
     
@@ -814,6 +814,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
     def isekai_into(self, other_class):
         new = HttpReadProtocol.isekai_into(self, other_class)
         
-        new._drain_waiter = self._drain_waiter
+        new._drain_waiters = self._drain_waiters
+        new._writing_paused = self._writing_paused
         
         return new
diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index c4439a0..38cb0e4 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -51,8 +51,8 @@ class WebSocketClient(WebSocketCommonProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 5408a84..f5650b8 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -63,8 +63,8 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index d911ed0..4b0c14a 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -50,8 +50,8 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
-- 
2.43.0


From a48b2cc786ad553143d3c9807a13514b7b9fe55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 032/158] fix: do not try to close asynchronous generators left
 running by a closed coroutine

---
 scarletio/core/event_loop/event_loop_functionality_helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index 27f3372..2cad818 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -129,6 +129,10 @@ def _finalize_async_generator(loop, async_generator):
     async_generator : `async_generator`
     """
     loop._async_generators.discard(async_generator)
+    
+    # If a coroutine iterating over it was closed, it might stay marked as running and then it cannot be closed anymore.
+    if async_generator.ag_running:
+        return
     if not loop.running:
         return
     
-- 
2.43.0


From 51d95b08115cb4a4810d1736fb55ea01255e67a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 033/158] fix: reset the offset of protocols when their
 partially read chunk is consumed

---
 scarletio/core/protocols_and_transports/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 40b0a04..7d1a1c2 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -859,6 +859,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             
             n -= (chunk_size - offset)
             del chunks[0]
+            self._offset = 0
             yield memoryview(chunk)[offset:]
         
         while True:
-- 
2.43.0


From 65bbe93884dfb3980a2cdbff108a2e31351c23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 034/158] fix: find boundaries over chunks and keep the data
 before them when reading until a boundary

---
 scarletio/core/protocols_and_transports/protocol.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 7d1a1c2..5cfd489 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -981,13 +981,14 @@ class ReadProtocolBase(AbstractProtocolBase):
                 offset, intersection_sizes = _finish_intersection_sizes(chunk, boundary, intersection_sizes)
                 # Found boundary in between?
                 if offset != -1:
+                    released, held_back = _get_released_from_held_back(held_back, len(boundary) - offset)
+                    
                     # Do not offset if offset if at the end of the chunk. Delete chunk instead.
                     if offset == len(chunk):
                         del chunks[0]
                         offset = 0
                     self._offset = offset
                     
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary) - offset)
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1011,7 +1012,10 @@ class ReadProtocolBase(AbstractProtocolBase):
                         _continue_intersection_sizes(chunk, boundary, intersection_sizes),
                         _get_end_intersection_sizes(chunk, 0, boundary),
                     )
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary))
+                    # Hold back only the part which can be the start of the boundary.
+                    released, held_back = _get_released_from_held_back(
+                        held_back, 0 if intersection_sizes is None else intersection_sizes[0]
+                    )
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1038,7 +1042,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             self._offset = 0
             if offset:
                 chunk = memoryview(chunk)[offset:]
-            intersection_sizes = _get_end_intersection_sizes(chunk, offset, boundary)
+            intersection_sizes = _get_end_intersection_sizes(chunk, 0, boundary)
             if (intersection_sizes is not None):
                 offset = len(chunk) - intersection_sizes[0]
                 held_back = [memoryview(chunk)[offset:]]
-- 
2.43.0


From 78be471b04a8b3cc952f13a498dfa067617cef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 035/158] fix: do not take an interim response for the final
 one

---
 scarletio/http_client/client_response.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 685e510..ee5294c 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -184,7 +184,14 @@ class ClientResponse(RichAttributeErrorBaseType):
         """
         try:
             protocol = self.connection.protocol
-            self.raw_message = message = await protocol.read_http_response()
+            while True:
+                message = await protocol.read_http_response()
+                # Interim responses precede the final one. `101` is the last http response on its connection.
+                status = message.status
+                if (status < 100) or (status >= 200) or (status == 101):
+                    break
+            
+            self.raw_message = message
             
             if self.method == METHOD_CONNECT:            
                 # Do not read anything if we are doing a connect request.
-- 
2.43.0


From 4e84ea05865142ba4611f48169f96e3e76fe7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 036/158] fix: do not fail at the reason of a response with
 unregistered status

---
 scarletio/http_client/client_response.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index ee5294c..25da43a 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -157,7 +157,11 @@ class ClientResponse(RichAttributeErrorBaseType):
         if (reason is not None):
             return reason
         
-        return HTTPStatus(message.status).phrase
+        try:
+            return HTTPStatus(message.status).phrase
+        except ValueError:
+            # Not a registered status.
+            return None
     
     
     @property
-- 
2.43.0


From 7115d27a01dec8240ad9209e2057076d7c45fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 037/158] fix: accept only ascii digits as content length

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index b836f20..91147aa 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -407,7 +407,7 @@ class HttpReadProtocol(ReadProtocolBase):
         """
         length = message.headers.get(CONTENT_LENGTH, None)
         if (length is not None):
-            if not length.isdigit():
+            if not (length.isascii() and length.isdigit()):
                 raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
             
             length = int(length)
-- 
2.43.0


From a42c19571adcb1e5d6214095c2165da54430f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 038/158] fix: reject messages with contradictory content
 lengths

---
 scarletio/web_common/http_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 91147aa..c4bcac9 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -410,6 +410,9 @@ class HttpReadProtocol(ReadProtocolBase):
             if not (length.isascii() and length.isdigit()):
                 raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
             
+            if any(value != length for value in message.headers.get_all(CONTENT_LENGTH, ())):
+                raise PayloadError(f'Multiple different {CONTENT_LENGTH} received.')
+            
             length = int(length)
         
         if (not message.upgraded):
-- 
2.43.0


From 4493607e38b3d2691323f634d2474d0c095b529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 039/158] fix: accept only hexadecimal digits as chunk size

---
 scarletio/web_common/http_protocol.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index c4bcac9..57dc782 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -4,6 +4,7 @@ from base64 import b64decode as base64_decode
 from binascii import a2b_qp as qp_decode
 from functools import partial as partial_func
 from random import getrandbits
+from re import compile as re_compile
 from struct import Struct
 
 from ..core import ReadProtocolBase, ReadWriteProtocolBase
@@ -21,6 +22,8 @@ from .content_type import parse_content_type
 from .web_socket_frame import WebSocketFrame, apply_web_socket_mask
 
 
+CHUNK_SIZE_RP = re_compile(b'[ \t]*[0-9a-fA-F]+[ \t]*')
+
 PAYLOAD_ERROR_EOF_AT_HTTP_HEADER = 'EOF received meanwhile reading http headers.'
 
 
@@ -484,12 +487,13 @@ class HttpReadProtocol(ReadProtocolBase):
             if index != -1:
                 line = line[:index]
             
-            try:
-                length = int(line, 16)
-            except ValueError:
+            # `int` also accepts signs, underscores, prefix and not ascii digits.
+            if CHUNK_SIZE_RP.fullmatch(line) is None:
                 raise PayloadError(
                     f'Not hexadecimal chunk size: {line!r}.'
-                ) from None
+                )
+            
+            length = int(line, 16)
             
             if length == 0:
                 end = await self._read_exactly_as_one(2)
-- 
2.43.0


From fcff48b6221433f10afd7b099bc1c92f4eee7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 040/158] fix: accept trailer fields after the last chunk

---
 scarletio/web_common/http_protocol.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 57dc782..e64f032 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -496,11 +496,9 @@ class HttpReadProtocol(ReadProtocolBase):
             length = int(line, 16)
             
             if length == 0:
-                end = await self._read_exactly_as_one(2)
-                if end != b'\r\n':
-                    raise PayloadError(
-                        f'Received chunk does not end with b\'\\r\\n\', instead with: {end}.'
-                    )
+                # Trailer fields may follow the last chunk, these are ignored.
+                while await self._read_until_as_one(b'\r\n'):
+                    pass
                 break
             
             async for chunk in self._read_exactly_by_chunk(length):
-- 
2.43.0


From 17a57e56462a0f74924e318944bdd5f5a60174f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 041/158] fix: decompress deflate encoded content with zlib
 header

---
 scarletio/web_common/compressors.py | 63 ++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/compressors.py b/scarletio/web_common/compressors.py
index c2f26b1..1f61a3c 100755
--- a/scarletio/web_common/compressors.py
+++ b/scarletio/web_common/compressors.py
@@ -46,6 +46,67 @@ ZLIB_COMPRESSOR = zlib.compressobj
 
 ZLIB_MAX_WBITS = zlib.MAX_WBITS
 
+class DeflateDecompressor:
+    """
+    Decompressor for the `deflate` content encoding.
+    
+    By specification it is data with zlib header, but some send raw deflate data. Which one it is, is decided by the
+    first byte.
+    
+    Attributes
+    ----------
+    _decompressor : `None | zlib.Decompress`
+        The used decompressor. Created when the first byte is received.
+    """
+    __slots__ = ('_decompressor',)
+    
+    def __init__(self):
+        """
+        Creates a new deflate decompressor.
+        """
+        self._decompressor = None
+    
+    
+    def decompress(self, value):
+        """
+        Decompresses the given value.
+        
+        Parameters
+        ----------
+        value : `bytes-like`
+            The value to decompress.
+        
+        Returns
+        -------
+        value : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            if not value:
+                return b''
+            
+            # The lower half of the first byte of a zlib header is the compression method, which is always 8.
+            wbits = ZLIB_MAX_WBITS if (value[0] & 0b1111) == 8 else -ZLIB_MAX_WBITS
+            self._decompressor = decompressor = ZLIB_DECOMPRESSOR(wbits = wbits)
+        
+        return decompressor.decompress(value)
+    
+    
+    def flush(self):
+        """
+        Flushes out the remaining data.
+        
+        Returns
+        -------
+        value : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            return b''
+        
+        return decompressor.flush()
+
+
 def get_decompressor_for(content_encoding):
     """
     Gets decompress object for the given content-encoding if applicable.
@@ -72,7 +133,7 @@ def get_decompressor_for(content_encoding):
         decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
     
     elif content_encoding == 'deflate':
-        decompressor = ZLIB_DECOMPRESSOR(wbits = -ZLIB_MAX_WBITS)
+        decompressor = DeflateDecompressor()
     
     elif content_encoding == 'br':
         if BROTLI_DECOMPRESSOR is None:
-- 
2.43.0


From 46097a53846f85bc190dd03b3b51032592c6fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 042/158] fix: decompress every member of gzip encoded content

---
 scarletio/web_common/compressors.py | 63 ++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/compressors.py b/scarletio/web_common/compressors.py
index 1f61a3c..4e3c59a 100755
--- a/scarletio/web_common/compressors.py
+++ b/scarletio/web_common/compressors.py
@@ -107,6 +107,67 @@ class DeflateDecompressor:
         return decompressor.flush()
 
 
+class GzipDecompressor:
+    """
+    Decompressor for the `gzip` content encoding, which may consist of multiple members.
+    
+    Attributes
+    ----------
+    _decompressor : `zlib.Decompress`
+        Decompressor of the current member.
+    """
+    __slots__ = ('_decompressor',)
+    
+    def __init__(self):
+        """
+        Creates a new gzip decompressor.
+        """
+        self._decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
+    
+    
+    def decompress(self, value):
+        """
+        Decompresses the given value.
+        
+        Parameters
+        ----------
+        value : `bytes-like`
+            The value to decompress.
+        
+        Returns
+        -------
+        value : `bytes`
+        """
+        if not value:
+            return b''
+        
+        parts = []
+        decompressor = self._decompressor
+        
+        while True:
+            if decompressor.eof:
+                decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
+                self._decompressor = decompressor
+            
+            parts.append(decompressor.decompress(value))
+            value = decompressor.unused_data
+            if not value:
+                break
+        
+        return b''.join(parts)
+    
+    
+    def flush(self):
+        """
+        Flushes out the remaining data.
+        
+        Returns
+        -------
+        value : `bytes`
+        """
+        return self._decompressor.flush()
+
+
 def get_decompressor_for(content_encoding):
     """
     Gets decompress object for the given content-encoding if applicable.
@@ -130,7 +191,7 @@ def get_decompressor_for(content_encoding):
         decompressor = None
     
     elif content_encoding == 'gzip':
-        decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
+        decompressor = GzipDecompressor()
     
     elif content_encoding == 'deflate':
         decompressor = DeflateDecompressor()
-- 
2.43.0


From 6421ace259eb9e91dbb5735b5a22d9dd0a4a9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 043/158] fix: do not accept incomplete compressed payload as
 complete

---
 scarletio/web_common/compressors.py   | 32 ++++++++++++++++++++++++++-
 scarletio/web_common/http_protocol.py |  6 +++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/compressors.py b/scarletio/web_common/compressors.py
index 4e3c59a..81e8dd5 100755
--- a/scarletio/web_common/compressors.py
+++ b/scarletio/web_common/compressors.py
@@ -105,6 +105,19 @@ class DeflateDecompressor:
             return b''
         
         return decompressor.flush()
+    
+    
+    @property
+    def eof(self):
+        """
+        Returns whether the compressed data is complete. Empty data is.
+        
+        Returns
+        -------
+        eof : `bool`
+        """
+        decompressor = self._decompressor
+        return (decompressor is None) or decompressor.eof
 
 
 class GzipDecompressor:
@@ -115,14 +128,18 @@ class GzipDecompressor:
     ----------
     _decompressor : `zlib.Decompress`
         Decompressor of the current member.
+    
+    _started : `bool`
+        Whether any data was received.
     """
-    __slots__ = ('_decompressor',)
+    __slots__ = ('_decompressor', '_started')
     
     def __init__(self):
         """
         Creates a new gzip decompressor.
         """
         self._decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
+        self._started = False
     
     
     def decompress(self, value):
@@ -141,6 +158,7 @@ class GzipDecompressor:
         if not value:
             return b''
         
+        self._started = True
         parts = []
         decompressor = self._decompressor
         
@@ -166,6 +184,18 @@ class GzipDecompressor:
         value : `bytes`
         """
         return self._decompressor.flush()
+    
+    
+    @property
+    def eof(self):
+        """
+        Returns whether the compressed data is complete. Empty data is.
+        
+        Returns
+        -------
+        eof : `bool`
+        """
+        return (not self._started) or self._decompressor.eof
 
 
 def get_decompressor_for(content_encoding):
diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index e64f032..8358ee6 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -580,6 +580,9 @@ class HttpReadProtocol(ReadProtocolBase):
         
         if chunk:
             payload_stream.add_received_chunk(chunk)
+        
+        if not getattr(decompressor, 'eof', True):
+            raise PayloadError('Compressed payload is incomplete.')
     
     
     async def _read_chunked_encoded(self, decompressor, payload_stream):
@@ -627,6 +630,9 @@ class HttpReadProtocol(ReadProtocolBase):
         
         if chunk:
             payload_stream.add_received_chunk(chunk)
+        
+        if not getattr(decompressor, 'eof', True):
+            raise PayloadError('Compressed payload is incomplete.')
     
     
     def isekai_into(self, other_class):
-- 
2.43.0


From cab8edb83fa1850857822b49ddda392a33c215f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 044/158] fix: decompress encoded payload which is read until
 end of file

---
 scarletio/web_common/http_protocol.py | 67 +++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 8358ee6..f8b61e5 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -457,6 +457,11 @@ class HttpReadProtocol(ReadProtocolBase):
                 
                 return partial_func(self._read_chunked_encoded, decompressor)
             
+            if not message.upgraded:
+                decompressor = get_decompressor_for(message.encoding)
+                if (decompressor is not None):
+                    return partial_func(self._read_until_eof_encoded, decompressor)
+            
             return self._read_until_eof
         
         return None
@@ -635,6 +640,68 @@ class HttpReadProtocol(ReadProtocolBase):
             raise PayloadError('Compressed payload is incomplete.')
     
     
+    async def _read_until_eof_encoded(self, decompressor, payload_stream):
+        """
+        Payload reader task, that reads until end of file, then decompresses the received data with the given
+        decompress object.
+        
+        This method is a coroutine.
+        
+        Parameters
+        ----------
+        decompressor : `ZLIB_DECOMPRESSOR`, `BROTLI_DECOMPRESSOR`
+            Decompressor used to decompress the data after receiving it.
+        
+        payload_stream : ``PayloadStream``
+            Payload buffer to read into.
+        
+        Raises
+        ------
+        PayloadError
+            Cannot decompress a chunk.
+        """
+        chunks = self._chunks
+        offset = self._offset
+        self._offset = 0
+        
+        while True:
+            if chunks:
+                chunk = chunks.popleft()
+                if offset:
+                    chunk = memoryview(chunk)[offset :]
+                    offset = 0
+            
+            elif self._at_eof:
+                break
+            
+            else:
+                try:
+                    chunk = await self._wait_for_data()
+                except EOFError:
+                    break
+                
+                del chunks[0]
+            
+            try:
+                chunk = decompressor.decompress(chunk)
+            except COMPRESSION_ERRORS:
+                raise PayloadError('Cannot decompress chunk.') from None
+            
+            payload_stream.add_received_chunk(chunk)
+        
+        # Flush decompressor at the end in case it is required.
+        try:
+            chunk = decompressor.flush()
+        except COMPRESSION_ERRORS:
+            raise PayloadError('Cannot decompress chunk.') from None
+        
+        if chunk:
+            payload_stream.add_received_chunk(chunk)
+        
+        if not getattr(decompressor, 'eof', True):
+            raise PayloadError('Compressed payload is incomplete.')
+    
+    
     def isekai_into(self, other_class):
         """
         Copies the protocol's attributes to an other one.
-- 
2.43.0


From 69f038a9a9f974682181a2b038438d9d7d0b1903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 045/158] fix: do not take a response for an upgraded one if
 the protocol was not switched

---
 scarletio/http_client/client_response.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 25da43a..1368099 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -197,6 +197,10 @@ class ClientResponse(RichAttributeErrorBaseType):
             
             self.raw_message = message
             
+            # Servers may list what they could upgrade to in any response, but only `101` switches protocols.
+            if message.status != 101:
+                message.upgraded = False
+            
             if self.method == METHOD_CONNECT:            
                 # Do not read anything if we are doing a connect request.
                 payload_stream = None
-- 
2.43.0


From 7072b58854c9687e83dd661cf7be771cd679bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 046/158] fix: do not reuse http connections which are at eof

---
 scarletio/web_common/http_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index f8b61e5..ca18059 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -87,7 +87,11 @@ class HttpReadProtocol(ReadProtocolBase):
         if (self._exception is not None):
             return True
         
-        if (not self._at_eof) and (self._offset or self._chunks):
+        # At eof, the connection is not usable anymore (it also counts as at eof if reading its payload was aborted).
+        if self._at_eof:
+            return True
+        
+        if self._offset or self._chunks:
             return True
         
         return False
-- 
2.43.0


From 011c71f56d47a3ad00a78022aeedf7e1eab8f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 047/158] fix: close expired http connections which are not
 secure

---
 scarletio/http_client/protocol_basket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/http_client/protocol_basket.py b/scarletio/http_client/protocol_basket.py
index 2bf922c..8443939 100755
--- a/scarletio/http_client/protocol_basket.py
+++ b/scarletio/http_client/protocol_basket.py
@@ -108,6 +108,7 @@ class ProtocolBasket(RichAttributeErrorBaseType):
             del available[index]
             
             transport = protocol.get_transport()
+            protocol.close()
             if self.connection_key.secure and (transport is not None):
                 transport.abort()
         
-- 
2.43.0


From ee3ee2fd518786e4a143ff10b925419059a784d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 048/158] fix: clean up http connections at the closest
 expiration

---
 scarletio/http_client/connector_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scarletio/http_client/connector_base.py b/scarletio/http_client/connector_base.py
index 8641dfd..c1d9c02 100755
--- a/scarletio/http_client/connector_base.py
+++ b/scarletio/http_client/connector_base.py
@@ -303,8 +303,15 @@ class ConnectorBase(RichAttributeErrorBaseType):
         
         self.add_available_protocol(key, protocol, keep_alive_timeout, performed_requests)
         
-        if self.clean_up_handle is None:
-            self.clean_up_handle = self.loop.call_after_weak(keep_alive_timeout, self._clean_up)
+        # The clean up handle can be missing or could be scheduled for a later time.
+        clean_up_handle = self.clean_up_handle
+        clean_up_at = LOOP_TIME() + keep_alive_timeout
+        if (clean_up_handle is not None) and (clean_up_handle.when > clean_up_at):
+            clean_up_handle.cancel()
+            clean_up_handle = None
+        
+        if clean_up_handle is None:
+            self.clean_up_handle = self.loop.call_at_weak(clean_up_at, self._clean_up)
     
     
     def get_closest_expiration(self):
-- 
2.43.0


From 88968b1189aa2b15f4223b13c5d77fd8df0970e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 049/158] fix: close http connections released to a closed
 connector

---
 scarletio/http_client/connector_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/http_client/connector_base.py b/scarletio/http_client/connector_base.py
index c1d9c02..f0ebd0f 100755
--- a/scarletio/http_client/connector_base.py
+++ b/scarletio/http_client/connector_base.py
@@ -290,6 +290,7 @@ class ConnectorBase(RichAttributeErrorBaseType):
             The amount of performed requests on the connection.
         """
         if self.closed:
+            protocol.close()
             return
         
         self.release_used_protocol(key, protocol)
-- 
2.43.0


From 7c8d84e233536a9c2d706ccc6c50cde0026e20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 050/158] fix: do not reuse http connections which still have a
 request body to write

---
 scarletio/http_client/client_request.py  | 2 +-
 scarletio/http_client/client_response.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_request.py b/scarletio/http_client/client_request.py
index b8ca3bd..cfaa7a7 100755
--- a/scarletio/http_client/client_request.py
+++ b/scarletio/http_client/client_request.py
@@ -474,7 +474,7 @@ class ClientRequest(RichAttributeErrorBaseType):
             raise
         
         except CancelledError:
-            await writer.write_eof()
+            # Do not write eof, the part which is written already must not look like a complete body.
             raise
         
         except BaseException as exception:
diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 1368099..ea2650b 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -270,8 +270,12 @@ class ClientResponse(RichAttributeErrorBaseType):
             return
         
         raw_message = self.raw_message
+        write_body_task = self.write_body_task
         if raw_message is None:
             keep_alive = None
+        elif (write_body_task is not None) and write_body_task.is_pending():
+            # The request is not written fully, so the connection cannot be used for an other one.
+            keep_alive = None
         else:
             keep_alive = raw_message.keep_alive
         
-- 
2.43.0


From 35b96c688557b74fcd672ada0a37fc6b2b1f0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 051/158] fix: resume reading of http connections when they
 become idle

---
 scarletio/http_client/connector_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/http_client/connector_base.py b/scarletio/http_client/connector_base.py
index f0ebd0f..5873460 100755
--- a/scarletio/http_client/connector_base.py
+++ b/scarletio/http_client/connector_base.py
@@ -304,6 +304,9 @@ class ConnectorBase(RichAttributeErrorBaseType):
         
         self.add_available_protocol(key, protocol, keep_alive_timeout, performed_requests)
         
+        # Reading could be paused because the last payload is yet unread. We want to know when the connection is lost.
+        protocol._resume_reading()
+        
         # The clean up handle can be missing or could be scheduled for a later time.
         clean_up_handle = self.clean_up_handle
         clean_up_at = LOOP_TIME() + keep_alive_timeout
-- 
2.43.0


From f57700c0f8354a080d9578801d53ab5c919e0c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 052/158] fix: http 1.0 connections are kept alive only if told
 so

---
 scarletio/web_common/http_message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_message.py b/scarletio/web_common/http_message.py
index e6a0cc2..c6636e9 100755
--- a/scarletio/web_common/http_message.py
+++ b/scarletio/web_common/http_message.py
@@ -280,7 +280,11 @@ class RawMessage(RichAttributeErrorBaseType):
         except KeyError:
             keep_alive_enabled = self.version >= HttpVersion11
         else:
-            keep_alive_enabled = ('close' not in connection.casefold())
+            connection = connection.casefold()
+            if self.version >= HttpVersion11:
+                keep_alive_enabled = ('close' not in connection)
+            else:
+                keep_alive_enabled = ('keep-alive' in connection)
         
         if keep_alive_enabled:
             keep_alive = KeepAliveInfo.from_header_value(self.headers.get(KEEP_ALIVE))
-- 
2.43.0


From 5a755a002cdd54ccd60e08fb57f79b02b2c7c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 053/158] fix: do not take a payload complete when the
 connector is closed

---
 scarletio/http_client/protocol_basket.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/http_client/protocol_basket.py b/scarletio/http_client/protocol_basket.py
index 8443939..0b404f5 100755
--- a/scarletio/http_client/protocol_basket.py
+++ b/scarletio/http_client/protocol_basket.py
@@ -130,6 +130,8 @@ class ProtocolBasket(RichAttributeErrorBaseType):
         if (used is not None):
             self.used = None
             for protocol in used:
+                # If a payload is being received, it did not end because of this.
+                protocol.set_exception(ConnectionError('Connection closed.'))
                 protocol.close()
     
     
-- 
2.43.0


From ddd3dc82550f165ef1b8f0ded178b9f7d3ded61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 054/158] fix: a refused redirect raises its ConnectionError
 instead of an AttributeError

---
 scarletio/http_client/http_client.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index eb39a7e..d0faea7 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -213,6 +213,7 @@ class HTTPClient(RichAttributeErrorBaseType):
         headers = IgnoreCaseMultiValueDictionary(headers)
         
         history = []
+        request_info = None
         url = URL(url)
         
         with Timeout(self.loop, REQUEST_TIMEOUT_DEFAULT):
@@ -234,6 +235,9 @@ class HTTPClient(RichAttributeErrorBaseType):
                     None,
                 )
                 
+                if request_info is None:
+                    request_info = request.request_info
+                
                 connection = await self.connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
@@ -251,7 +255,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     history.append(response)
                     if not redirects:
                         response.close()
-                        raise ConnectionError('Too many redirects', history[0].request_info, tuple(history))
+                        raise ConnectionError('Too many redirects', request_info, tuple(history))
                     
                     if (
                         (response.status == 303 and response.method != METHOD_HEAD)
@@ -279,7 +283,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
-                            history[0].request_info,
+                            request_info,
                             tuple(history),
                         )
                     
@@ -475,6 +479,7 @@ class HTTPClient(RichAttributeErrorBaseType):
             )
         
         history = []
+        request_info = None
         url = URL(url)
         
         with Timeout(self.loop, timeout):
@@ -496,6 +501,9 @@ class HTTPClient(RichAttributeErrorBaseType):
                     ssl_fingerprint,
                 )
                 
+                if request_info is None:
+                    request_info = request.request_info
+                
                 connection = await self.connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
@@ -513,7 +521,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     history.append(response)
                     if not redirects:
                         response.close()
-                        raise ConnectionError('Too many redirects', history[0].request_info, tuple(history))
+                        raise ConnectionError('Too many redirects', request_info, tuple(history))
                     
                     # For 301 and 302, mimic IE behaviour, now changed in RFC.
                     if (
@@ -541,7 +549,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
-                            history[0].request_info,
+                            request_info,
                             tuple(history),
                         )
                     
-- 
2.43.0


From eee3ba2b3219712f074e3bc945c90f4749978227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 055/158] fix: closing a connection of a failed request does
 not wait for the peer to read the request

---
 scarletio/core/protocols_and_transports/abstract.py | 6 ++++--
 scarletio/http_client/connection.py                 | 3 +++
 scarletio/http_client/protocol_basket.py            | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/abstract.py b/scarletio/core/protocols_and_transports/abstract.py
index 410739c..8ab3c5f 100755
--- a/scarletio/core/protocols_and_transports/abstract.py
+++ b/scarletio/core/protocols_and_transports/abstract.py
@@ -305,8 +305,10 @@ class AbstractProtocolBase:
         """
         transport = self.get_transport()
         if (transport is not None):
-            transport.close()
-            
+            if force:
+                transport.abort()
+            else:
+                transport.close()
             if force:
                 transport.abort()
     
diff --git a/scarletio/http_client/connection.py b/scarletio/http_client/connection.py
index 5acef83..8e65cce 100755
--- a/scarletio/http_client/connection.py
+++ b/scarletio/http_client/connection.py
@@ -86,6 +86,7 @@ class Connection(RichAttributeErrorBaseType):
             protocol = self.protocol
             if (protocol is not None):
                 connector.release(self.key, protocol, True, -1.0, 0)
+                protocol.close_transport(force = True)
     
     
     def get_transport(self):
@@ -166,6 +167,8 @@ class Connection(RichAttributeErrorBaseType):
         if (protocol is not None):
             self.protocol = None
             self.connector.release(self.key, protocol, True, -1.0, 0)
+            # The peer might never read the rest of the request, so do not wait for it to be sent.
+            protocol.close_transport(force = True)
     
     
     def release(self, keep_alive_info):
diff --git a/scarletio/http_client/protocol_basket.py b/scarletio/http_client/protocol_basket.py
index 0b404f5..a532f33 100755
--- a/scarletio/http_client/protocol_basket.py
+++ b/scarletio/http_client/protocol_basket.py
@@ -132,7 +132,8 @@ class ProtocolBasket(RichAttributeErrorBaseType):
             for protocol in used:
                 # If a payload is being received, it did not end because of this.
                 protocol.set_exception(ConnectionError('Connection closed.'))
-                protocol.close()
+                # The peer might never read the rest of the request, so do not wait for it to be sent.
+                protocol.close_transport(force = True)
     
     
     def pop_available_protocol(self, now):
-- 
2.43.0


From d8d9f0deb05f804501b6d5b1e0ae10de651985aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 056/158] fix: a request on a closed http client raises
 ConnectionError instead of AttributeError

---
 scarletio/http_client/http_client.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index d0faea7..b6765c5 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -238,7 +238,11 @@ class HTTPClient(RichAttributeErrorBaseType):
                 if request_info is None:
                     request_info = request.request_info
                 
-                connection = await self.connector.connect(request)
+                connector = self.connector
+                if connector is None:
+                    raise ConnectionError('The http client is closed.')
+                
+                connection = await connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
                 
@@ -504,7 +508,11 @@ class HTTPClient(RichAttributeErrorBaseType):
                 if request_info is None:
                     request_info = request.request_info
                 
-                connection = await self.connector.connect(request)
+                connector = self.connector
+                if connector is None:
+                    raise ConnectionError('The http client is closed.')
+                
+                connection = await connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
                 
-- 
2.43.0


From c65601f0c3dce19d490b94ce3adc2120f9efd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 057/158] fix: line breaks in headers are refused instead of
 being sent as further headers

---
 scarletio/web_common/http_protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index ca18059..e3b5b5a 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -22,6 +22,7 @@ from .content_type import parse_content_type
 from .web_socket_frame import WebSocketFrame, apply_web_socket_mask
 
 
+INVALID_HEADER_RP = re_compile('[\r\n\0]')
 CHUNK_SIZE_RP = re_compile(b'[ \t]*[0-9a-fA-F]+[ \t]*')
 
 PAYLOAD_ERROR_EOF_AT_HTTP_HEADER = 'EOF received meanwhile reading http headers.'
@@ -796,6 +797,10 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         result = [f'{method} {path} HTTP/{version.major}.{version.major}\r\n']
         extend = result.extend
         for k, v in headers.items():
+            # A line break would start an other header or the body.
+            if (INVALID_HEADER_RP.search(k) is not None) or (INVALID_HEADER_RP.search(v) is not None):
+                raise ValueError(f'Header contains an unallowed character; got {k!s}: {v!r}.')
+            
             extend((k, ': ', v, '\r\n'))
         
         result.append('\r\n')
-- 
2.43.0


From 8443683aa76daae30b8b58de69810b2f68b00a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 058/158] fix: the minor version of requests is sent

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index e3b5b5a..1655750 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -794,7 +794,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
-        result = [f'{method} {path} HTTP/{version.major}.{version.major}\r\n']
+        result = [f'{method} {path} HTTP/{version.major}.{version.minor}\r\n']
         extend = result.extend
         for k, v in headers.items():
             # A line break would start an other header or the body.
-- 
2.43.0


From cc43cc8e9766599baf6220171bb53ebcae27b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 059/158] fix: content codings of requests are case insensitive

---
 scarletio/http_client/client_request.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/http_client/client_request.py b/scarletio/http_client/client_request.py
index cfaa7a7..0462008 100755
--- a/scarletio/http_client/client_request.py
+++ b/scarletio/http_client/client_request.py
@@ -232,6 +232,7 @@ class ClientRequest(RichAttributeErrorBaseType):
             compression = headers.get(CONTENT_ENCODING, None)
             
             if (compression is not None):
+                compression = compression.casefold()
                 chunked = True
             
             # form_data
-- 
2.43.0


From 57e476d51c7523290f7150fe755897626963cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 060/158] fix: the size of a text file is not used as the size
 of the sent text

---
 scarletio/web_common/multipart.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 8a87004..b0439ad 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -467,15 +467,8 @@ class TextIOPayload(IOBasePayload):
                 content_type = f'text/plain; charset={encoding}'
                 keyword_parameters['content_type'] = content_type
         
+        # The size of the file is unusable, since its encoding and its line endings can differ from what is sent.
         IOBasePayload.__init__(self, data, keyword_parameters)
-        
-        try:
-            size = stat(data.fileno()).st_size - data.tell()
-        except OSError:
-            # `data.fileno()` is not supported. Example: `io.BufferedReader(io.BytesIO(b'data'))`
-            size = None
-        
-        self.size = size
     
     
     async def write(self, writer):
-- 
2.43.0


From 362e881a3c6d572d1bba7c0753e5843587e5cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 061/158] fix: files without a name can be sent

---
 scarletio/web_common/form_data.py | 3 +++
 scarletio/web_common/multipart.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/form_data.py b/scarletio/web_common/form_data.py
index 4d73e57..5848dd4 100755
--- a/scarletio/web_common/form_data.py
+++ b/scarletio/web_common/form_data.py
@@ -280,6 +280,9 @@ class FormData(RichAttributeErrorBaseType):
         
         if (file_name is None) and isinstance(value, IOBase):
             file_name = getattr(value, 'name', name)
+            # Files opened by descriptor have it as their name.
+            if not isinstance(file_name, str):
+                file_name = name
         
         if (file_name is not None):
             if not isinstance(file_name, str):
diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index b0439ad..2a81a47 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -379,7 +379,10 @@ class IOBasePayload(PayloadBase):
             Additional keyword parameters.
         """
         if 'file_name' not in keyword_parameters:
-            keyword_parameters['file_name'] = getattr(data, 'name', None)
+            file_name = getattr(data, 'name', None)
+            # Files opened by descriptor have it as their name.
+            if isinstance(file_name, str):
+                keyword_parameters['file_name'] = file_name
         
         PayloadBase.__init__(self, data, keyword_parameters)
         
-- 
2.43.0


From efab7a016c6419b729f559dc1e0e192455e703fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 062/158] fix: equal signs in query keys are encoded

---
 scarletio/web_common/url/url_query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index 307b091..4ae08b3 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -293,7 +293,7 @@ def serialize_query(query, encoded):
     # Sort the keys to always get the same output.
     for query_key in sorted(query.keys()):
         if encoded:
-            query_key_processed = encode(query_key)
+            query_key_processed = encode(query_key).replace('=', '%3D')
         else:
             query_key_processed = query_key
         
-- 
2.43.0


From e91180b833320709cd9d8882e306de00c31825ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 063/158] fix: the size of a memoryview payload is in bytes

---
 scarletio/web_common/multipart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 2a81a47..2127068 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -237,6 +237,10 @@ class BytesPayload(PayloadBase):
         """
         keyword_parameters.setdefault('content_type', DEFAULT_CONTENT_TYPE)
         
+        if isinstance(data, memoryview):
+            # The length of a memoryview is in elements.
+            data = data.cast('B')
+        
         PayloadBase.__init__(self, data, keyword_parameters)
         self.size = len(data)
     
-- 
2.43.0


From 14e26d42eaaf1569740c402d0822bee16023fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 064/158] fix: asynchronous files and streams in forms are sent
 as multipart fields

---
 scarletio/web_common/form_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/form_data.py b/scarletio/web_common/form_data.py
index 5848dd4..7d8e4b1 100755
--- a/scarletio/web_common/form_data.py
+++ b/scarletio/web_common/form_data.py
@@ -3,6 +3,7 @@ __all__ = ('FormData', )
 from io import IOBase
 from urllib.parse import urlencode
 
+from ..core import AsyncIO
 from ..utils import IgnoreCaseMultiValueDictionary, MultiValueDictionary, RichAttributeErrorBaseType, to_json
 
 from .headers import CONTENT_LENGTH, CONTENT_TRANSFER_ENCODING, CONTENT_TYPE
@@ -268,7 +269,7 @@ class FormData(RichAttributeErrorBaseType):
         TypeError
             - If a parameter's type is incorrect.
         """
-        if isinstance(value, IOBase):
+        if isinstance(value, (IOBase, AsyncIO)) or hasattr(type(value), '__aiter__'):
             self.multipart = True
         
         elif isinstance(value, (bytes, bytearray, memoryview)):
-- 
2.43.0


From 7acf5281d68a9628cfa80693efe35ff40aa0279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 065/158] fix: a chunked body is ended even if nothing is left
 to compress

---
 scarletio/web_common/http_stream_writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/http_stream_writer.py b/scarletio/web_common/http_stream_writer.py
index 64bdd11..1e17caf 100755
--- a/scarletio/web_common/http_stream_writer.py
+++ b/scarletio/web_common/http_stream_writer.py
@@ -151,8 +151,11 @@ class HTTPStreamWriter:
             else:
                 chunk = compressor.flush()
             
-            if chunk and self.chunked:
-                chunk = b''.join([format(len(chunk), 'x').encode('ascii'), b'\r\n', chunk, b'\r\n0\r\n\r\n'])
+            if self.chunked:
+                if chunk:
+                    chunk = b''.join([format(len(chunk), 'x').encode('ascii'), b'\r\n', chunk, b'\r\n0\r\n\r\n'])
+                else:
+                    chunk = b'0\r\n\r\n'
         
         if chunk:
             self._write(chunk)
-- 
2.43.0


From 8e9c300a74074b6f2182884d355489955cb70bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 066/158] fix: ipv6 addresses of urls are connected to without
 their brackets

---
 scarletio/http_client/connector_tcp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index a2371d3..352b852 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -239,6 +239,10 @@ class ConnectorTCP(ConnectorBase):
         
         # If host is an ip return
         if url.is_host_ip():
+            # ipv6 addresses are enclosed within brackets only in urls.
+            if host.startswith('['):
+                host = host[1 : -1]
+            
             yield HostInfo.from_ip(host, port, self.family)
             return
         
-- 
2.43.0


From fc2406c05476e39e09bb3c35e1865bd6d2cb799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 067/158] fix: slashes inside of path parts stay encoded

---
 scarletio/web_common/url/url_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_path.py b/scarletio/web_common/url/url_path.py
index 36ac192..51dcd50 100755
--- a/scarletio/web_common/url/url_path.py
+++ b/scarletio/web_common/url/url_path.py
@@ -138,7 +138,7 @@ class URLPath(URLPartBaseParsed):
             else:
                 for part in value:
                     if encoded:
-                        part = encode(part)
+                        part = encode(part).replace('/', '%2F')
                 
                     built.append('/')
                     built.append(part)
-- 
2.43.0


From d458b9860123546a39d78871e07dd7b6dc148610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 068/158] fix: plus signs in encoded paths do not become spaces

---
 scarletio/web_common/url/url_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_path.py b/scarletio/web_common/url/url_path.py
index 51dcd50..4498e4f 100755
--- a/scarletio/web_common/url/url_path.py
+++ b/scarletio/web_common/url/url_path.py
@@ -8,7 +8,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '@:', protected = '/')
-decode = unquote
+decode = lambda value: unquote(value, unsafe = '+')
 
 
 def normalize_path_parts(parts):
-- 
2.43.0


From 920be431655ca168c4cb5808ce148419bdb8b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 069/158] fix: percent encoded multi byte characters are
 decoded correctly

---
 scarletio/web_common/quoting.py | 71 ++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/scarletio/web_common/quoting.py b/scarletio/web_common/quoting.py
index d019b90..a7af4ec 100755
--- a/scarletio/web_common/quoting.py
+++ b/scarletio/web_common/quoting.py
@@ -46,7 +46,7 @@ def _base_16_char_to_int(char):
     -------
     value : `int`
     """
-    value = char & 0x7
+    value = char & 0xf
     if char >= b'0'[0] and char <= b'9'[0]:
         pass
     elif (char >= b'a'[0] and char <= b'f'[0]) or (char >= b'A'[0] and char <= b'F'[0]):
@@ -155,6 +155,35 @@ def quote(value, safe = None, protected = None, query_string = False):
     return result.decode('ascii')
 
 
+def _unquote_percentages_into(into, percentages, unsafe, query_string):
+    """
+    Decodes the bytes of subsequent percent encoded sequences. The bytes which cannot be decoded are kept encoded.
+    
+    Parameters
+    ----------
+    into : `list<str>`
+        List to extend with the decoded parts.
+    
+    percentages : `bytearray`
+        The bytes to decode.
+    
+    unsafe : `None | frozenset<str>`
+        Characters to keep encoded.
+    
+    query_string : `bool`
+        Whether a query string value is being decoded.
+    """
+    for char in percentages.decode('utf8', 'surrogateescape'):
+        if '\udc80' <= char <= '\udcff':
+            char = f'%{ord(char) & 0xff:02X}'
+        elif query_string and (char in QUERY_STRING_NOT_SAFE):
+            char = quote(char, query_string = True)
+        elif (unsafe is not None) and (char in unsafe):
+            char = quote(char)
+        
+        into.append(char)
+
+
 def unquote(value, unsafe = None, query_string = False):
     """
     Http unquotes the given `value`.
@@ -194,7 +223,6 @@ def unquote(value, unsafe = None, query_string = False):
     
     percentages = None
     result = []
-    joined = -1
     
     if (unsafe is not None):
         try:
@@ -204,21 +232,6 @@ def unquote(value, unsafe = None, query_string = False):
     
     iterator = iter(value)
     for char in iterator:
-        if (percentages is not None):
-            try:
-                unquoted = percentages.decode('utf8')
-            except UnicodeDecodeError:
-                pass
-            else:
-                if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                    result.append(quote(unquoted, query_string = True))
-                elif (unsafe is not None) and (unquoted in unsafe):
-                    result.append(quote(unquoted))
-                else:
-                    result.append(unquoted)
-                
-                percentages = None
-        
         if char == '%':
             try:
                 char_0 = next(iterator)
@@ -234,11 +247,9 @@ def unquote(value, unsafe = None, query_string = False):
             percentages.append(joined)
             continue
         
-        if (percentages is not None) and (joined != -1):
-            result.append('%')
-            result.append(char_0)
-            result.append(char_1)
-            joined = -1
+        if (percentages is not None):
+            _unquote_percentages_into(result, percentages, unsafe, query_string)
+            percentages = None
         
         if char == '+':
             if (unsafe is None) or (char not in unsafe):
@@ -257,20 +268,6 @@ def unquote(value, unsafe = None, query_string = False):
     
     
     if (percentages is not None):
-        try:
-            unquoted = percentages.decode('utf8')
-        except UnicodeDecodeError:
-            if (joined != -1):
-                result.append('%')
-                result.append(char_0)
-                result.append(char_1)
-        
-        else:
-            if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                result.append(quote(unquoted, query_string = True))
-            elif (unsafe is not None) and (unquoted in unsafe):
-                result.append(quote(unquoted))
-            else:
-                result.append(unquoted)
+        _unquote_percentages_into(result, percentages, unsafe, query_string)
     
     return ''.join(result)
-- 
2.43.0


From e89b0c63578097d812190840d9fa941aed02f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 070/158] fix: line breaks in the headers of multipart fields
 are not sent as further headers

---
 scarletio/web_common/header_building_and_parsing.py | 2 +-
 scarletio/web_common/multipart.py                   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index 0abe215..065ac42 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -480,7 +480,7 @@ def build_content_disposition_header(disposition_type, parameters, quote_fields)
                 value = quote(value)
                 value = f'utf-8\'\'{value!s}'
         else:
-            value = value.replace('\\', '\\\\').replace('"', '\\"')
+            value = value.replace('\\', '\\\\').replace('"', '\\"').replace('\r', '%0D').replace('\n', '%0A')
             value = f'"{value!s}"'
         
         parameter_parts.append('; ')
diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 2127068..03e96c1 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -1275,6 +1275,10 @@ class MultipartWriter(PayloadBase):
         result = []
         extend = result.extend
         for k, v in payload_headers.items():
+            # A line break would start an other header or the body of the part.
+            if ('\r' in k) or ('\n' in k) or ('\r' in v) or ('\n' in v):
+                raise ValueError(f'Header contains an unallowed character; got {k!s}: {v!r}.')
+            
             extend((k, ': ', v, '\r\n'))
         
         result.append('\r\n')
-- 
2.43.0


From b0e72cc64e1f60aa86481e6244ea75d67ff2dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 071/158] fix: line breaks in the method of requests are
 refused

---
 scarletio/web_common/http_protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 1655750..5845725 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -23,6 +23,7 @@ from .web_socket_frame import WebSocketFrame, apply_web_socket_mask
 
 
 INVALID_HEADER_RP = re_compile('[\r\n\0]')
+INVALID_METHOD_RP = re_compile('[\0-\x20\x7f]')
 CHUNK_SIZE_RP = re_compile(b'[ \t]*[0-9a-fA-F]+[ \t]*')
 
 PAYLOAD_ERROR_EOF_AT_HTTP_HEADER = 'EOF received meanwhile reading http headers.'
@@ -794,6 +795,10 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
+        # White space would end the method and start an other part of the request.
+        if (INVALID_METHOD_RP.search(method) is not None):
+            raise ValueError(f'Method contains an unallowed character; got {method!r}.')
+        
         result = [f'{method} {path} HTTP/{version.major}.{version.minor}\r\n']
         extend = result.extend
         for k, v in headers.items():
-- 
2.43.0


From f4e4b3671e83f28330f72713e780962407f4e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 072/158] fix: files which change while they are sent do not
 break the framing of their request

---
 scarletio/web_common/multipart.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 03e96c1..d91c441 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -13,7 +13,7 @@ from ..core import AsyncIO
 from ..utils import IgnoreCaseMultiValueDictionary, to_json
 
 from .compressors import BROTLI_COMPRESSOR, ZLIB_COMPRESSOR, ZLIB_MAX_WBITS
-from .exceptions import ContentEncodingError
+from .exceptions import ContentEncodingError, PayloadError
 from .header_building_and_parsing import CHARS, TOKENS, build_content_disposition_header
 from .headers import CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LENGTH, CONTENT_TRANSFER_ENCODING, CONTENT_TYPE
 from .content_type import parse_content_type
@@ -413,13 +413,21 @@ class IOBasePayload(PayloadBase):
             Http writer to write the payload's data to.
         """
         data = self.data
+        # If the size is known it is announced already. More or less data cannot be sent even if the file changed since.
+        remaining = self.size
         try:
-            while True:
-                chunk = data.read(BIG_CHUNK_LIMIT)
-                if chunk:
-                    await writer.write(chunk)
-                else:
+            while (remaining is None) or remaining:
+                chunk = data.read(BIG_CHUNK_LIMIT if remaining is None else min(remaining, BIG_CHUNK_LIMIT))
+                if not chunk:
                     break
+                
+                if (remaining is not None):
+                    remaining -= len(chunk)
+                
+                await writer.write(chunk)
+            
+            if remaining:
+                raise PayloadError(f'The file became shorter while it was sent; missing = {remaining!r}.')
         finally:
             data.close()
 
@@ -538,7 +546,7 @@ class BytesIOPayload(IOBasePayload):
         position = data.tell()
         end = data.seek(0, SEEK_END)
         data.seek(position)
-        self.size = end - position
+        self.size = max(end - position, 0)
 
 
 class BufferedReaderPayload(IOBasePayload):
@@ -575,7 +583,7 @@ class BufferedReaderPayload(IOBasePayload):
         """
         IOBasePayload.__init__(self, data, keyword_parameters)
         try:
-            size = stat(data.fileno()).st_size - data.tell()
+            size = max(stat(data.fileno()).st_size - data.tell(), 0)
         except OSError:
             # `data.fileno()` is not supported. Example: `io.BufferedReader(io.BytesIO(b'data'))`
             size = None
-- 
2.43.0


From 2197897af3ad83c1460fd16603eec0c227ea9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 073/158] fix: the location of redirects is percent encoded and
 can be relative

---
 scarletio/http_client/http_client.py | 79 ++++++++++++++++++----------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index b6765c5..72e99e7 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -1,5 +1,6 @@
 __all__ = ('HTTPClient', )
 
+from urllib.parse import urljoin as url_join
 from warnings import warn
 
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
@@ -19,6 +20,37 @@ from .request_context_manager import RequestContextManager
 from .web_socket_context_manager import WebSocketContextManager
 
 
+def get_redirect_url(url, response):
+    """
+    Gets the url where the response redirects to.
+    
+    Parameters
+    ----------
+    url : ``URL``
+        The url the response was received from.
+    response : ``ClientResponse``
+        The received response.
+    
+    Returns
+    -------
+    redirect_url : `None | URL`
+    
+    Raises
+    ------
+    ValueError
+        - The received location is not an url.
+    """
+    headers = response.headers
+    location = headers.get(LOCATION, None)
+    if location is None:
+        location = headers.get(URI, None)
+        if location is None:
+            return None
+    
+    # The location is percent encoded and might be relative.
+    return URL(url_join(url.value_encoded, location), True)
+
+
 @export
 class HTTPClient(RichAttributeErrorBaseType):
     """
@@ -255,6 +287,15 @@ class HTTPClient(RichAttributeErrorBaseType):
                 
                 # redirects
                 if response.status in (301, 302, 303, 307) and redirects:
+                    try:
+                        redirect_url = get_redirect_url(url, response)
+                    except:
+                        response.close()
+                        raise
+                    
+                    if redirect_url is None:
+                        break
+                    
                     redirects -= 1
                     history.append(response)
                     if not redirects:
@@ -272,28 +313,16 @@ class HTTPClient(RichAttributeErrorBaseType):
                         except KeyError:
                             pass
                     
-                    redirect_url = response.headers.get(LOCATION, None)
-                    if redirect_url is None:
-                        redirect_url = response.headers.get(URI, None)
-                        if redirect_url is None:
-                            break
-                    
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
-                    
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
-                        response.close()
+                    if scheme not in ('http', 'https'):
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
                             request_info,
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
-                    
                     if url.origin() != redirect_url.origin():
                         try:
                             del headers[AUTHORIZATION]
@@ -302,7 +331,6 @@ class HTTPClient(RichAttributeErrorBaseType):
                     
                     url = redirect_url
                     query = None
-                    response.release()
                     continue
                 
                 break
@@ -525,6 +553,15 @@ class HTTPClient(RichAttributeErrorBaseType):
                 
                 # redirects
                 if response.status in (301, 302, 303, 307) and redirects:
+                    try:
+                        redirect_url = get_redirect_url(url, response)
+                    except:
+                        response.close()
+                        raise
+                    
+                    if redirect_url is None:
+                        break
+                    
                     redirects -= 1
                     history.append(response)
                     if not redirects:
@@ -542,28 +579,16 @@ class HTTPClient(RichAttributeErrorBaseType):
                         if (content_length is not None) and content_length:
                             del headers[CONTENT_LENGTH]
                     
-                    redirect_url = response.headers.get(LOCATION, None)
-                    if redirect_url is None:
-                        redirect_url = response.headers.get(URI, None)
-                        if redirect_url is None:
-                            break
-                    
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
-                    
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
-                        response.close()
+                    if scheme not in ('http', 'https'):
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
                             request_info,
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
-                    
                     url = redirect_url
                     query = None
                     continue
-- 
2.43.0


From c42e35aacb6c7f821563482842e605e249d15aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 074/158] fix: the allowed amount of redirects is followed

---
 scarletio/http_client/http_client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index 72e99e7..1fe2cb5 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -296,9 +296,8 @@ class HTTPClient(RichAttributeErrorBaseType):
                     if redirect_url is None:
                         break
                     
-                    redirects -= 1
                     history.append(response)
-                    if not redirects:
+                    if len(history) > redirects:
                         response.close()
                         raise ConnectionError('Too many redirects', request_info, tuple(history))
                     
@@ -562,9 +561,8 @@ class HTTPClient(RichAttributeErrorBaseType):
                     if redirect_url is None:
                         break
                     
-                    redirects -= 1
                     history.append(response)
-                    if not redirects:
+                    if len(history) > redirects:
                         response.close()
                         raise ConnectionError('Too many redirects', request_info, tuple(history))
                     
-- 
2.43.0


From 0d5aa15e35979120ab39a97d68e9bffa292c5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 075/158] fix: permanent redirects which keep the method are
 followed

---
 scarletio/http_client/http_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index 1fe2cb5..b168414 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -286,7 +286,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                 self.cookie_jar.update_cookies(response.cookies, response.url)
                 
                 # redirects
-                if response.status in (301, 302, 303, 307) and redirects:
+                if response.status in (301, 302, 303, 307, 308) and redirects:
                     try:
                         redirect_url = get_redirect_url(url, response)
                     except:
@@ -551,7 +551,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                 self.cookie_jar.update_cookies(response.cookies, response.url)
                 
                 # redirects
-                if response.status in (301, 302, 303, 307) and redirects:
+                if response.status in (301, 302, 303, 307, 308) and redirects:
                     try:
                         redirect_url = get_redirect_url(url, response)
                     except:
-- 
2.43.0


From d76c6e501b1f200218f69d623e5f7e41302264d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 076/158] fix: credentials, cookies and the host header of a
 request are not sent to the host it is redirected to

---
 scarletio/http_client/http_client.py | 40 +++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index b168414..c75a186 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -6,8 +6,8 @@ from warnings import warn
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
 from ..web_common import CookieJar, URL
 from ..web_common.headers import (
-    AUTHORIZATION, CONTENT_LENGTH, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS, METHOD_PATCH,
-    METHOD_POST, METHOD_PUT, URI
+    AUTHORIZATION, CONTENT_LENGTH, COOKIE, HOST, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS,
+    METHOD_PATCH, METHOD_POST, METHOD_PUT, PROXY_AUTHORIZATION, URI
 )
 from ..web_common.helpers import Timeout, set_tcp_nodelay
 from ..web_socket import WebSocketClient
@@ -51,6 +51,19 @@ def get_redirect_url(url, response):
     return URL(url_join(url.value_encoded, location), True)
 
 
+def remove_host_specific_headers(headers):
+    """
+    Removes the headers which must not be sent to a different host.
+    
+    Parameters
+    ----------
+    headers : ``IgnoreCaseMultiValueDictionary``
+        Request headers.
+    """
+    for header_name in (AUTHORIZATION, COOKIE, HOST, PROXY_AUTHORIZATION):
+        headers.pop_all(header_name, None)
+
+
 @export
 class HTTPClient(RichAttributeErrorBaseType):
     """
@@ -243,6 +256,7 @@ class HTTPClient(RichAttributeErrorBaseType):
         
         
         headers = IgnoreCaseMultiValueDictionary(headers)
+        authorization = None
         
         history = []
         request_info = None
@@ -256,11 +270,11 @@ class HTTPClient(RichAttributeErrorBaseType):
                     self.loop,
                     method,
                     url,
-                    headers,
+                    IgnoreCaseMultiValueDictionary(headers),
                     data,
                     query,
                     cookies,
-                    None,
+                    authorization,
                     None,
                     self.proxy,
                     None,
@@ -322,11 +336,11 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    if url.origin() != redirect_url.origin():
-                        try:
-                            del headers[AUTHORIZATION]
-                        except KeyError:
-                            pass
+                    if url.origin() == redirect_url.origin():
+                        authorization = request.authorization
+                    else:
+                        authorization = None
+                        remove_host_specific_headers(headers)
                     
                     url = redirect_url
                     query = None
@@ -521,7 +535,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     self.loop,
                     method,
                     url,
-                    headers,
+                    IgnoreCaseMultiValueDictionary(headers),
                     data,
                     query,
                     cookies,
@@ -587,6 +601,12 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
+                    if url.origin() == redirect_url.origin():
+                        authorization = request.authorization
+                    else:
+                        authorization = None
+                        remove_host_specific_headers(headers)
+                    
                     url = redirect_url
                     query = None
                     continue
-- 
2.43.0


From 6eb61fcaeddc0a1b7505e4bebc8c15fac5157fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 077/158] fix: redirects do not send an already used up body
 again as an empty or as a partial one

---
 scarletio/http_client/client_request.py | 12 ++++++
 scarletio/http_client/http_client.py    | 16 ++++++++
 scarletio/web_common/multipart.py       | 54 +++++++++++++++++++++++--
 3 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/scarletio/http_client/client_request.py b/scarletio/http_client/client_request.py
index 0462008..4edb1d7 100755
--- a/scarletio/http_client/client_request.py
+++ b/scarletio/http_client/client_request.py
@@ -489,6 +489,18 @@ class ClientRequest(RichAttributeErrorBaseType):
             self.write_body_task = None
     
     
+    def can_write_body_again(self):
+        """
+        Returns whether an other request with the same data would send the same body.
+        
+        Returns
+        -------
+        can_write_body_again : `bool`
+        """
+        body = self.body
+        return (body is None) or body.can_write_again(self.write_body_task is None)
+    
+    
     def begin(self, connection):
         """
         Begins sending the request.
diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index c75a186..45f3fd6 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -326,6 +326,14 @@ class HTTPClient(RichAttributeErrorBaseType):
                         except KeyError:
                             pass
                     
+                    if (data is not None) and (not request.can_write_body_again()):
+                        response.close()
+                        raise ConnectionError(
+                            'Cannot follow redirect, the body of the request cannot be sent again',
+                            request_info,
+                            tuple(history),
+                        )
+                    
                     response.release()
                     
                     scheme = redirect_url.scheme
@@ -591,6 +599,14 @@ class HTTPClient(RichAttributeErrorBaseType):
                         if (content_length is not None) and content_length:
                             del headers[CONTENT_LENGTH]
                     
+                    if (data is not None) and (not request.can_write_body_again()):
+                        response.close()
+                        raise ConnectionError(
+                            'Cannot follow redirect, the body of the request cannot be sent again',
+                            request_info,
+                            tuple(history),
+                        )
+                    
                     response.release()
                     
                     scheme = redirect_url.scheme
diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index d91c441..999e40b 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -9,8 +9,8 @@ from re import compile as re_compile, escape as re_escape, sub as re_sub
 from urllib.parse import urlencode as url_encode
 from uuid import uuid4 as create_uuid_4
 
-from ..core import AsyncIO
-from ..utils import IgnoreCaseMultiValueDictionary, to_json
+from ..core import AsyncIO, ReuAsyncIO, ReuBytesIO
+from ..utils import IgnoreCaseMultiValueDictionary, copy_docs, to_json
 
 from .compressors import BROTLI_COMPRESSOR, ZLIB_COMPRESSOR, ZLIB_MAX_WBITS
 from .exceptions import ContentEncodingError, PayloadError
@@ -171,6 +171,22 @@ class PayloadBase:
         pass
     
     
+    def can_write_again(self, written):
+        """
+        Returns whether a payload of the same data would write the same as this one.
+        
+        Parameters
+        ----------
+        written : `bool`
+            Whether this payload is completely written already.
+        
+        Returns
+        -------
+        can_write_again : `bool`
+        """
+        return False
+    
+    
     def __eq__(self, other):
         """Returns whether the two payloads are equal."""
         if type(self) is not type(other):
@@ -257,6 +273,11 @@ class BytesPayload(PayloadBase):
             Http writer to write the payload's data to.
         """
         await writer.write(self.data)
+    
+    
+    @copy_docs(PayloadBase.can_write_again)
+    def can_write_again(self, written):
+        return True
 
 
 class StringPayload(BytesPayload):
@@ -349,6 +370,11 @@ class StringIOPayload(StringPayload):
         """
         data = data.read()
         StringPayload.__init__(self, data, keyword_parameters)
+    
+    
+    @copy_docs(PayloadBase.can_write_again)
+    def can_write_again(self, written):
+        return False
 
 
 class IOBasePayload(PayloadBase):
@@ -430,6 +456,12 @@ class IOBasePayload(PayloadBase):
                 raise PayloadError(f'The file became shorter while it was sent; missing = {remaining!r}.')
         finally:
             data.close()
+    
+    
+    @copy_docs(PayloadBase.can_write_again)
+    def can_write_again(self, written):
+        # Closing a reusable one seeks it back to its start.
+        return written and isinstance(self.data, (ReuBytesIO, ReuAsyncIO))
 
 
 class TextIOPayload(IOBasePayload):
@@ -690,7 +722,14 @@ class AsyncIterablePayload(PayloadBase):
                 await writer.write(chunk)
         except StopAsyncIteration:
             self._iterator = None
-
+    
+    
+    @copy_docs(PayloadBase.can_write_again)
+    def can_write_again(self, written):
+        # Asynchronous generators are their own iterators.
+        data = self.data
+        return type(data).__aiter__(data) is not data
+    
     
     # __eq__
     # Ignore `._iterator` being new attribute.
@@ -1410,6 +1449,15 @@ class MultipartWriter(PayloadBase):
         
         if close_boundary:
             await writer.write(b'--' + self._boundary + b'--\r\n')
+    
+    
+    @copy_docs(PayloadBase.can_write_again)
+    def can_write_again(self, written):
+        for part, headers, content_encoding, transfer_encoding in self.data:
+            if not part.can_write_again(written):
+                return False
+        
+        return True
 
 
 TRANSFER_ENCODING_NONE = 0
-- 
2.43.0


From b7301a1dc33b1eee791c999c86118583a6949691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 078/158] fix: cookies expire at the time they have to

---
 scarletio/web_common/cookiejar.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 1f7c1fd..59b4992 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -5,6 +5,7 @@ from collections import defaultdict
 from datetime import datetime as DateTime, timezone as TimeZone
 from http.cookies import Morsel, SimpleCookie
 from math import ceil
+from time import time as time_now
 
 from ..core import LOOP_TIME
 
@@ -99,7 +100,11 @@ def parse_cookie_date(date_str):
             or (day > 31) or (hour > 23) or (minute > 59) or (second > 59):
         return None
     
-    return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    try:
+        return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    except ValueError:
+        # No such day in the month.
+        return None
 
 
 def do_domains_match(domain, host_name):
@@ -268,7 +273,7 @@ class CookieJar:
         cookies = self.cookies
         
         for key, when in expirations.items():
-            if when < now:
+            if when <= now:
                 cookies[key[0]].pop(key[1], None)
                 to_del.append(key)
                 self.host_only_cookies.discard(key)
@@ -278,7 +283,7 @@ class CookieJar:
         for key in to_del:
             del expirations[key]
         
-        self.next_expiration = ceil(next_expiration)
+        self.next_expiration = next_expiration
     
     def _expire_cookie(self, when, domain, name):
         """
@@ -357,7 +362,7 @@ class CookieJar:
                 try:
                     delta_seconds = int(max_age)
                     self._expire_cookie(LOOP_TIME() + delta_seconds, domain, name)
-                except ValueError:
+                except (ValueError, OverflowError):
                     cookie['max-age'] = ''
             
             else:
@@ -367,7 +372,8 @@ class CookieJar:
                     if expire_time is None:
                         cookie['expires'] = ''
                     else:
-                        self._expire_cookie(expire_time.timestamp(), domain, name)
+                        # The date is of the wall clock.
+                        self._expire_cookie(LOOP_TIME() + expire_time.timestamp() - time_now(), domain, name)
             
             self.cookies[domain][name] = cookie
         
-- 
2.43.0


From 76444bee809af0f0b2ae9620b2673a83d6936954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 079/158] fix: only one authorization header is sent

---
 scarletio/http_client/client_request.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_request.py b/scarletio/http_client/client_request.py
index 4edb1d7..dfa3047 100755
--- a/scarletio/http_client/client_request.py
+++ b/scarletio/http_client/client_request.py
@@ -172,7 +172,9 @@ class ClientRequest(RichAttributeErrorBaseType):
         # Store authorization in headers is applicable.
         # Use `proxy_authorization` header if we are doing a connect request. 
         if (authorization is not None):
-            headers[PROXY_AUTHORIZATION if method == METHOD_CONNECT else AUTHORIZATION] = authorization.to_header()
+            header_name = PROXY_AUTHORIZATION if method == METHOD_CONNECT else AUTHORIZATION
+            headers.pop_all(header_name, None)
+            headers[header_name] = authorization.to_header()
         
         # Add default headers. Except if we are making a connect request.
         if (method != METHOD_CONNECT):
-- 
2.43.0


From f6583e7e46a12d8d4c85e1e7aea4ecb773d912b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 080/158] fix: web socket servers accept the extensions they
 know and decline the others

---
 .../web_socket/web_socket_server_protocol.py   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 4b0c14a..7acdd96 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -9,7 +9,7 @@ from ..core import AsyncQueue, CancelledError, Future, Lock, Task, write_excepti
 from ..utils import IgnoreCaseMultiValueDictionary, is_coroutine
 from ..web_common import AbortHandshake, InvalidHandshake, InvalidOrigin, InvalidUpgrade, PayloadError
 from ..web_common.header_building_and_parsing import (
-    build_extensions, parse_connections, parse_extensions, parse_subprotocols, parse_upgrades
+    parse_connections, parse_extensions, parse_subprotocols, parse_upgrades
 )
 from ..web_common.headers import (
     CONNECTION, CONTENT_LENGTH, CONTENT_TYPE, DATE, ORIGIN, SEC_WEB_SOCKET_ACCEPT, SEC_WEB_SOCKET_EXTENSIONS,
@@ -409,21 +409,21 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                         # Do names and parameters match?
                         if extension.name == name and extension.are_valid_parameters(parameters, accepted_extensions):
                             accepted_extensions.append(extension)
-                            extension_headers.append((name, parameters))
+                            extension_headers.append('; '.join([
+                                name,
+                                *(
+                                    parameter_name if value is None else f'{parameter_name}={value}'
+                                    for parameter_name, value in parameters
+                                ),
+                            ]))
                             break
-                    else:
-                        # no matching extension
-                        raise InvalidHandshake(
-                            f'Unsupported extension: name = {name!r}, parameters = {parameters!r}.',
-                            request = request,
-                        )
                     
                     # If we didn't break from the loop, no extension in our list matched what the client sent. The
                     # extension is declined.
                 
                 # Serialize extension header.
                 if extension_headers:
-                    extension_header = build_extensions(extension_headers)
+                    extension_header = ', '.join(extension_headers)
                     break
                 
                 extension_header = None
-- 
2.43.0


From 6df0c4f5c5eec4158b2a918d491979e37a6843eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 081/158] fix: web socket servers check the origin of the
 connections

---
 scarletio/web_socket/web_socket_server_protocol.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 7acdd96..34722e5 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -187,7 +187,6 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         
         self.request = None
         self.response_headers = None
-        self.origin = None
         
         return self
     
@@ -379,7 +378,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 
                 origin = origin_headers[0]
                 
-                if origin in origin:
+                if origin == self.origin:
                     break
                     
                 raise InvalidOrigin(origin)
-- 
2.43.0


From c721d9325d843b415dba1be6d98614507ef88c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 082/158] fix: web socket handshakes without an upgrade to web
 socket are refused

---
 scarletio/web_socket/web_socket_client.py          | 2 +-
 scarletio/web_socket/web_socket_server_protocol.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index 38cb0e4..eef7537 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -289,7 +289,7 @@ class WebSocketClient(WebSocketCommonProtocol):
                 for received_upgrade in received_upgrades:
                     upgrade.extend(parse_upgrades(received_upgrade))
             
-            if len(upgrade) != 1 and upgrade[0].lower() != 'websocket': # ignore case
+            if len(upgrade) != 1 or upgrade[0].lower() != 'websocket': # ignore case
                 raise InvalidHandshake(
                     f'Expected \'WebSocket\' for \'Upgrade\', but got {upgrade!r}.',
                     response = response,
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 34722e5..d3a9b13 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -309,7 +309,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 for upgrade_header in upgrade_headers:
                     upgrade.extend(parse_upgrades(upgrade_header))
             
-            if len(upgrade) != 1 and upgrade[0].lower() != 'websocket': # ignore case
+            if len(upgrade) != 1 or upgrade[0].lower() != 'websocket': # ignore case
                 raise InvalidUpgrade(
                     f'Expected \'WebSocket\' for \'Upgrade\', but got {upgrade!r}.'
                 )
-- 
2.43.0


From 29d2f7553738175d4dfe93743bd840274b0fb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 083/158] fix: aborted web socket handshakes are answered

---
 scarletio/web_socket/web_socket_server_protocol.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index d3a9b13..e1fc666 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -4,6 +4,7 @@ import hashlib
 from base64 import b64decode, b64encode
 from binascii import Error as BinasciiError
 from email.utils import formatdate
+from http import HTTPStatus
 
 from ..core import AsyncQueue, CancelledError, Future, Lock, Task, write_exception_async
 from ..utils import IgnoreCaseMultiValueDictionary, is_coroutine
@@ -287,8 +288,8 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 
             else:
                 raise AbortHandshake(
-                    SERVICE_UNAVAILABLE,
                     'Server is shutting down.',
+                    SERVICE_UNAVAILABLE,
                     request = request,
                 )
             
@@ -514,12 +515,17 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         
         except BaseException as err:
             if isinstance(err, AbortHandshake):
-                status = err.code
+                try:
+                    status = HTTPStatus(err.code)
+                except ValueError:
+                    status = INTERNAL_SERVER_ERROR
                 headers = err.headers
                 if headers is None:
                     headers = IgnoreCaseMultiValueDictionary()
                 body = err.message
-                if not body.endswith('\n'):
+                if isinstance(body, str):
+                    body = body.encode()
+                if not body.endswith(b'\n'):
                     body = body + b'\n'
             
             elif isinstance(err, InvalidOrigin):
-- 
2.43.0


From 7bfc23ee7f4221479796a0512ce3270eaf70e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 084/158] fix: pongs do not break web sockets

---
 scarletio/web_common/http_protocol.py              | 2 +-
 scarletio/web_socket/web_socket_common_protocol.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 5845725..b5ac0f1 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -395,7 +395,7 @@ class HttpReadProtocol(ReadProtocolBase):
         else:
             mask = await self.read_exactly(4)
             data = await self.read_exactly(length)
-            data = apply_web_socket_mask(mask, data)
+            data = bytes(apply_web_socket_mask(mask, data))
         
         return WebSocketFrame._from_fields(head_0, data)
     
diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index f5650b8..aa1a39e 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -465,7 +465,8 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         if data is None:
             data = urandom(4)
         elif isinstance(data, (bytes, bytearray, memoryview)):
-            pass
+            # Pings are looked up by their data, so it has to be hashable.
+            data = bytes(data)
         elif isinstance(data, str):
             data = data.encode('utf-8')
         else:
@@ -818,7 +819,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             ping_id = b''
             while ping_id != frame.data:
                 ping_id, pong_waiter = self.pings.popitem(0)
-                pong_waiter.set_resultd_if_pending(None)
+                pong_waiter.set_result_if_pending(None)
         
         return True
     
-- 
2.43.0


From 69556b5fbb923fc425cc4ee9f866e121afdcb735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 085/158] fix: fragmented texts of different web sockets are
 not mixed

---
 scarletio/web_socket/web_socket_common_protocol.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index aa1a39e..5e7b626 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -1,6 +1,6 @@
 __all__ = ('WebSocketCommonProtocol', )
 
-import codecs, reprlib
+import reprlib
 import http as module_http
 from collections import OrderedDict
 from os import urandom
@@ -32,8 +32,6 @@ EXTERNAL_CLOSE_CODES = (1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 10
 
 HTTPClient = include('HTTPClient')
 
-DECODER = codecs.getincrementaldecoder('utf-8')(errors = 'strict')
-
 
 class WebSocketCommonProtocol(HttpReadWriteProtocol):
     """
@@ -706,14 +704,9 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                     f'{WEB_SOCKET_OPERATION_CONTINUOUS!r}.'
                 )
         
+        message = b''.join([frame.data for frame in frames])
         if text:
-            try:
-                message = ''.join(DECODER.decode(frame.data, frame.final) for frame in frames)
-            except:
-                DECODER.reset()
-                raise
-        else:
-            message = b''.join(frame.data for frame in frames)
+            message = message.decode('utf-8')
         
         return message
     
-- 
2.43.0


From 40d8483b7c62231eb70db53efcc0d3c76ba2cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 086/158] fix: control frames do not count into the size of the
 message they are in

---
 scarletio/web_common/http_protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index b5ac0f1..b8525df 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -386,7 +386,12 @@ class HttpReadProtocol(ReadProtocolBase):
             data = await self.read_exactly(8)
             length, = UNPACK_LENGTH_3(data)
         
-        if (max_size is not None) and length > max_size:
+        # Control frames can be put between the frames of a message, but they are not part of it.
+        if head_0 & 0b00001000:
+            if length > 125:
+                raise WebSocketProtocolError('Control frame too long.')
+        
+        elif (max_size is not None) and length > max_size:
             raise PayloadError(f'Payload length exceeds size limit ({length} > {max_size} bytes).')
         
         # Read the data.
-- 
2.43.0


From b4ad3a0ee147c88ac1b0b12dbff271c7b9d4ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 087/158] fix: connections are upgraded when upgrade is not the
 only connection option

---
 scarletio/web_common/http_message.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/scarletio/web_common/http_message.py b/scarletio/web_common/http_message.py
index c6636e9..c720aa6 100755
--- a/scarletio/web_common/http_message.py
+++ b/scarletio/web_common/http_message.py
@@ -159,16 +159,14 @@ class RawMessage(RichAttributeErrorBaseType):
             value = False
         
         else:
-            try:
-                connection = headers[CONNECTION]
-            except KeyError:
-                value = False
-            else:
-                value = (connection.casefold() == 'upgrade')
-                if value:
-                    cache_flags |= CACHE_FLAG_UPGRADE_VALUE
-                else:
-                    value = False
+            # Upgrade can be listed next to other options.
+            value = any(
+                option.strip().casefold() == 'upgrade'
+                for connection in headers.get_all(CONNECTION, ())
+                for option in connection.split(',')
+            )
+            if value:
+                cache_flags |= CACHE_FLAG_UPGRADE_VALUE
         
         cache_flags |= CACHE_FLAG_UPGRADE_SET
         self._cache_flags = cache_flags
-- 
2.43.0


From 5001121192f957d6c01aa13b55193cbdfda20865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 088/158] fix: closed web sockets do not leave their connection
 open

---
 .../web_socket/web_socket_common_protocol.py  | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 5e7b626..bcf983b 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -622,11 +622,6 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             # connection was closed
             transfer_data_exception = ConnectionClosed(self.close_code or 1000, None, self.close_reason)
             to_reraise = None
-            
-            # If we are a client and we receive this, we closed our own
-            # connection, there is no reason to wait for TCP abort
-            if self.is_client:
-                self.connection_lost_waiter.set_result_if_pending(None)
         
         if self.transfer_data_exception is None:
             self.transfer_data_exception = transfer_data_exception
@@ -959,27 +954,30 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 except TimeoutError:
                     pass
             
-            # Cancel all pending pings because they'll never receive a pong.
-            for ping in self.pings.values():
-                ping.cancel()
-            
-            # A client should wait for a TCP close from the server.
-            if self.is_client and (self.transfer_data_task is not None):
-                if (await self.wait_for_connection_lost()):
-                    return
-            
-            if self.can_write_eof():
-                self.write_eof()
-                if (await self.wait_for_connection_lost()):
-                    return
+            # There is no reason to wait for the other side if it closed the TCP connection already, neither if we are a
+            # client who finished the closing handshake.
+            if (not self._at_eof) and (not (self.is_client and self.close_code)):
+                # A client should wait for a TCP close from the server.
+                if self.is_client and (self.transfer_data_task is not None):
+                    if (await self.wait_for_connection_lost()):
+                        return
+                
+                if self.can_write_eof():
+                    self.write_eof()
+                    if (await self.wait_for_connection_lost()):
+                        return
         
         except GeneratorExit:
             generator_destroyed = True
             raise
         
         finally:
+            # Cancel all pending pings because they'll never receive a pong.
+            for ping in self.pings.values():
+                ping.cancel()
+            
             # finally ensures that the transport never remains open
-            if self.connection_lost_waiter.is_done() and not self.is_ssl:
+            if self.connection_lost_waiter.is_done():
                 return
             
             # Close the TCP connection
@@ -1011,7 +1009,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             Returns `True` if the connection is lost.
         """
         connection_lost_waiter = self.connection_lost_waiter
-        if not connection_lost_waiter.is_done():
+        if connection_lost_waiter.is_done():
             return True
         
         waiter = shield(connection_lost_waiter, self._loop)
@@ -1124,4 +1122,10 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             Returns `True` if the web socket is not secure.
         """
         HttpReadWriteProtocol.eof_received(self)
+        
+        # Do not keep the transport open if nothing will be written anymore.
+        transfer_data_task = self.transfer_data_task
+        if (transfer_data_task is not None) and transfer_data_task.is_done():
+            return False
+        
         return (not self.is_ssl)
-- 
2.43.0


From 10c692f99d22607864de8fcf97a822aa2405778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 089/158] fix: web socket frames are not sent after the close
 frame

---
 .../web_socket/web_socket_common_protocol.py  | 80 ++++++++++++-------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index bcf983b..6a656e2 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -878,28 +878,51 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             - WebSocket connection not yet established.
             - Cannot write to web socket with it's current state.
         """
-        # Defensive assertion for protocol compliance.
-        if self.state != _expected_state:
-            raise RuntimeError(f'Cannot write to a WebSocket in the {self.state} state.')
-
         # we write only 1 frame at a time, so we 'queue' it
         async with self._drain_lock:
-            try:
-                frame = WebSocketFrame(True, operation_code, data)
-                
-                extensions = self.extensions
-                if (extensions is not None):
-                    for extension in extensions:
-                        frame = extension.encode(frame)
-                    
-                    frame.check()
-                
-                self.write_web_socket_frame(frame, self.is_client)
-                await self.drain()
-            except ConnectionError:
-                self.fail_connection()
-                # raise ConnectionClosed with the correct code and reason.
-                await self.ensure_open()
+            # The connection might have been closed while we were waiting.
+            if (self.state == _expected_state) and (not self.transfer_data_task.is_done()):
+                try:
+                    self._write_frame(operation_code, data)
+                    await self.drain()
+                except ConnectionError:
+                    self.fail_connection()
+                else:
+                    return
+        
+        # raise ConnectionClosed with the correct code and reason.
+        await self.ensure_open()
+    
+    
+    def _write_frame(self, operation_code, data):
+        """
+        Writes a frame without waiting for anything.
+        
+        Parameters
+        ----------
+        operation_code : `int`
+            The operation code of the web socket frame.
+        
+        data : `bytes-like`
+            The data to send.
+        
+        Raises
+        ------
+        WebSocketProtocolError
+            - An extension created an invalid frame.
+        RuntimeError
+            Protocol has no attached transport.
+        """
+        frame = WebSocketFrame(True, operation_code, data)
+        
+        extensions = self.extensions
+        if (extensions is not None):
+            for extension in extensions:
+                frame = extension.encode(frame)
+        
+        frame.check()
+        
+        self.write_web_socket_frame(frame, self.is_client)
     
     
     async def write_close_frame(self, data = b''):
@@ -931,7 +954,11 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         # check connection before we write
         if self.state == WEB_SOCKET_STATE_OPEN:
             self.state = WEB_SOCKET_STATE_CLOSING
-            await self.write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
+            try:
+                await self.write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
+            except ConnectionClosed:
+                # We just wanted to close it.
+                pass
     
     
     async def close_connection(self):
@@ -1063,16 +1090,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             # Write the close frame without draining the write buffer.
             self.state = WEB_SOCKET_STATE_CLOSING
             
-            frame = WebSocketFrame(True, WEB_SOCKET_OPERATION_CLOSE, frame_data)
-            
-            extensions = self.extensions
-            if (extensions is not None):
-                for extension in extensions:
-                    frame = extension.encode(frame)
-                
-                frame.check()
-            
-            self.write_web_socket_frame(frame, self.is_client)
+            self._write_frame(WEB_SOCKET_OPERATION_CLOSE, frame_data)
         
         # start close_connection_task if the opening handshake didn't succeed.
         close_connection_task = self.close_connection_task
-- 
2.43.0


From 94b491f745a4c022903c2d58c00cd155ae502c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 090/158] fix: web sockets never wait for writing while they
 should be reading

---
 .../web_socket/web_socket_common_protocol.py  | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 6a656e2..777bf08 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -127,7 +127,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         Whether the web socket protocol is client or server side.
     """
     __slots__ = (
-        '_drain_lock', 'close_code', 'close_connection_task', 'close_timeout', 'close_reason',
+        '_drain_lock', '_pending_pong', 'close_code', 'close_connection_task', 'close_timeout', 'close_reason',
         'connection_lost_waiter', 'extensions', 'host', 'is_ssl', 'max_queue', 'max_size', 'messages', 'pings', 'port',
         'state', 'subprotocol', 'transfer_data_exception', 'transfer_data_task'
     )
@@ -192,6 +192,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         self.max_queue = max_queue
         
         self._drain_lock = Lock(self._loop)
+        self._pending_pong = None
         
         self.state = WEB_SOCKET_STATE_CONNECTING
         
@@ -794,11 +795,22 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                     f'Close frame too short: {length!r}; {reprlib.repr(data)}.'
                 )
             
-            await self.write_close_frame(frame.data)
+            if self.state == WEB_SOCKET_STATE_OPEN:
+                self.state = WEB_SOCKET_STATE_CLOSING
+                # The other side might not read anymore, so do not wait.
+                self._write_frame(WEB_SOCKET_OPERATION_CLOSE, frame.data)
+            
             return False
         
         if operation_code == WEB_SOCKET_OPERATION_PING:
-            await self.pong(frame.data)
+            # Pings which arrive while we are closing are not answered.
+            if self.state == WEB_SOCKET_STATE_OPEN:
+                # Never wait for the other side to read while we should be reading. It is enough to answer the last ping.
+                if self._writing_paused:
+                    self._pending_pong = frame.data
+                else:
+                    self._write_frame(WEB_SOCKET_OPERATION_PONG, frame.data)
+            
             return True
         
         # operation_code == OP_PONG:
@@ -1124,6 +1136,22 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         HttpReadWriteProtocol.connection_lost(self, exception)
     
     
+    # compatibility method (overwrite)
+    def resume_writing(self):
+        """
+        Called when the transport's buffer can receive data again.
+        
+        Sends the pong which could not be sent till now.
+        """
+        HttpReadWriteProtocol.resume_writing(self)
+        
+        pending_pong = self._pending_pong
+        if (pending_pong is not None):
+            self._pending_pong = None
+            if self.state == WEB_SOCKET_STATE_OPEN:
+                self._write_frame(WEB_SOCKET_OPERATION_PONG, pending_pong)
+    
+    
     # compatibility method (overwrite)
     def eof_received(self):
         """
-- 
2.43.0


From 84867afd8f803a5ea22c3ef1017d92c331f86ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 091/158] fix: connections with switched protocol are not
 reused for http requests

---
 scarletio/http_client/client_response.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index ea2650b..a8b0298 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -273,6 +273,9 @@ class ClientResponse(RichAttributeErrorBaseType):
         write_body_task = self.write_body_task
         if raw_message is None:
             keep_alive = None
+        elif raw_message.status == 101:
+            # The server does not talk http on the connection anymore, so it cannot be used for an other request.
+            keep_alive = None
         elif (write_body_task is not None) and write_body_task.is_pending():
             # The request is not written fully, so the connection cannot be used for an other one.
             keep_alive = None
-- 
2.43.0


From 0ce9aff62ed86bcd5fc820ea3270a146ebe94750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:14 +0000
Subject: [PATCH 092/158] fix: pings which are not sent are not remembered

---
 scarletio/web_socket/web_socket_common_protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 777bf08..255ce04 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -480,7 +480,12 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         waiter = Future(self._loop)
         pings[data] = waiter
         
-        await self.write_frame(WEB_SOCKET_OPERATION_PING, data)
+        try:
+            await self.write_frame(WEB_SOCKET_OPERATION_PING, data)
+        except:
+            # The ping was not sent, so it will never be answered.
+            pings.pop(data, None)
+            raise
         
         await waiter
     
-- 
2.43.0


From 88205529ecea0f2aa3660df37172ef5ef11b7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 093/158] fix: web sockets are closed when their handler fails

---
 scarletio/web_socket/web_socket_server_protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index e1fc666..e6094c8 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -235,6 +235,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                     ],
                     loop = self._loop,
                 )
+                await self.close(1011)
                 return
             
             await self.close()
-- 
2.43.0


From 28e3f874b93f4b4b5db2966ea0704888847fa6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 094/158] fix: web sockets closed while connecting do not leave
 their connection open

---
 scarletio/web_socket/web_socket_common_protocol.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 255ce04..357bfc6 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -402,9 +402,16 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             await shield(close_connection_task, self._loop)
         
         else:
-            # If we are connecting manually call connection lost. This can happen on premature closing.
+            # If we are connecting, there is no closing handshake. This can happen on premature closing.
             if self.state == WEB_SOCKET_STATE_CONNECTING:
-                self.connection_lost(None)
+                transport = self._transport
+                if transport is None:
+                    self.connection_lost(None)
+                else:
+                    transport.close()
+                    if not (await self.wait_for_connection_lost()):
+                        transport.abort()
+                        await self.wait_for_connection_lost()
     
     
     @staticmethod
-- 
2.43.0


From 7b85cfe586cdadcf54db83120ddeef1423c32e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 095/158] fix: a cancelled web socket close does not break the
 other ones

---
 .../web_socket/web_socket_common_protocol.py  | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 357bfc6..58ebd91 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -381,27 +381,29 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         close_message = self._serialize_close(code, reason)
         write_close_frame_task = Task(self._loop, self.write_close_frame(close_message))
         write_close_frame_task.apply_timeout(self.close_timeout)
-        try:
-            await write_close_frame_task
-        except TimeoutError:
-            self.fail_connection()
-        
-        # if close() is cancelled during the wait, self.transfer_data_task is cancelled before the close_timeout
-        # elapses
         transfer_data_task = self.transfer_data_task
-        if (transfer_data_task is not None):
-            transfer_data_task.apply_timeout(self.close_timeout)
+        try:
             try:
-                await transfer_data_task
+                await write_close_frame_task
             except TimeoutError:
-                pass
-        
-        # Quit for the close connection task to close the TCP connection.
-        close_connection_task = self.close_connection_task
-        if (close_connection_task is not None):
-            await shield(close_connection_task, self._loop)
+                self.fail_connection()
+            
+            if (transfer_data_task is not None):
+                transfer_data_task.apply_timeout(self.close_timeout)
+            
+            # Quit for the close connection task to close the TCP connection.
+            close_connection_task = self.close_connection_task
+            if (close_connection_task is not None):
+                await shield(close_connection_task, self._loop)
+        
+        except CancelledError:
+            # if close() is cancelled during the wait, self.transfer_data_task is cancelled before the close_timeout
+            # elapses
+            if (transfer_data_task is not None):
+                transfer_data_task.cancel()
+            raise
         
-        else:
+        if close_connection_task is None:
             # If we are connecting, there is no closing handshake. This can happen on premature closing.
             if self.state == WEB_SOCKET_STATE_CONNECTING:
                 transport = self._transport
@@ -1002,7 +1004,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             if (transfer_data_task is not None):
                 try:
                     await transfer_data_task
-                except TimeoutError:
+                except (CancelledError, TimeoutError):
                     pass
             
             # There is no reason to wait for the other side if it closed the TCP connection already, neither if we are a
-- 
2.43.0


From bc7bb9acfd204048098f0a8a6e43929b23a00ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 096/158] fix: close frames of web sockets are not held back by
 other frames

---
 .../web_socket/web_socket_common_protocol.py      | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 58ebd91..6e28d39 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -980,11 +980,18 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         # check connection before we write
         if self.state == WEB_SOCKET_STATE_OPEN:
             self.state = WEB_SOCKET_STATE_CLOSING
+            
+            # The transfer might have ended because of a connection error.
+            if self.transfer_data_task.is_done():
+                return
+            
+            # Write the frame before anything could wait. If the other side closes too, we will not get back here in time.
             try:
-                await self.write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
-            except ConnectionClosed:
-                # We just wanted to close it.
-                pass
+                self._write_frame(WEB_SOCKET_OPERATION_CLOSE, data)
+                async with self._drain_lock:
+                    await self.drain()
+            except ConnectionError:
+                self.fail_connection()
     
     
     async def close_connection(self):
-- 
2.43.0


From 309c2148ec80fdb3554f86669748985e4ca72966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 097/158] fix: a cancelled waiter of a server does not break
 waking up the others

---
 scarletio/core/event_loop/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/server.py b/scarletio/core/event_loop/server.py
index db1f330..563322e 100755
--- a/scarletio/core/event_loop/server.py
+++ b/scarletio/core/event_loop/server.py
@@ -104,7 +104,7 @@ class Server:
         
         self.close_waiters = None
         for close_waiter in close_waiters:
-            close_waiter.set_result(None)
+            close_waiter.set_result_if_pending(None)
     
     
     def close(self):
-- 
2.43.0


From 8b7fb72520d6b6c6adcfa4f86a23deb33e1cd07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 098/158] fix: running out of file descriptors reschedules
 accepting once and not after the server is closed

---
 scarletio/core/event_loop/event_loop.py | 28 ++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index ba6f155..3dbdad4 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -989,6 +989,31 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         )
     
     
+    def _restart_serving(self, protocol_factory, socket, ssl_context, server, backlog):
+        """
+        Restarts serving the given socket after accepting connections failed, if the socket was not closed meanwhile.
+        
+        Parameters
+        ----------
+        protocol_factory : `callable`
+            Factory function for creating an asynchronous compatible protocol.
+        
+        socket : `Socket`
+            The sockets to serve by the respective server if applicable.
+        
+        ssl_context : `none | SSLContext`
+            Ssl context to use.
+        
+        server : ``None | Server``
+            The respective server if applicable.
+        
+        backlog : `int`
+            The maximum number of queued connections passed to `socket.listen()`.
+        """
+        if socket.fileno() != -1:
+            self._start_serving(protocol_factory, socket, ssl_context, server, backlog)
+    
+    
     def _stop_serving(self, socket):
         """
         Stops serving the given socket. by removing it's reader callback and closing it.
@@ -1039,7 +1064,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                 
                 # Remove the reader temporarily.
                 self.remove_reader(socket.fileno())
-                self.call_after(1.0, self._start_serving, protocol_factory, socket, ssl_context, server, backlog)
+                self.call_after(1.0, self._restart_serving, protocol_factory, socket, ssl_context, server, backlog)
                 
                 write_exception_async(
                     err,
@@ -1050,6 +1075,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                     ],
                     loop = self
                 )
+                return None
             
             else:
                 extra = {'peer_name': address}
-- 
2.43.0


From 533e8bb173cb0e81e84c5da2eb9b2f199f2557c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 099/158] fix: accepted connections are closed if their
 protocol cannot be created

---
 scarletio/core/event_loop/event_loop.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 3dbdad4..a42aac9 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -1109,7 +1109,12 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
             The respective server if applicable.
         """
         try:
-            protocol = protocol_factory()
+            try:
+                protocol = protocol_factory()
+            except:
+                connection_socket.close()
+                raise
+            
             waiter = Future(self)
             if (ssl_context is None):
                 transport = self._make_socket_transport(
-- 
2.43.0


From e73963f1b2733ee3b7c693f0ad068dc2a6c2f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 100/158] fix: connections which are accepted right before
 their server is closed are dropped

---
 scarletio/core/event_loop/event_loop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index a42aac9..817c9c2 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -1108,6 +1108,11 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         server : ``None | Server``
             The respective server if applicable.
         """
+        # The server might have been closed since the connection was accepted.
+        if (server is not None) and (server.sockets is None):
+            connection_socket.close()
+            return
+        
         try:
             try:
                 protocol = protocol_factory()
-- 
2.43.0


From fd4bcfde906936ea363a0887ea1446566a00124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 101/158] fix: draining the input of a subprocess

---
 scarletio/core/subprocess/subprocess.py | 42 +++++++++++++++----------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index ed16a11..a6aceb5 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -41,8 +41,8 @@ class AsyncProcess:
     
     _connection_lost : `bool`
         Whether all the pipes of the ``AsyncProcess`` lost connection.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : `None | list<Future>`
+        Futures, which are used to block the writing tasks, till their written data is drained.
     _exit_waiters : `None`, `set of ``Future``
         Waiter futures which wait for the subprocess to shutdown.
     _extra : `dict<str, object>`
@@ -76,7 +76,7 @@ class AsyncProcess:
         Asynchronous stdout implementation.
     """
     __slots__ = (
-        '_alive_file_descriptors', '_closed', '_connection_lost', '_drain_waiter', '_exit_waiters', '_extra', '_loop',
+        '_alive_file_descriptors', '_closed', '_connection_lost', '_drain_waiters', '_exit_waiters', '_extra', '_loop',
         '_paused', '_pending_calls', '_subprocess_stderr_protocol', '_subprocess_stdin_protocol',
         '_subprocess_stdout_protocol', 'process', 'process_id', 'return_code', 'stderr', 'stdin', 'stdout'
     )
@@ -192,7 +192,7 @@ class AsyncProcess:
         self.stdout = None
         self.stderr = None
         self._paused = False
-        self._drain_waiter = None
+        self._drain_waiters = None
         self._connection_lost = False
         self._alive_file_descriptors = []
         
@@ -868,17 +868,18 @@ class AsyncProcess:
         """
         self._paused = False
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        drain_waiter.set_result_if_pending(None)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            drain_waiter.set_result_if_pending(None)
     
     
     def _do_connection_lost(self, exception):
         """
-        Sets ``._connection_lost`` as `True` and set ``._drain_waiter`` result or exception as well.
+        Sets ``._connection_lost`` as `True` and sets the result or exception of the ``._drain_waiters`` as well.
         
         Parameters
         ----------
@@ -893,15 +894,16 @@ class AsyncProcess:
         if not self._paused:
             return
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        if exception is None:
-            drain_waiter.set_result_if_pending(None)
-        else:
-            drain_waiter.set_exception_if_pending(exception)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            if exception is None:
+                drain_waiter.set_result_if_pending(None)
+            else:
+                drain_waiter.set_exception_if_pending(exception)
     
     
     async def _drain_helper(self):
@@ -916,5 +918,11 @@ class AsyncProcess:
         if not self._paused:
             return
         
-        self._drain_waiter = drain_waiter = Future(self)
+        drain_waiter = Future(self._loop)
+        
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
+            self._drain_waiters = drain_waiters = []
+        
+        drain_waiters.append(drain_waiter)
         await drain_waiter
-- 
2.43.0


From a93f525b1dfdbc8422be30822bbd9d7b179634a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 102/158] fix: a timed out waiter of a subprocess does not
 break waking up the others

---
 scarletio/core/subprocess/subprocess.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index a6aceb5..1d97ebf 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -577,9 +577,8 @@ class AsyncProcess:
             # wake up futures waiting for wait()
             exit_waiters = self._exit_waiters
             if (exit_waiters is not None):
-                for waiter in self._exit_waiters:
-                    if not waiter.is_cancelled():
-                        waiter.set_result(return_code)
+                for waiter in exit_waiters:
+                    waiter.set_result_if_pending(return_code)
             
             self._exit_waiters = None
         finally:
-- 
2.43.0


From c80dc39ce37f30e18eca106501d4b1a53261280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 103/158] fix: a subprocess is finished once its streams are
 disconnected

---
 scarletio/core/subprocess/subprocess.py           | 8 ++++----
 scarletio/core/subprocess/subprocess_protocols.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index 1d97ebf..a3a673e 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -653,22 +653,22 @@ class AsyncProcess:
             return
         
         stdin_protocol = self._subprocess_stdin_protocol
-        if (stdin_protocol is None) or stdin_protocol._disconnected:
+        if (stdin_protocol is not None) and (not stdin_protocol._disconnected):
             return
         
         stdout_protocol = self._subprocess_stdout_protocol
-        if (stdout_protocol is None) or stdout_protocol._disconnected:
+        if (stdout_protocol is not None) and (not stdout_protocol._disconnected):
             return
         
         stderr_protocol = self._subprocess_stderr_protocol
-        if (stderr_protocol is None) or stderr_protocol._disconnected:
+        if (stderr_protocol is not None) and (not stderr_protocol._disconnected):
             return
         
         pending_calls = self._pending_calls
         if (pending_calls is None):
             self._do_connection_lost(None)
         else:
-            pending_calls.append((type(self)._do_connection_lost, (self, None,)))
+            pending_calls.append((type(self)._do_connection_lost, (None,)))
     
     
     async def _feed_stdin(self, input_value):
diff --git a/scarletio/core/subprocess/subprocess_protocols.py b/scarletio/core/subprocess/subprocess_protocols.py
index a1101a7..2d5bdbb 100755
--- a/scarletio/core/subprocess/subprocess_protocols.py
+++ b/scarletio/core/subprocess/subprocess_protocols.py
@@ -56,8 +56,8 @@ class SubprocessWritePipeProtocol(AbstractProtocolBase):
         process = self._process
         if (process is not None):
             self._process = None
-            process._pipe_connection_lost(self._file_descriptor, exception)
             self._disconnected = True
+            process._pipe_connection_lost(self._file_descriptor, exception)
     
     
     @copy_docs(AbstractProtocolBase.pause_writing)
-- 
2.43.0


From 612731c676a86a52aa011180ae1fe4d95821ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 104/158] fix: subprocesses which closed their outputs early
 are not killed, and ones without pipes can be waited for

---
 scarletio/core/subprocess/subprocess.py | 55 ++++++++++++++++++-------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index a3a673e..20f609f 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -62,6 +62,8 @@ class AsyncProcess:
         Protocol of the stdout pipe if applicable.
     _closed : `bool`
         Whether subprocess is closed.
+    _waiting_for_exit : `bool`
+        Whether waiting for the exit of the process was started.
     process : `subprocess.Process`
         The internal blocking subprocess object.
     process_id : `int`
@@ -78,7 +80,8 @@ class AsyncProcess:
     __slots__ = (
         '_alive_file_descriptors', '_closed', '_connection_lost', '_drain_waiters', '_exit_waiters', '_extra', '_loop',
         '_paused', '_pending_calls', '_subprocess_stderr_protocol', '_subprocess_stdin_protocol',
-        '_subprocess_stdout_protocol', 'process', 'process_id', 'return_code', 'stderr', 'stdin', 'stdout'
+        '_subprocess_stdout_protocol', '_waiting_for_exit', 'process', 'process_id', 'return_code',
+        'stderr', 'stdin', 'stdout'
     )
     
     async def __new__(
@@ -194,6 +197,7 @@ class AsyncProcess:
         self._paused = False
         self._drain_waiters = None
         self._connection_lost = False
+        self._waiting_for_exit = False
         self._alive_file_descriptors = []
         
         try:
@@ -232,6 +236,7 @@ class AsyncProcess:
                 pending_call(self, *args)
             
             self._pending_calls = None
+            self._maybe_process_exited()
         except:
             self.close()
             await self.wait()
@@ -320,6 +325,26 @@ class AsyncProcess:
         if self._closed:
             return
         
+        self._close_pipes()
+        
+        process = self.process
+        if (process is not None):
+            if (self.return_code is None) and (process.poll() is None):
+                try:
+                    process.kill()
+                except ProcessLookupError:
+                    pass
+        
+        self._wait_for_exit()
+    
+    
+    __del__ = close
+    
+    
+    def _close_pipes(self):
+        """
+        Marks the process as closed and closes its pipes.
+        """
         self._closed = True
         
         pipe_stdin = self._subprocess_stdin_protocol
@@ -333,18 +358,16 @@ class AsyncProcess:
         pipe_stderr = self._subprocess_stderr_protocol
         if (pipe_stderr is not None):
             pipe_stderr.close_transport()
-        
-        process = self.process
-        if (process is not None):
-            if (self.return_code is None) and (process.poll() is None):
-                try:
-                    process.kill()
-                except ProcessLookupError:
-                    pass
-        
-        Task(self._loop, self._process_exited())
     
-    __del__ = close
+    
+    def _wait_for_exit(self):
+        """
+        Starts waiting for the exit of the process, if it was not started yet.
+        """
+        if not self._waiting_for_exit:
+            self._waiting_for_exit = True
+            Task(self._loop, self._process_exited())
+    
     
     def send_signal(self, signal):
         """
@@ -572,6 +595,9 @@ class AsyncProcess:
             
             self.return_code = return_code
             
+            if not self._closed:
+                self._close_pipes()
+            
             self._try_finish()
             
             # wake up futures waiting for wait()
@@ -587,12 +613,13 @@ class AsyncProcess:
     
     def _maybe_process_exited(self):
         """
-        Called when a sub-process pipe is closed. When all all pipe is closed, calls ``.close``.
+        Called when a sub-process pipe is closed. When all output pipes are closed, starts waiting for the
+        exit of the process.
         """
         if self._alive_file_descriptors:
             return
         
-        self.close()
+        self._wait_for_exit()
     
     
     async def wait(self, timeout = None):
-- 
2.43.0


From 30e66099bd507150bd2a349e9819ae6c489fee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 105/158] fix: the timeout of communicating with a subprocess
 covers waiting for its exit too

---
 scarletio/core/subprocess/subprocess.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index 20f609f..5582c11 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -5,6 +5,7 @@ from socket import socketpair as create_socket_pair
 from subprocess import PIPE, Popen, TimeoutExpired
 
 from ..protocols_and_transports import ReadProtocolBase
+from ..time import LOOP_TIME
 from ..traps import Future, Task, TaskGroup, skip_poll_cycle
 
 from .subprocess_protocols import SubprocessReadPipeProtocol, SubprocessWritePipeProtocol
@@ -800,6 +801,11 @@ class AsyncProcess:
         """
         tasks = []
         
+        if timeout is None:
+            deadline = 0.0
+        else:
+            deadline = LOOP_TIME() + timeout
+        
         loop = self._loop
         if input_value is None:
             stdin_task = None
@@ -860,7 +866,15 @@ class AsyncProcess:
             stdout = None
             stderr = None
         
-        await self.wait()
+        if timeout is None:
+            await self.wait()
+        else:
+            try:
+                await self.wait(max(deadline - LOOP_TIME(), 0.0))
+            except TimeoutExpired as exception:
+                # report the whole timeout, not just the remaining one.
+                exception.timeout = timeout
+                raise
         
         return stdout, stderr
     
-- 
2.43.0


From 2ac5c8a828241a4429b7b44275200afc27a6f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 106/158] fix: the socket of a datagram connection is closed if
 its protocol cannot be created

---
 scarletio/core/event_loop/event_loop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 817c9c2..e16e560 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2830,7 +2830,11 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         else:
             raise exception
         
-        return await self._create_datagram_connection(protocol_factory, socket, remote_address)
+        try:
+            return await self._create_datagram_connection(protocol_factory, socket, remote_address)
+        except:
+            socket.close()
+            raise
     
 
     async def create_datagram_connection_with(self, protocol_factory, socket):
-- 
2.43.0


From b1685c7b0bb6e2707b78290ef111192c28b3ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 107/158] fix: waiting for a datagram from an address ignores
 the other ones

---
 scarletio/core/protocols_and_transports/protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 5cfd489..575dd2b 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1492,8 +1492,8 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             waiter = Future(self._loop)
             waiters.append(waiter)
             
-            address, protocol = await waiter
-            if address == address:
+            received_from, protocol = await waiter
+            if received_from == address:
                 return protocol
             
             continue
-- 
2.43.0


From b2a94a49cc42ae85a7622af14343a7afc436bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:36 +0000
Subject: [PATCH 108/158] fix: waiting for a datagram ends when the connection
 is lost

---
 .../core/protocols_and_transports/protocol.py | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 575dd2b..ea2075b 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1356,6 +1356,8 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
     ----------
     _by_address : ``dict<(str, int), ReadProtocolBase>``
         Dictionary to store the alive readers by address.
+    _exception : `None | BaseException`
+        The exception to raise to who waits for datagrams after the connection is lost.
     _loop : ``EventThread``
         The loop to what the protocol is bound to.
     _protocol_factory : `type`
@@ -1366,7 +1368,7 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
     _waiters : ``None | list<Future>``
         Waiters for any payload receive if applicable.
     """
-    __slots__ = ('_by_address', '_loop', '_protocol_factory', '_transport', '_waiters',)
+    __slots__ = ('_by_address', '_exception', '_loop', '_protocol_factory', '_transport', '_waiters',)
     
     def __new__(cls, loop, protocol_factory):
         """
@@ -1385,6 +1387,7 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
         self = object.__new__(cls)
         self._loop = loop
         self._by_address = {}
+        self._exception = None
         self._transport = None
         self._waiters = None
         self._protocol_factory = protocol_factory
@@ -1405,6 +1408,17 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
                 reader_protocol.eof_received()
             else:
                 reader_protocol.set_exception(exception)
+        
+        if exception is None:
+            exception = ConnectionError('Connection closed.')
+        
+        self._exception = exception
+        
+        waiters = self._waiters
+        if (waiters is not None):
+            self._waiters = None
+            for waiter in waiters:
+                waiter.set_exception_if_pending(exception)
     
     
     @copy_docs(AbstractProtocolBase.datagram_received)
@@ -1452,6 +1466,13 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             - If `timeout` is given and timeout occur, then returns `None`.
             - if `address` is given and data is received from it, then returns the respective ``ReadProtocolBase``.
             - If `address` is not given, then returns a `tuple` of the respective `address` and protocol.
+        
+        Raises
+        ------
+        ConnectionError
+            - If the connection was closed.
+        BaseException
+            - If the connection was lost with an exception.
         """
         by_address = self._by_address
         if address is None:
@@ -1463,6 +1484,10 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             except KeyError:
                 pass
         
+        exception = self._exception
+        if (exception is not None):
+            raise exception
+        
         if (timeout is not None):
             waiter = Task(self._loop, self.wait_for_receive(address))
             waiter.apply_timeout(timeout)
-- 
2.43.0


From dffbab6b36e214ef5b8e0ca0732cb2245255bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:36 +0000
Subject: [PATCH 109/158] fix: sending a datagram on a closed connection is
 ignored after flushing too

---
 scarletio/core/protocols_and_transports/transport_layer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index da267d9..0f95d8f 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -1105,4 +1105,5 @@ class DatagramSocketTransportLayer(SocketTransportLayerBase):
         if not buffer:
             self._loop.remove_writer(self._file_descriptor)
             if self._closing:
+                self._connection_lost = True
                 self._call_connection_lost(None)
-- 
2.43.0


From 6830da07d9f83903e0482b9c6202b4c87b581920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 110/158] fix: names whose compression pointers form a loop are
 rejected when parsing dns responses

---
 scarletio/dns_query/building_and_parsing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index a9bfb29..63fe5e6 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -112,6 +112,7 @@ def _parse_labels(data, index):
     labels = None
     data_length = len(data)
     furthest_index = index
+    jump_limit = index
     
     while True:
         # Bound check index
@@ -173,14 +174,16 @@ def _parse_labels(data, index):
         furthest_index = max(furthest_index, index)
         index = ((label_length & 0x3f) << 8) | addition
         
-        # Only backwards jumps are allowed.
-        if index > furthest_index:
+        # Only backwards jumps are allowed. They must go before where the previous one went, so they cannot form a loop.
+        if index >= jump_limit:
             response_parsing_error =  ResponseParsingError(
                 RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
                 data,
                 (furthest_index, index),
             )
             break
+        
+        jump_limit = index
     
     if (response_parsing_error is not None):
         return (None, response_parsing_error)
-- 
2.43.0


From 7f0ae78b80ece347c3fac14548e9fa1660f67cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:40 +0000
Subject: [PATCH 111/158] fix: the other name servers are asked too if the
 connection to one fails

---
 scarletio/dns_query/requests.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index d8792aa..1b6b8d8 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -157,15 +157,17 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             except TimeoutError:
                 continue
             
-            except OSError as exception:
+            except GetAddressInfoError:
+                raise
+            
+            except (OSError, EOFError) as exception:
                 # If we force secure request and we failed to make the connection, increment skipped count.
                 if (
-                    (preference_query_transport_type != QUERY_TRANSPORT_TYPE_TLS) or
-                    (exception.errno != ERROR_CODE_CONNECTION_REFUSED)
+                    (preference_query_transport_type == QUERY_TRANSPORT_TYPE_TLS) and
+                    isinstance(exception, ConnectionRefusedError)
                 ):
-                    raise
+                    name_server_skipped_due_to_secure_connection_not_being_available += len(questions)
                 
-                name_server_skipped_due_to_secure_connection_not_being_available += len(questions)
                 continue
             
             if (result is None):
@@ -198,15 +200,17 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             except TimeoutError:
                 continue
             
-            except OSError as exception:
+            except GetAddressInfoError:
+                raise
+            
+            except (OSError, EOFError) as exception:
                 # If we force secure request and we failed to make the connection, increment skipped count.
                 if (
-                    (preference_query_transport_type != QUERY_TRANSPORT_TYPE_TLS) or
-                    (exception.errno != ERROR_CODE_CONNECTION_REFUSED)
+                    (preference_query_transport_type == QUERY_TRANSPORT_TYPE_TLS) and
+                    isinstance(exception, ConnectionRefusedError)
                 ):
-                    raise
+                    name_server_skipped_due_to_secure_connection_not_being_available += 1
                 
-                name_server_skipped_due_to_secure_connection_not_being_available += 1
                 continue
             
             if (result is None):
-- 
2.43.0


From 054aa30487ab6683fc1005f788a59ad2c399e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 112/158] fix: the next name server is asked if one answers
 with a failure

---
 scarletio/dns_query/requests.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 1b6b8d8..a84829f 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -28,7 +28,8 @@ from .constants import (
     CLASS_CODE_INTERNET, IP_TYPE_IP_V4, IP_TYPE_IP_V6, NAME_SERVER_CONFIGURATION_SECURE_CONNECTION_SUPPORT_LEVEL_NO,
     NAME_SERVER_CONFIGURATION_SECURE_CONNECTION_SUPPORT_LEVEL_YES, QUERY_TRANSPORT_TYPE_AUTO, QUERY_TRANSPORT_TYPE_TCP,
     QUERY_TRANSPORT_TYPE_TLS, QUERY_TRANSPORT_TYPE_UDP, RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER,
-    RESOURCE_RECORD_TYPE_IP_V4_ADDRESS, RESOURCE_RECORD_TYPE_IP_V6_ADDRESS
+    RESOURCE_RECORD_TYPE_IP_V4_ADDRESS, RESOURCE_RECORD_TYPE_IP_V6_ADDRESS, RESPONSE_CODE_DOMAIN_NON_EXISTENT,
+    RESPONSE_CODE_OK
 )
 from .helpers import (
     build_name_from_labels, iter_intermediate_intermediate_addresses_ordered, iter_labels_with_searches,
@@ -55,6 +56,23 @@ def _get_next_id():
     return (next(COUNTER) & 0xffff)
 
 
+def _is_result_conclusive(result):
+    """
+    Returns whether the name server could answer the query.
+    
+    Parameters
+    ----------
+    result : ``Result``
+        The received result.
+    
+    Returns
+    -------
+    is_result_conclusive : `bool`
+    """
+    response_code = result.response_code
+    return (response_code == RESPONSE_CODE_OK) or (response_code == RESPONSE_CODE_DOMAIN_NON_EXISTENT)
+
+
 async def async_iter_execute_query_async(event_loop, query, resolve_configuration, ssl_context):
     """
     Iterates over query execution results.
@@ -170,7 +188,7 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
                 
                 continue
             
-            if (result is None):
+            if (result is None) or (not _is_result_conclusive(result)):
                 continue
             
             yield result
@@ -213,7 +231,7 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
                 
                 continue
             
-            if (result is None):
+            if (result is None) or (not _is_result_conclusive(result)):
                 continue
                 
             any_query_passed = True
-- 
2.43.0


From 0360ca5a1396b08d904cb5a677b5ba58fb302f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 113/158] fix: questions which were not answered by a name
 server are asked from the next one

---
 scarletio/dns_query/requests.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index a84829f..85bff1f 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -120,6 +120,8 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
     if questions is None:
         return
     
+    any_answer_received = False
+    remaining_questions = questions
     name_server_skipped_due_to_secure_connection_not_being_available = 0
     preference_query_transport_type = resolve_configuration.preference_query_transport_type
     
@@ -164,7 +166,7 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
                 f'No defined query behaviour for preference_query_transport_type = {preference_query_transport_type!r}.',
             )
         
-        if supports_multiple_questions_in_queries or (len(questions) == 1):
+        if (remaining_questions is questions) and (supports_multiple_questions_in_queries or (len(questions) == 1)):
             task = Task(
                 event_loop,
                 query_executor(event_loop, name_server_configuration, query, resolve_configuration, ssl_context),
@@ -194,8 +196,8 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             yield result
             return
         
-        any_query_passed = False
-        for question in questions:
+        failed_questions = []
+        for question in remaining_questions:
             task = Task(
                 event_loop,
                 query_executor(
@@ -216,6 +218,7 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             try:
                 result = await task
             except TimeoutError:
+                failed_questions.append(question)
                 continue
             
             except GetAddressInfoError:
@@ -229,20 +232,33 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
                 ):
                     name_server_skipped_due_to_secure_connection_not_being_available += 1
                 
+                failed_questions.append(question)
                 continue
             
             if (result is None) or (not _is_result_conclusive(result)):
+                failed_questions.append(question)
                 continue
-                
-            any_query_passed = True
+            
+            if (
+                (result.answers is not None) and
+                any(answer.resource_record_type == question.resource_record_type for answer in result.answers)
+            ):
+                any_answer_received = True
+            
             yield result
             continue
         
-        if any_query_passed:
+        if not failed_questions:
             return
         
+        # Ask the next name server only what we do not know yet.
+        remaining_questions = failed_questions
         continue
     
+    # Having only a part of the answers is still better than nothing.
+    if any_answer_received:
+        return
+    
     if (
         name_server_skipped_due_to_secure_connection_not_being_available ==
         (len(name_server_configurations) * len(questions))
-- 
2.43.0


From 9370c8255c57d5a2c4c047ff54c1d2fe5904ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 114/158] fix: dns responses which do not belong to the query
 are ignored

---
 scarletio/dns_query/requests.py | 78 ++++++++++++++++++++++++++++-----
 1 file changed, 67 insertions(+), 11 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 85bff1f..fdfd7af 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -56,6 +56,50 @@ def _get_next_id():
     return (next(COUNTER) & 0xffff)
 
 
+def _is_result_of_query(query, data, result):
+    """
+    Returns whether the result is a response to the given query.
+    
+    Parameters
+    ----------
+    query : ``Query``
+        The executed query.
+    
+    data : `bytes`
+        The received data.
+    
+    result : ``Result``
+        The parsed result.
+    
+    Returns
+    -------
+    is_result_of_query : `bool`
+    """
+    if (result.transaction_id != query.transaction_id) or (not data[2] >> 7):
+        return False
+    
+    questions = result.questions
+    if questions is None:
+        # Name servers may not be able to repeat the questions if they do not understand the query.
+        return (not _is_result_conclusive(result))
+    
+    if len(questions) != len(query.questions):
+        return False
+    
+    for question, query_question in zip(questions, query.questions):
+        if (
+            (question.resource_record_type != query_question.resource_record_type) or
+            (question.class_code != query_question.class_code) or
+            (
+                [label.lower() for label in (question.labels or ())] !=
+                [label.lower() for label in (query_question.labels or ())]
+            )
+        ):
+            return False
+    
+    return True
+
+
 def _is_result_conclusive(result):
     """
     Returns whether the name server could answer the query.
@@ -323,20 +367,26 @@ async def _execute_query_udp(event_loop, name_server_configuration, query, resol
         data = build_query_data(query, resolve_configuration)
         protocol._transport.send_to(data)
         await protocol.drain()
-        secondary_protocol = await protocol.wait_for_receive(address, resolve_configuration.option_timeout)
-        if (secondary_protocol is None):
+        # The socket is connected, so we receive only from the name server.
+        received = await protocol.wait_for_receive(None, resolve_configuration.option_timeout)
+        if (received is None):
             return
         
-        data = await secondary_protocol.read_once()
-        
-        result, response_parsing_error = parse_result_data(data)
-        if resolve_configuration.preference_raise_upon_response_parsing_error and (response_parsing_error is not None):
-            try:
-                raise response_parsing_error
-            finally:
-                response_parsing_error = None
+        secondary_protocol = received[1]
         
-        return result
+        # Anyone can send a datagram in the name of the name server, so look for the one which belongs to the query.
+        while True:
+            data = await secondary_protocol.read_once()
+            
+            result, response_parsing_error = parse_result_data(data)
+            if resolve_configuration.preference_raise_upon_response_parsing_error and (response_parsing_error is not None):
+                try:
+                    raise response_parsing_error
+                finally:
+                    response_parsing_error = None
+            
+            if (result is not None) and _is_result_of_query(query, data, result):
+                return result
     
     finally:
         if (protocol is not None):
@@ -401,6 +451,9 @@ async def _execute_query_tcp(event_loop, name_server_configuration, query, resol
             finally:
                 response_parsing_error = None
         
+        if (result is None) or (not _is_result_of_query(query, data, result)):
+            return None
+        
         return result
     
     finally:
@@ -469,6 +522,9 @@ async def _execute_query_tls(event_loop, name_server_configuration, query, resol
             finally:
                 response_parsing_error = None
         
+        if (result is None) or (not _is_result_of_query(query, data, result)):
+            return None
+        
         return result
     
     finally:
-- 
2.43.0


From ce90f87cac966564be81733280b852cf8a93269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 115/158] fix: truncated dns responses are asked again through
 tcp

---
 scarletio/dns_query/requests.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index fdfd7af..37d1cd1 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -386,11 +386,19 @@ async def _execute_query_udp(event_loop, name_server_configuration, query, resol
                     response_parsing_error = None
             
             if (result is not None) and _is_result_of_query(query, data, result):
-                return result
+                break
     
     finally:
         if (protocol is not None):
             protocol.close()
+    
+    # The response did not fit into a datagram.
+    if result.truncated:
+        return await _execute_query_tcp(
+            event_loop, name_server_configuration, query, resolve_configuration, ssl_context
+        )
+    
+    return result
 
 
 async def _execute_query_tcp(event_loop, name_server_configuration, query, resolve_configuration, ssl_context):
-- 
2.43.0


From 9862afd771c1c819eff04dfa43bab8f89c43e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 116/158] fix: get_name_info of event loops looks up the name

---
 scarletio/core/event_loop/event_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index e16e560..b73d066 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2193,7 +2193,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         future : ``Future``
             An awaitable future, what will yield the lookup's result.
         """
-        return await get_address_info_async(
+        return await get_name_info_async(
             self,
             socket_address,
             flags,
-- 
2.43.0


From e12b579a3c851091ef0a3fe91e1add90992692f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 117/158] fix: reverse lookups use the pointer of the answer
 and survive malformed ones

---
 scarletio/dns_query/building_and_parsing.py |  7 +++++-
 scarletio/dns_query/requests.py             | 25 +++++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index 63fe5e6..6fdb5c3 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -485,9 +485,14 @@ def parse_domain_name_pointer_data(data):
         return None
     
     labels_and_furthest_index, response_parsing_error = _parse_labels(data, 0)
+    if (response_parsing_error is not None):
+        return None
     
     labels, furthest_index = labels_and_furthest_index
     if labels is None:
         return None
     
-    return build_name_from_labels(labels)
+    try:
+        return build_name_from_labels(labels)
+    except UnicodeError:
+        return None
diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 37d1cd1..fc7bb43 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -1013,19 +1013,26 @@ async def get_name_info_async(
                 if (answers is not None):
                     break
             else:
-                if (socket_flags & NAME_INFO_RAISE_ERROR_IF_NAME_CANNOT_BE_DETERMINED):
-                    raise GetAddressInfoError(
-                        ERROR_CODE_ADDRESS_INFO_NO_NAME,
-                        'Name and service not known.',
-                    )
-                
                 answers = None
             
+            maybe_host_name = None
             if (answers is not None):
-                maybe_host_name = parse_domain_name_pointer_data(answers[0].data)
-                if (maybe_host_name is not None):
-                    host_name = maybe_host_name
+                for resource_record in answers:
+                    # There can be aliases too.
+                    if resource_record.resource_record_type == RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER:
+                        maybe_host_name = parse_domain_name_pointer_data(resource_record.data)
+                        if (maybe_host_name is not None):
+                            break
+            
+            if (maybe_host_name is not None):
+                host_name = maybe_host_name
                 break
+            
+            if (socket_flags & NAME_INFO_RAISE_ERROR_IF_NAME_CANNOT_BE_DETERMINED):
+                raise GetAddressInfoError(
+                    ERROR_CODE_ADDRESS_INFO_NO_NAME,
+                    'Name and service not known.',
+                )
         
         host_name = address
         if has_scope:
-- 
2.43.0


From 4d48d486712d6efe0d51eb7c67882de08afda5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 118/158] fix: an undecodable name in a dns answer does not
 fail the resolution

---
 scarletio/dns_query/requests.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index fc7bb43..d44c21a 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -838,10 +838,12 @@ async def get_address_info_async(
                     continue
                 
                 for resource_record in answers:
+                    canonical_name = None
                     if socket_flags & ADDRESS_INFO_CANONICAL_NAME:
-                        canonical_name = build_name_from_labels(resource_record.labels)
-                    else:
-                        canonical_name = None
+                        try:
+                            canonical_name = build_name_from_labels(resource_record.labels)
+                        except UnicodeError:
+                            pass
                     
                     resource_record_type = resource_record.resource_record_type
                     data = resource_record.data
-- 
2.43.0


From df572111ab01b47f76ff6ae1146dc39ff95d5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 119/158] fix: create_connection_to tries the next address if
 no socket can be made for one

---
 scarletio/core/event_loop/event_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index b73d066..1b645be 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -1505,10 +1505,10 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         
         exceptions = []
         for socket_family, socket_type, socket_protocol, socket_address_canonical_name, address in infos:
-            
-            socket = Socket(family = socket_family, type = socket_type, proto = socket_protocol)
+            socket = None
             
             try:
+                socket = Socket(family = socket_family, type = socket_type, proto = socket_protocol)
                 socket.setblocking(False)
                 
                 if (local_address_infos is not None):
-- 
2.43.0


From 38869410ea2a91fb74c9612366f79a1595449e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 120/158] fix: a connection whose protocol cannot be created
 closes its socket

---
 scarletio/core/event_loop/event_loop.py | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 1b645be..f18f387 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -1651,17 +1651,21 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         protocol : ``AbstractProtocolBase``
             The protocol returned by `protocol_factory`.
         """
-        socket.setblocking(False)
-        
-        protocol = protocol_factory()
-        waiter = Future(self)
-        
-        if ssl_context is None:
-            transport = self._make_socket_transport(socket, protocol, waiter)
-        else:
-            transport = self._make_ssl_transport(
-                socket, protocol, ssl_context, waiter, server_side = server_side, server_host_name = server_host_name
-            )
+        try:
+            socket.setblocking(False)
+            
+            protocol = protocol_factory()
+            waiter = Future(self)
+            
+            if ssl_context is None:
+                transport = self._make_socket_transport(socket, protocol, waiter)
+            else:
+                transport = self._make_ssl_transport(
+                    socket, protocol, ssl_context, waiter, server_side = server_side, server_host_name = server_host_name
+                )
+        except:
+            socket.close()
+            raise
         
         try:
             await waiter
-- 
2.43.0


From fb39c7c5200591c626f7b434443261aac9e3d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 121/158] fix: closing a connector ends the waiting for lookups
 which did not start yet

---
 scarletio/http_client/connector_tcp.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 352b852..b8ef693 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -127,8 +127,16 @@ class ConnectorTCP(ConnectorBase):
         """
         Closes the connector, it's dns lookup events and it's connections.
         """
-        for task, waiters in self.resolve_host_tasks_and_waiters.values():
+        resolve_host_tasks_and_waiters = self.resolve_host_tasks_and_waiters
+        
+        for task, waiters in resolve_host_tasks_and_waiters.values():
             task.cancel()
+            
+            # If the task did not start yet, it will not notify its waiters when it is cancelled.
+            for waiter in waiters:
+                waiter.set_result_if_pending((None, None))
+        
+        resolve_host_tasks_and_waiters.clear()
         
         ConnectorBase.close(self)
     
@@ -172,9 +180,12 @@ class ConnectorTCP(ConnectorBase):
         
         finally:
             try:
-                del self.resolve_host_tasks_and_waiters[host, port]
+                task_and_waiters = self.resolve_host_tasks_and_waiters[host, port]
             except KeyError:
                 pass
+            else:
+                if task_and_waiters[1] is waiters:
+                    del self.resolve_host_tasks_and_waiters[host, port]
             
             for waiter in waiters:
                 waiter.set_result_if_pending(result)
-- 
2.43.0


From 735869f09954655ccb6e1f6d9d283aef9bb5f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 122/158] fix: a request whose body is cancelled by its source
 fails

---
 scarletio/http_client/client_request.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_request.py b/scarletio/http_client/client_request.py
index dfa3047..f4d8f5d 100755
--- a/scarletio/http_client/client_request.py
+++ b/scarletio/http_client/client_request.py
@@ -476,8 +476,16 @@ class ClientRequest(RichAttributeErrorBaseType):
         except GeneratorExit:
             raise
         
-        except CancelledError:
+        except CancelledError as exception:
             # Do not write eof, the part which is written already must not look like a complete body.
+            response = self.response
+            protocol = connection.protocol
+            if (protocol is not None) and ((response is None) or (response.write_body_task is not None)):
+                # The response did not cancel us, so it has to be notified that it is not going to happen.
+                new_exception = ConnectionError(f'Writing request body was cancelled for {self.url!r}.')
+                new_exception.__cause__ = exception
+                protocol.set_exception(new_exception)
+            
             raise
         
         except BaseException as exception:
-- 
2.43.0


From b446fb6488c56c0d143710f9b247c20759929638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 123/158] fix: deduplicated zip file names are unique

---
 .../streaming/zip_streaming/name_deduplication.py     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scarletio/streaming/zip_streaming/name_deduplication.py b/scarletio/streaming/zip_streaming/name_deduplication.py
index 58affd0..e29974a 100755
--- a/scarletio/streaming/zip_streaming/name_deduplication.py
+++ b/scarletio/streaming/zip_streaming/name_deduplication.py
@@ -58,6 +58,7 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
     name : `str`
     """
     collected = {}
+    used_names = set()
     name = yield
     
     while True:
@@ -107,4 +108,14 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
         if (index != new_index):
             name = name_reconstructor(path, new_index, extension)
         
+        # A reconstructed name could match an other one which is interpreted differently.
+        while name in used_names:
+            previous_name = name
+            new_index = max(new_index, 0) + 1
+            name = name_reconstructor(path, new_index, extension)
+            if name == previous_name:
+                # The reconstructor ignores the index.
+                break
+        
+        used_names.add(name)
         name = yield name
-- 
2.43.0


From 7aa5ef59b26d69d8e195fb00f5469e6f25fa6d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 124/158] fix: zip archives may contain more than 65535 files

---
 scarletio/streaming/zip_streaming/zip_stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/zip_stream.py b/scarletio/streaming/zip_streaming/zip_stream.py
index 3143a2c..d91775e 100755
--- a/scarletio/streaming/zip_streaming/zip_stream.py
+++ b/scarletio/streaming/zip_streaming/zip_stream.py
@@ -200,8 +200,8 @@ def _create_end_of_central_directory_record(files_count):
         END_OF_CENTRAL_DIRECTORY_RECORD_SIGNATURE,
         0,
         0,
-        files_count,
-        files_count,
+        min(files_count, 0xffff),
+        min(files_count, 0xffff),
         0xffffffff,
         0xffffffff,
         0,
-- 
2.43.0


From 67fe2f995c7d6933b9ea1f1c2bda8456b780b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 125/158] fix: asyncio.create_task creates a task

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index cefaf6e..1fde5b3 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3098,7 +3098,7 @@ def create_task(coroutine, *, name = None):
     Return a Task object.
     """
     loop = get_running_loop()
-    return Task(loop, coroutine)
+    return Task(coroutine, loop)
 
 
 FIRST_COMPLETED = 'FIRST_COMPLETED'
-- 
2.43.0


From 0154cc3309169731473dffe47795fb591a2f6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 126/158] fix: asyncio.gather returns the results in order

---
 scarletio/ext/asyncio/asyncio.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 1fde5b3..c2a08dc 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3341,10 +3341,11 @@ def ensure_future(coroutine_or_future, *, loop = None):
     return loop.ensure_future(coroutine_or_future)
 
 class _gatherer_done_callback_return_exceptions:
-    __slots__ = ('task_group', 'future', )
+    __slots__ = ('task_group', 'tasks', 'future', )
     
-    def __init__(self, task_group, future):
+    def __init__(self, task_group, tasks, future):
         self.task_group = task_group
+        self.tasks = tasks
         self.future = future
     
     def __call__(self, gatherer):
@@ -3363,7 +3364,7 @@ class _gatherer_done_callback_return_exceptions:
             future.set_exception_if_pending(err)
             return
         
-        for done_future in self.task_group.done:
+        for done_future in self.tasks:
             try:
                 result = done_future.get_result()
             except BaseException as err:
@@ -3375,10 +3376,11 @@ class _gatherer_done_callback_return_exceptions:
 
 
 class _gatherer_done_callback_raise:
-    __slots__ = ('task_group', 'future', )
+    __slots__ = ('task_group', 'tasks', 'future', )
     
-    def __init__(self, task_group, future):
+    def __init__(self, task_group, tasks, future):
         self.task_group = task_group
+        self.tasks = tasks
         self.future = future
     
     
@@ -3395,20 +3397,20 @@ class _gatherer_done_callback_raise:
         
         results = []
         
-        iterator = iter(self.task_group.done)
+        iterator = iter(self.tasks)
         for done_future in iterator:
+            if not done_future.is_done():
+                continue
+            
             try:
                 result = done_future.get_result()
             except BaseException as err:
                 exception = err
                 
                 # Silence the rest of the futures, so we do not get not retrieved warning.
-                for future_to_silence in iterator:
+                for future_to_silence in self.tasks:
                     future_to_silence.silence()
                 
-                for future_to_silence in self.task_group.pending:
-                    future_to_silence.silence()
-                    
                 break
             else:
                 results.append(result)
@@ -3461,7 +3463,7 @@ def gather(*coroutines_or_futures, loop = None, return_exceptions = False):
     any other awaitables.
     """
     # Remove duplicates. This is not an asyncio behavior, but should be.
-    coroutines_or_futures = {*coroutines_or_futures}
+    coroutines_or_futures = [*dict.fromkeys(coroutines_or_futures)]
     
     if loop is None:
         detected_loops = None
@@ -3512,7 +3514,7 @@ def gather(*coroutines_or_futures, loop = None, return_exceptions = False):
         gatherer_done_callback_type = _gatherer_done_callback_raise
     
     future.add_done_callback(_gatherer_cancel_callback(task_group, waiter))
-    waiter.add_done_callback(gatherer_done_callback_type(task_group, future))
+    waiter.add_done_callback(gatherer_done_callback_type(task_group, tasks, future))
     return future
 
 
-- 
2.43.0


From 926af5deb11cb8797fd10c4a2c104e3a7c7b51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 127/158] fix: asyncio.wait with FIRST_EXCEPTION waits for the
 first exception

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index c2a08dc..26a8d6b 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3162,7 +3162,7 @@ async def wait(futures, *, loop = None, timeout = None, return_when = ALL_COMPLE
     if return_when == FIRST_COMPLETED:
         waiter_future = task_group.wait_first()
     elif return_when == FIRST_EXCEPTION:
-        waiter_future = task_group.wait_first()
+        waiter_future = task_group.wait_exception()
     else:
         waiter_future = task_group.wait_all()
     
-- 
2.43.0


From 8cc0c5c150800b21dc0e7f882a77c7b203fbfb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 128/158] fix: asyncio.wait returns sets which do not change
 afterwards

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 26a8d6b..23a8bfb 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3174,7 +3174,7 @@ async def wait(futures, *, loop = None, timeout = None, return_when = ALL_COMPLE
     except TimeoutError:
         pass
     
-    return task_group.done, task_group.pending
+    return {*task_group.done}, {*task_group.pending}
 
 
 async def wait_for(future, timeout, *, loop = None):
-- 
2.43.0


From 8c04314602e0625cbcbaa49d2cb96269ca5f9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 129/158] fix: asyncio.timeout raises TimeoutError when it
 expires

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 23a8bfb..cdf8d12 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -4191,7 +4191,7 @@ class Timeout:
         if self._state is _TimeoutState.EXPIRING:
             self._state = _TimeoutState.EXPIRED
             
-            if isinstance(exception_type, CancelledError):
+            if (exception_type is not None) and issubclass(exception_type, CancelledError):
                 # Since there are no new cancel requests, we're handling this.
                 raise TimeoutError from exception_value
         
-- 
2.43.0


From 85a1daca012cbeebf6ade607cf19506ccc9b2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 130/158] fix: asyncio.Semaphore with waiters has a
 representation

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index cdf8d12..d9afad2 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1615,7 +1615,7 @@ class Semaphore:
         waiter_count = len(self._waiters)
         if waiter_count:
             repr_parts.append(', waiters:')
-            repr_parts.append(waiter_count)
+            repr_parts.append(str(waiter_count))
         
         repr_parts.append('>')
         return ''.join(repr_parts)
-- 
2.43.0


From c617f74b019ecb649ef107231ef97a3fa03e920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 131/158] fix: asyncio queues of negative size are infinite

---
 scarletio/ext/asyncio/asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index d9afad2..6fde1a6 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1989,7 +1989,7 @@ class Queue(AsyncQueue):
         if loop is None:
             loop = get_event_loop()
         
-        if maxsize:
+        if maxsize > 0:
             max_length = maxsize
         else:
             max_length = None
@@ -2036,7 +2036,7 @@ class LifoQueue(AsyncLifoQueue):
         if loop is None:
             loop = get_event_loop()
         
-        if maxsize:
+        if maxsize > 0:
             max_length = maxsize
         else:
             max_length = None
-- 
2.43.0


From c9e9c2f4a2aa9f7d3130e7a1ce3ee7c2f8d463b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 132/158] fix: asyncio.run returns the result and uses its loop
 factory

---
 scarletio/ext/asyncio/asyncio.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 6fde1a6..482f051 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2101,21 +2101,18 @@ def run(main, *, debug = None, loop_factory = None):
         try:
             loop = scarletio_get_event_loop()
         except RuntimeError:
-            pass
+            loop = EventThread()
         else:
             # Required by anyio
             main = Task(in_coro(main), loop = loop)
             
-            loop.run(main)
-            return
-    
-    loop = EventThread()
+            return loop.run(main)
     
     # Required by anyio
     main = Task(in_coro(main), loop = loop)
     
     try:
-        loop.run(main)
+        return loop.run(main)
     finally:
         loop.stop()
 
-- 
2.43.0


From ab1813dc8f84bddc4fe7a1f7d27fd8203e6a31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 133/158] fix: run_until_complete returns the result

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 482f051..524c019 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -165,7 +165,7 @@ class EventThread:
         if isinstance(local_thread, EventThread):
             raise RuntimeError('Cannot call `loop.run_until_complete` inside of a loop')
         
-        self.run(future)
+        return self.run(future)
     
     
     # Required by dead.py 3.8
-- 
2.43.0


From 67d8bccb9cfb1f660bf5b6914344c7f03e4ba3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 134/158] fix: asyncio.LifoQueue has a put method

---
 scarletio/ext/asyncio/asyncio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 524c019..07a49af 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2043,6 +2043,14 @@ class LifoQueue(AsyncLifoQueue):
         
         return AsyncLifoQueue.__new__(cls, loop, max_length = max_length)
     
+    async def put(self, element):
+        """
+        Put an item into the queue.
+        
+        Put an item into the queue. If the queue is full, wait until a free slot is available before adding item.
+        """
+        await self.set_result_wait(element)
+    
     def put_nowait(self, element):
         if len(self) == self.max_length:
             raise QueueFull()
-- 
2.43.0


From 0bccec835bdea321f224cc99c24bf131886f1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 135/158] fix: copies of WeakItemDictionary are notified about
 their own dead entries

---
 scarletio/utils/weak_item_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index d0dacce..ec16fb9 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -474,8 +474,8 @@ class WeakItemDictionary(dict):
                 add_to_pending_removals(self, key_reference)
                 continue
             
-            key_reference = WeakReferer(key, self._key_callback)
-            value_reference = KeyedReferer(value, self._value_callback, key_reference)
+            key_reference = WeakReferer(key, key_callback)
+            value_reference = KeyedReferer(value, value_callback, key_reference)
             
             dict.__setitem__(new, key_reference, value_reference)
             continue
-- 
2.43.0


From ba7e6fa3815600906b489a1463d434c3a88f8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 136/158] fix: WeakValueDictionary removes its dead entries
 after an iteration

---
 scarletio/utils/weak_value_dictionary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 10c71e8..066af51 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -228,7 +228,8 @@ class WeakValueDictionary(dict):
             except KeyError:
                 continue
             
-            if (actual_value_reference is not value_reference):
+            # `value_reference` might be wrapped into a `WeakHasher`.
+            if (actual_value_reference != value_reference):
                 continue
             
             try:
-- 
2.43.0


From 921dc007ef25f37e39a0eae40154f7df5a2b4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 137/158] fix: WeakKeyDictionary removes every dead entry after
 an iteration

---
 scarletio/utils/weak_key_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 2f6ed0e..64aefea 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -218,7 +218,7 @@ class WeakKeyDictionary(dict):
             try:
                 dict.__delitem__(self, key_reference)
             except KeyError:
-                return
+                pass
     
     # __class__ -> same
     
-- 
2.43.0


From a6475623a5fe6a51450132282f184452ce0d0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 138/158] fix: WeakItemDictionary does not remove an entry
 which was assigned again while iterating

---
 scarletio/utils/weak_item_dictionary.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index ec16fb9..7a3ab8b 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -211,10 +211,15 @@ class WeakItemDictionary(dict):
         self._pending_removals = None
         
         for key_reference in pending_removals:
-            try:
-                dict.__delitem__(self, key_reference)
-            except KeyError:
-                pass
+            value_reference = dict.get(self, key_reference, None)
+            if value_reference is None:
+                continue
+            
+            # The key might have been assigned again since.
+            if (key_reference() is not None) and (value_reference() is not None):
+                continue
+            
+            dict.__delitem__(self, key_reference)
     
     # __class__ -> same
     
-- 
2.43.0


From 91943a51e795f13eeaef13e0e6f05e55495a5e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 139/158] fix: length of weak collections when entries pending
 to be removed were already removed

---
 scarletio/utils/weak_item_dictionary.py  | 5 ++++-
 scarletio/utils/weak_key_dictionary.py   | 3 ++-
 scarletio/utils/weak_map.py              | 3 ++-
 scarletio/utils/weak_set.py              | 3 ++-
 scarletio/utils/weak_value_dictionary.py | 3 ++-
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 7a3ab8b..524f7a5 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -341,7 +341,10 @@ class WeakItemDictionary(dict):
         length = dict.__len__(self)
         pending_removals = self._pending_removals
         if (pending_removals is not None):
-            length -= len(pending_removals)
+            for key_reference in [*pending_removals]:
+                value_reference = dict.get(self, key_reference, None)
+                if (value_reference is not None):
+                    length -= (key_reference() is None) or (value_reference() is None)
         
         return length
     
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 64aefea..b69f1d7 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -309,7 +309,8 @@ class WeakKeyDictionary(dict):
         length = dict.__len__(self)
         pending_removals = self._pending_removals
         if (pending_removals is not None):
-            length -= len(pending_removals)
+            for reference in [*pending_removals]:
+                length -= dict.__contains__(self, reference)
         
         return length
     
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 67c6718..9c63b65 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -228,7 +228,8 @@ class WeakMap(dict):
         length = dict.__len__(self)
         pending_removals = self._pending_removals
         if (pending_removals is not None):
-            length -= len(pending_removals)
+            for reference in [*pending_removals]:
+                length -= dict.__contains__(self, reference)
         
         return length
     
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 1011e48..fee4724 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -426,7 +426,8 @@ class WeakSet(set):
         length = set.__len__(self)
         pending_removals = self._pending_removals
         if (pending_removals is not None):
-            length -= len(pending_removals)
+            for reference in [*pending_removals]:
+                length -= set.__contains__(self, reference)
         
         return length
     
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 066af51..266ae31 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -336,7 +336,8 @@ class WeakValueDictionary(dict):
         length = dict.__len__(self)
         pending_removals = self._pending_removals
         if (pending_removals is not None):
-            length -= len(pending_removals)
+            for value_reference in [*pending_removals]:
+                length -= (dict.get(self, value_reference.key, None) == value_reference)
         
         return length
     
-- 
2.43.0


From 5eb22da2116807dab573b622ea769df9e448999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 140/158] fix: elements of weak collections may die while they
 are represented or compared

---
 scarletio/utils/weak_item_dictionary.py  | 32 +++---------------------
 scarletio/utils/weak_key_dictionary.py   | 27 +++-----------------
 scarletio/utils/weak_map.py              |  9 +------
 scarletio/utils/weak_set.py              |  7 +-----
 scarletio/utils/weak_value_dictionary.py | 27 +++-----------------
 5 files changed, 14 insertions(+), 88 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 524f7a5..89541e0 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -85,23 +85,11 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
     
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
-        parent = self._parent
-        for value_reference in dict.values(parent):
-            value = value_reference()
-            if (value is None):
-                add_to_pending_removals(parent, value_reference.key)
-                continue
-            
+        for value in self:
             if value == contains_value:
-                result = True
-                break
-        
-        else:
-            result = False
-        
-        parent._commit_removals()
+                return True
         
-        return result
+        return False
     
     
 
@@ -393,17 +381,7 @@ class WeakItemDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key_reference, value_reference in dict.items(self):
-                key = key_reference()
-                if (key is None):
-                    add_to_pending_removals(self, key_reference)
-                    continue
-                
-                value = value_reference()
-                if (value is None):
-                    add_to_pending_removals(self, key_reference)
-                    continue
-                
+            for key, value in self.items():
                 result.append(repr(key))
                 result.append(': ')
                 result.append(repr(value))
@@ -423,8 +401,6 @@ class WeakItemDictionary(dict):
                 break
             else:
                 result[-1] = '})'
-            
-            self._commit_removals()
         else:
             result.append('})')
         
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index b69f1d7..6765518 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -109,23 +109,11 @@ class _WeakKeyDictionaryValueIterator(DictionaryValueIteratorBase):
     
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
-        parent = self._parent
-        
-        for key_reference, value in dict.items(parent):
-            if (key_reference() is None):
-                add_to_pending_removals(parent, key_reference)
-                continue
-            
+        for value in self:
             if value == contains_value:
-                result = True
-                break
-        
-        else:
-            result = False
+                return True
         
-        parent._commit_removals()
-        
-        return result
+        return False
     
 
 class _WeakKeyDictionaryItemIterator(DictionaryItemIteratorBase):
@@ -359,12 +347,7 @@ class WeakKeyDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key_reference, value in dict.items(self):
-                key = key_reference()
-                if (key is None):
-                    add_to_pending_removals(self, key_reference)
-                    continue
-                
+            for key, value in self.items():
                 result.append(repr(key))
                 result.append(': ')
                 result.append(repr(value))
@@ -385,8 +368,6 @@ class WeakKeyDictionary(dict):
             else:
                 result[-1] = '})'
             
-            self._commit_removals()
-            
         else:
             result.append('})')
         
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 9c63b65..95f673c 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -275,12 +275,7 @@ class WeakMap(dict):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
             
-            for reference in dict.__iter__(self):
-                key = reference()
-                if (key is None):
-                    add_to_pending_removals(self, reference)
-                    continue
-                
+            for key in self:
                 result.append(repr(key))
                 result.append(', ')
                 
@@ -298,8 +293,6 @@ class WeakMap(dict):
                 break
             else:
                 result[-1] = '})'
-            
-            self._commit_removals()
         else:
             result.append('})')
         
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index fee4724..fc0f1e6 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -522,12 +522,7 @@ class WeakSet(set):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
             
-            for element_reference in set.__iter__(self):
-                element = element_reference()
-                if (element is None):
-                    add_to_pending_removals(self, element_reference)
-                    continue
-                
+            for element in self:
                 result.append(repr(element))
                 result.append(', ')
                 
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 266ae31..41f4906 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -109,23 +109,11 @@ class _WeakValueDictionaryValueIterator(DictionaryValueIteratorBase):
     
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
-        parent = self._parent
-        for value_reference in dict.values(parent):
-            value = value_reference()
-            if (value is None):
-                add_to_pending_removals(parent, value_reference)
-                continue
-            
+        for value in self:
             if value == contains_value:
-                result = True
-                break
-        
-        else:
-            result = False
+                return True
         
-        parent._commit_removals()
-        
-        return result
+        return False
 
 
 @has_docs
@@ -386,12 +374,7 @@ class WeakValueDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key, value_reference in dict.items(self):
-                value = value_reference()
-                if (value is None):
-                    add_to_pending_removals(self, value_reference)
-                    continue
-                
+            for key, value in self.items():
                 result.append(repr(key))
                 result.append(': ')
                 result.append(repr(value))
@@ -411,8 +394,6 @@ class WeakValueDictionary(dict):
                 break
             else:
                 result[-1] = '})'
-            
-            self._commit_removals()
         else:
             result.append('})')
         
-- 
2.43.0


From ef7f42e7dbea6538a3992ec0eca6195f28822997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 141/158] fix: elements of weak collections may die while they
 are copied

---
 scarletio/utils/weak_item_dictionary.py  | 15 +--------------
 scarletio/utils/weak_key_dictionary.py   | 10 +---------
 scarletio/utils/weak_map.py              | 10 +---------
 scarletio/utils/weak_set.py              |  7 ++-----
 scarletio/utils/weak_value_dictionary.py | 10 +---------
 5 files changed, 6 insertions(+), 46 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 89541e0..97aae60 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -447,24 +447,11 @@ class WeakItemDictionary(dict):
         new._value_callback = value_callback
         new._iterating = 0
         
-        for key_reference, value_reference in dict.items(self):
-            key = key_reference()
-            if key is None:
-                add_to_pending_removals(self, key_reference)
-                continue
-            
-            value = value_reference()
-            if value is None:
-                add_to_pending_removals(self, key_reference)
-                continue
-            
+        for key, value in self.items():
             key_reference = WeakReferer(key, key_callback)
             value_reference = KeyedReferer(value, value_callback, key_reference)
             
             dict.__setitem__(new, key_reference, value_reference)
-            continue
-        
-        self._commit_removals()
         
         return new
     
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 6765518..e269b03 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -410,16 +410,8 @@ class WeakKeyDictionary(dict):
         new._callback = callback
         new._iterating = 0
         
-        for key_reference, value in dict.items(self):
-            key = key_reference()
-            if key is None:
-                add_to_pending_removals(self, key_reference)
-                continue
-            
+        for key, value in self.items():
             dict.__setitem__(new, WeakReferer(key, callback), value)
-            continue
-        
-        self._commit_removals()
         
         return new
     
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 95f673c..c956572 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -329,17 +329,9 @@ class WeakMap(dict):
         new._pending_removals = None
         new._callback = callback = _WeakMapCallback(new)
         
-        for reference in dict.__iter__(self):
-            key = reference()
-            if (key is None):
-                add_to_pending_removals(self, reference)
-                continue
-            
+        for key in self:
             reference = WeakReferer(key, callback)
             dict.__setitem__(new, reference, reference)
-            continue
-        
-        self._commit_removals()
         
         return new
     
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index fc0f1e6..d4e5021 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -683,11 +683,8 @@ class WeakSet(set):
         new = type(self)()
         new_callback = new._callback
         
-        for element_reference in set.__iter__(self):
-            element = element_reference()
-            if (element is not None):
-                element_reference =  WeakReferer(element, new_callback)
-                set.add(new, element_reference)
+        for element in self:
+            set.add(new, WeakReferer(element, new_callback))
         
         return new
     
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 41f4906..26b96b4 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -436,16 +436,8 @@ class WeakValueDictionary(dict):
         new._callback = callback
         new._iterating = 0
         
-        for key, value_reference in dict.items(self):
-            value = value_reference()
-            if value is None:
-                add_to_pending_removals(self, value_reference)
-                continue
-            
+        for key, value in self.items():
             dict.__setitem__(new, key, KeyedReferer(value, callback, key))
-            continue
-        
-        self._commit_removals()
         
         return new
     
-- 
2.43.0


From 252271df5c63eb10b0173a7814668bc2c268725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 142/158] fix: a WeakSet can be subtracted from itself

---
 scarletio/utils/weak_set.py | 35 +++++------------------------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index d4e5021..0266de4 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -310,10 +310,7 @@ class WeakSet(set):
     def __isub__(self, other):
         """Update the set, removing elements found in others."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
-                set.discard(self, element_reference)
-            
-            return self
+            other = set(iter(other))
         
         elif is_iterable(other):
             pass
@@ -359,18 +356,7 @@ class WeakSet(set):
     def __ixor__(self, other):
         """Update the set, keeping only elements found in either set, but not in both."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
-                element = element_reference()
-                if element is None:
-                    add_to_pending_removals(self, element_reference)
-                    continue
-                
-                try:
-                    set.remove(self, element_reference)
-                except KeyError:
-                    self.add(element)
-            
-            return self
+            other = set(iter(other))
         
         if isinstance(other, (set, dict)):
             for element in other:
@@ -749,8 +735,8 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
-                set.discard(self, element_reference)
+            for element in set(iter(iterable)):
+                self.discard(element)
         
         elif is_iterable(iterable):
             for element in iterable:
@@ -1095,18 +1081,7 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
-                element = element_reference()
-                if element is None:
-                    add_to_pending_removals(self, element_reference)
-                    continue
-                
-                try:
-                    set.remove(self, element_reference)
-                except KeyError:
-                    self.add(element)
-            
-            return
+            iterable = set(iter(iterable))
         
         
         if isinstance(iterable, (set, dict)):
-- 
2.43.0


From a91fa99feea9c525d9882c01f138bf1c750a166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 143/158] fix: dead entries do not count when weak collections
 are compared

---
 scarletio/utils/weak_item_dictionary.py  |  8 ++++----
 scarletio/utils/weak_key_dictionary.py   |  8 ++++----
 scarletio/utils/weak_map.py              |  4 ++--
 scarletio/utils/weak_set.py              | 16 ++++++++--------
 scarletio/utils/weak_value_dictionary.py |  8 ++++----
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 97aae60..388b97b 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -252,9 +252,9 @@ class WeakItemDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -341,9 +341,9 @@ class WeakItemDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index e269b03..a06cef2 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -235,9 +235,9 @@ class WeakKeyDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -307,9 +307,9 @@ class WeakKeyDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index c956572..381092c 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -136,7 +136,7 @@ class WeakMap(dict):
     def __eq__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = set(iter(other))
         
         if isinstance(other, set):
             pass
@@ -238,7 +238,7 @@ class WeakMap(dict):
     def __ne__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = set(iter(other))
         
         if isinstance(other, set):
             pass
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 0266de4..1c17c26 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -150,7 +150,7 @@ class WeakSet(set):
     
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            return set.__eq__(self, other)
+            other = set(iter(other))
         
         if isinstance(other, set):
             pass
@@ -176,7 +176,7 @@ class WeakSet(set):
     def __ge__(self, other):
         """Returns whether every element in other is in the set."""
         if isinstance(other, type(self)):
-            return set.__ge__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -199,7 +199,7 @@ class WeakSet(set):
     def __gt__(self, other):
         """Returns whether the set is a proper superset of other."""
         if isinstance(other, type(self)):
-            return set.__gt__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -390,7 +390,7 @@ class WeakSet(set):
     def __le__(self, other):
         """Returns whether every element in the set is in other."""
         if isinstance(other, type(self)):
-            return set.__le__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -422,7 +422,7 @@ class WeakSet(set):
     def __lt__(self, other):
         """Test whether the set is a proper superset of other"""
         if isinstance(other, type(self)):
-            return set.__lt__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -440,7 +440,7 @@ class WeakSet(set):
     
     def  __ne__(self, other):
         if isinstance(other, type(self)):
-            return set.__ne__(self, other)
+            other = set(iter(other))
         
         if isinstance(other, set):
             pass
@@ -915,7 +915,7 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__le__(self, iterable)
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
@@ -952,7 +952,7 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__ge__(self, iterable)
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 26b96b4..5d95c84 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -253,9 +253,9 @@ class WeakValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -334,9 +334,9 @@ class WeakValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
-- 
2.43.0


From f523d181ff5310582b43ba012d80f54f1328a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 144/158] fix: items of WeakKeyDictionary contain the ones with
 None as value

---
 scarletio/utils/weak_key_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index a06cef2..f720d16 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -154,8 +154,8 @@ class _WeakKeyDictionaryItemIterator(DictionaryItemIteratorBase):
         except TypeError:
             return False
         
-        value = dict.get(self._parent, contains_key_reference)
-        if value is None:
+        value = dict.get(self._parent, contains_key_reference, ...)
+        if value is ...:
             return False
         
         return (value == contains_value)
-- 
2.43.0


From 05f092a7084aa76a55f0c166dc334a4ed1bb129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 145/158] fix: WeakItemDictionary.get removes the dead entry

---
 scarletio/utils/weak_item_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 388b97b..ed0bb4a 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -489,7 +489,7 @@ class WeakItemDictionary(dict):
             if self._iterating:
                 add_to_pending_removals(self, value_reference.key)
             else:
-                dict.__delitem__(self, key)
+                dict.__delitem__(self, key_reference)
         
         return default
     
-- 
2.43.0


From a79e6a0848b66b22e1580e0b91757d4bab04b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:38 +0000
Subject: [PATCH 146/158] fix: keys and values of WeakItemDictionary are of
 live entries

---
 scarletio/utils/weak_item_dictionary.py | 52 +++++++++++++++++++++----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index ed0bb4a..fbf72d4 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -1,10 +1,10 @@
 __all__ = ('WeakItemDictionary',)
 
-from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryValueIteratorBase
+from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
 from .weak_core import KeyedReferer, WeakReferer, add_to_pending_removals
-from .weak_key_dictionary import _WeakKeyDictionaryCallback, _WeakKeyDictionaryKeyIterator
+from .weak_key_dictionary import _WeakKeyDictionaryCallback
 
 
 @has_docs
@@ -60,6 +60,39 @@ class _WeakItemDictionaryValueCallback:
                 pass
 
 
+class _WeakItemDictionaryKeyIterator(DictionaryKeyIteratorBase):
+    __slots__ = ()
+    
+    @copy_docs(DictionaryKeyIteratorBase.__iter__)
+    def __iter__(self):
+        parent = self._parent
+        parent._iterating += 1
+        
+        try:
+            for key_reference, value_reference in dict.items(parent):
+                key = key_reference()
+                if (key is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
+                value = value_reference()
+                if (value is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
+                yield key
+                continue
+        
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
+    
+    
+    @copy_docs(DictionaryKeyIteratorBase.__contains__)
+    def __contains__(self, contains_key):
+        return (contains_key in self._parent)
+
+
 class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
     __slots__ = ()
     
@@ -69,10 +102,15 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
         parent._iterating += 1
         
         try:
-            for value_reference in dict.values(parent):
+            for key_reference, value_reference in dict.items(parent):
+                key = key_reference()
+                if (key is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
                 value = value_reference()
                 if (value is None):
-                    add_to_pending_removals(parent, value_reference.key)
+                    add_to_pending_removals(parent, key_reference)
                     continue
                 
                 yield value
@@ -319,7 +357,7 @@ class WeakItemDictionary(dict):
     @has_docs
     def __iter__(self):
         """Returns a ``_WeakItemDictionaryKeyIterator`` iterating over the weak item dictionary's keys."""
-        return iter(_WeakKeyDictionaryKeyIterator(self))
+        return iter(_WeakItemDictionaryKeyIterator(self))
     
     # __le__ -> same
     
@@ -513,9 +551,9 @@ class WeakItemDictionary(dict):
         
         Returns
         -------
-        key_iterator : ``_WeakKeyDictionaryKeyIterator``
+        key_iterator : ``_WeakItemDictionaryKeyIterator``
         """
-        return _WeakKeyDictionaryKeyIterator(self)
+        return _WeakItemDictionaryKeyIterator(self)
     
     
     @has_docs
-- 
2.43.0


From 43b791f1b2c467097d4f3ac44f949df0df648a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 147/158] fix: is_weakreferable recognises inherited slots

---
 scarletio/utils/weak_core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/weak_core.py b/scarletio/utils/weak_core.py
index 3d45a56..320908e 100755
--- a/scarletio/utils/weak_core.py
+++ b/scarletio/utils/weak_core.py
@@ -24,9 +24,10 @@ def is_weakreferable(object_):
     -------
     is_weakreferable : `bool`
     """
-    slots = getattr(type(object_), '__slots__', None)
-    if (slots is not None) and ('__weakref__' in slots):
-        return True
+    for type_ in type(object_).__mro__:
+        slots = type_.__dict__.get('__slots__', None)
+        if (slots is not None) and ('__weakref__' in slots):
+            return True
     
     if hasattr(object_, '__dict__'):
         return True
-- 
2.43.0


From 9ef6df3d340bf31faf39359ad2e529d6c85818dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:18 +0000
Subject: [PATCH 148/158] fix: WeakItemDictionary removes a dead value which
 was assigned with an equal key

---
 scarletio/utils/weak_item_dictionary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index fbf72d4..45bf24c 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -450,6 +450,11 @@ class WeakItemDictionary(dict):
     def __setitem__(self, key, value):
         """Adds the given `key` - `value` pair to the weak item dictionary."""
         key_reference = WeakReferer(key, self._key_callback)
+        value_reference = dict.get(self, key_reference, None)
+        if (value_reference is not None):
+            # An already present key is kept, so refer to that one.
+            key_reference = value_reference.key
+        
         value_reference = KeyedReferer(value, self._value_callback, key_reference)
         dict.__setitem__(self, key_reference, value_reference)
     
-- 
2.43.0


From e9b683622fe0cb89701544796ba8f5bd392a52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 149/158] fix: data received while a TLS connection is shut
 down does not break it

---
 scarletio/core/protocols_and_transports/ssl_pipe.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_pipe.py b/scarletio/core/protocols_and_transports/ssl_pipe.py
index b885875..0e2a7be 100755
--- a/scarletio/core/protocols_and_transports/ssl_pipe.py
+++ b/scarletio/core/protocols_and_transports/ssl_pipe.py
@@ -1,6 +1,9 @@
 __all__ = ()
 
-from ssl import CertificateError, MemoryBIO, SSLError, SSL_ERROR_SYSCALL, SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE
+from ssl import (
+    CertificateError, MemoryBIO, SSLError, SSLWantReadError, SSLZeroReturnError, SSL_ERROR_SYSCALL,
+    SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE
+)
 
 
 SSL_PIPE_STATE_UNWRAPPED = 0
@@ -274,6 +277,13 @@ class SSLPipe:
                         break
             
             elif state == SSL_PIPE_STATE_SHUTDOWN:
+                # The peer may send data till it gets our close_notify, drop it.
+                try:
+                    while self._ssl_object.read(MAX_SIZE):
+                        pass
+                except (SSLWantReadError, SSLZeroReturnError):
+                    pass
+                
                 # Call shutdown() until it doesn't raise anymore.
                 self._ssl_object.unwrap()
                 self._ssl_object = None
-- 
2.43.0


From 26b004cd59dce28f6b460b08720b666047e2a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 150/158] fix: TLS transports answer a closing alert

---
 .../core/protocols_and_transports/ssl_transport_layer.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 87cba2a..519ecdf 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -390,6 +390,11 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
         """
         transport = self._transport
         if (transport is not None):
+            # Nothing can be written after `.close`, so the answer to the `close_notify` has to be written before.
+            outgoing = self._ssl_pipe._outgoing
+            if outgoing.pending:
+                transport.write(outgoing.read())
+            
             transport.close()
     
     
-- 
2.43.0


From f44748475aed2640e111be155cf6e8fc9027b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:55 +0000
Subject: [PATCH 151/158] fix: a TLS transport may be closed from connection
 made

---
 scarletio/core/protocols_and_transports/ssl_pipe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/core/protocols_and_transports/ssl_pipe.py b/scarletio/core/protocols_and_transports/ssl_pipe.py
index 0e2a7be..b674ba6 100755
--- a/scarletio/core/protocols_and_transports/ssl_pipe.py
+++ b/scarletio/core/protocols_and_transports/ssl_pipe.py
@@ -266,6 +266,9 @@ class SSLPipe:
                 
                 if only_handshake:
                     return ssl_data, application_data
+                
+                # The callback might have shut us down.
+                state = self._state
                 # Handshake done: execute the wrapped block
             
             if state == SSL_PIPE_STATE_WRAPPED:
-- 
2.43.0


From 23ff6f554692724d7a14e06aec0627fdefe59aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:48 +0000
Subject: [PATCH 152/158] fix: data written into a closed TLS transport is not
 sent unencrypted

---
 scarletio/core/protocols_and_transports/ssl_transport_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 519ecdf..a1ae708 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -444,7 +444,8 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
                 f'`data` can be `bytes-like`, got {type(data).__name__}; {reprlib.repr(data)}.'
             )
         
-        if data:
+        # After closing it would not be encrypted anymore.
+        if data and (not self._closing):
             self._write_application_data(data)
     
     
-- 
2.43.0


From dd0e8e96450af60d0def04ce7c3d8d4f272be31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:44 +0000
Subject: [PATCH 153/158] fix: a TLS transport of which reading is paused can
 be closed

---
 .../core/protocols_and_transports/ssl_transport_layer.py   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index a1ae708..8af9e66 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -425,6 +425,11 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
         if not self._closing:
             self._closing = True
             self._write_application_data(b'')
+            
+            # The shut down ends when the peer's `close_notify` is received.
+            transport = self._transport
+            if (transport is not None):
+                transport.resume_reading()
     
     
     @copy_docs(TransportLayerBase.abort)
@@ -462,7 +467,7 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
     @copy_docs(TransportLayerBase.pause_reading)
     def pause_reading(self):
         transport = self._transport
-        if transport is None:
+        if (transport is None) or self._closing:
             return False
         
         return transport.pause_reading()
-- 
2.43.0


From 99a6c5356e125c1d69bb6508a09387b34f9d530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 154/158] fix: HybridValueDictionary.pop returns the default of
 missing keys

---
 scarletio/utils/hybrid_value_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 1283510..49c6808 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -532,7 +532,7 @@ class HybridValueDictionary(dict):
         """
         value_pair = dict.pop(self, key, ...)
         
-        if (value_pair is not default):
+        if (value_pair is not ...):
             value_weakreferable, value_or_reference = value_pair
             
             if (not value_weakreferable):
-- 
2.43.0


From ffc7a08243ea0224c832a0ea302132af0c5f9778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 155/158] fix: HybridValueDictionary removes its dead entries
 after an iteration

---
 scarletio/utils/hybrid_value_dictionary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 49c6808..e99ec94 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -193,7 +193,8 @@ class HybridValueDictionary(dict):
             if (not value_weakreferable):
                 continue
             
-            if (value_or_reference is not value_reference):
+            # `value_reference` might be wrapped into a `WeakHasher`.
+            if (value_or_reference != value_reference):
                 continue
             
             try:
-- 
2.43.0


From 3612bb34ba9303e2239651eae071c0f863e6405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 156/158] fix: length of HybridValueDictionary when entries
 pending to be removed were already removed

---
 scarletio/utils/hybrid_value_dictionary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index e99ec94..ec694f1 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -306,7 +306,9 @@ class HybridValueDictionary(dict):
         length = dict.__len__(self)
         pending_removals = self._pending_removals
         if (pending_removals is not None):
-            length -= len(pending_removals)
+            for value_reference in [*pending_removals]:
+                value_weakreferable, value_or_reference = dict.get(self, value_reference.key, (False, None))
+                length -= (value_weakreferable and (value_or_reference == value_reference))
         
         return length
     
-- 
2.43.0


From 318532e75c9c2547b01509f1a57e1254849c0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 157/158] fix: values of HybridValueDictionary may die while it
 is represented, compared or copied

---
 scarletio/utils/hybrid_value_dictionary.py | 47 +++-------------------
 1 file changed, 6 insertions(+), 41 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index ec694f1..a21e125 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -63,25 +63,11 @@ class _HybridValueDictionaryValueIterator(DictionaryValueIteratorBase):
     
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
-        parent = self._parent
-        for value_weakreferable, value_or_reference in dict.values(parent):
-            if value_weakreferable:
-                value = value_or_reference()
-                if value is None:
-                    add_to_pending_removals(parent, value_or_reference)
-                    continue
-            else:
-                value = value_or_reference
-            
+        for value in self:
             if value == contains_value:
-                result = True
-                break
-        else:
-            result = False
+                return True
         
-        parent._commit_removals()
-        
-        return result
+        return False
 
 
 class _HybridValueDictionaryItemIterator(DictionaryItemIteratorBase):
@@ -357,15 +343,7 @@ class HybridValueDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key, (value_weakreferable, value_or_reference) in dict.items(self):
-                if value_weakreferable:
-                    value = value_or_reference()
-                    if value is None:
-                        add_to_pending_removals(self, value_or_reference)
-                        continue
-                else:
-                    value = value_or_reference
-                
+            for key, value in self.items():
                 result.append(repr(key))
                 result.append(': ')
                 result.append(repr(value))
@@ -385,8 +363,6 @@ class HybridValueDictionary(dict):
                 break
             else:
                 result[-1] = '})'
-            
-            self._commit_removals()
         else:
             result.append('})')
         
@@ -435,19 +411,8 @@ class HybridValueDictionary(dict):
         callback = _WeakValueDictionaryCallback(new)
         new._callback = callback
         
-        for key, (value_weakreferable, value_or_reference) in dict.items(self):
-            if value_weakreferable:
-                value = value_or_reference()
-                if (value is None):
-                    add_to_pending_removals(self, value_or_reference)
-                    continue
-                
-                value_or_reference = KeyedReferer(value, callback, key)
-            
-            dict.__setitem__(new, key, (value_weakreferable, value_or_reference))
-            continue
-        
-        self._commit_removals()
+        for key, value in self.items():
+            new[key] = value
         
         return new
     
-- 
2.43.0


From d486c858a3404a085868cc217e6c16575541b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 158/158] fix: HybridValueDictionaries are compared by their
 live values

---
 scarletio/utils/hybrid_value_dictionary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index a21e125..29bc4aa 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -218,9 +218,9 @@ class HybridValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -304,9 +304,9 @@ class HybridValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
-- 
2.43.0

