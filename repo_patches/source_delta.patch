From 7683fb10da949db6fdf58a182408fdd94fe32fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 01/76] fix: do not report a continued child as killed with a
 core dump

---
 pieshell/signalio/signalutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..f1005fb 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,14 +68,14 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
-            elif os.WCOREDUMP(status):
-                res["ssi_code"] = CLD_DUMPED
-                res["ssi_status"] = os.WTERMSIG(status)
             elif os.WIFCONTINUED(status):
                 res["ssi_code"] = CLD_CONTINUED
             elif os.WIFSTOPPED(status):
                 res["ssi_code"] = CLD_STOPPED
                 res["ssi_status"] = os.WSTOPSIG(status)
+            elif os.WCOREDUMP(status):
+                res["ssi_code"] = CLD_DUMPED
+                res["ssi_status"] = os.WTERMSIG(status)
             elif os.WIFSIGNALED(status):
                 res["ssi_code"] = CLD_KILLED
                 res["ssi_status"] = os.WTERMSIG(status)
-- 
2.43.0


From cef0a42b7153b5ce3b336ebf025161f2f3033736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 02/76] fix: a command killed by a signal has ended

---
 pieshell/signalio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
-- 
2.43.0


From e568bcfdc3358a7c485f67334837590f6cd36dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 03/76] fix: notice the end of a pipeline whose last member to
 end is a failing function

---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..8420596 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,7 +194,10 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
+        try:
+            await self.iohandler.wait()
+        except Exception:
+            pass # Reported by is_failed
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From e4c7bbcbe6bce91426e4aa5ff925b5bf64bfeb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 04/76] fix: captured output that is not valid UTF-8 or has
 CRLF line endings

---
 pieshell/pipeline/running.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 8420596..e566215 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -212,7 +212,8 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            # It can contain any bytes...
+            with open(redirect.pipe.path, encoding="utf-8", errors="surrogateescape", newline="") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
@@ -288,6 +289,7 @@ class RunningProcess(RunningItem):
             res += "\n"
             for fd, value in self.output_content.items():
                 fd = redir.Redirect.names_to_fd.get(fd, fd)
+                value = value.encode("utf-8", "surrogateescape").decode("utf-8", "backslashreplace")
                 res += "%s content:\n%s\n" % (fd, value) 
         return res
     def _repr(self):
-- 
2.43.0


From 4eda6e36764f2fafc9a1a59a5eff539948adb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 05/76] fix: support several, possibly canceled, waiters for
 one pipeline

---
 pieshell/pipeline/running.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index e566215..d9c6b2d 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -91,8 +91,10 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
-                    await future
+                    # There can be several waiters, and each of them can be canceled
+                    if self.finish_future is None:
+                        self.finish_future = asyncio.get_event_loop().create_future()
+                    await asyncio.shield(self.finish_future)
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
-- 
2.43.0


From 9a834c61037cb8c845bcd0ff6651840839fe1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 06/76] fix: do not block the shell when writing more than fits
 into a pipe

---
 pieshell/iterio.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..bf1e11a 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -70,6 +70,7 @@ class OutputHandler(IOHandler):
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
         self.recursion_lock = False
+        self.buffer = b""
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
 
@@ -103,15 +104,26 @@ class OutputHandler(IOHandler):
             self.iter = self.iter.__aiter__()
         return self.iter
             
+    def write_buffer(self):
+        # Write only as much as never blocks, the rest is written on
+        # the following events.
+        poll = select.poll()
+        poll.register(self.fd, select.POLLOUT)
+        if self.buffer and poll.poll(0):
+            self.buffer = self.buffer[os.write(self.fd, self.buffer[:select.PIPE_BUF]):]
+
     async def send_output(self):
         if self.recursion_lock: return
         iter = self.get_iter()
         try:
             self.recursion_lock = True
-            val = await iter.__anext__()
+            val = None
+            if not self.buffer:
+                val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val)                
+                self.buffer = val
+            self.write_buffer()
         except StopAsyncIteration:
             self.destroy()
         except Exception as e:
@@ -130,10 +142,13 @@ class LineOutputHandler(OutputHandler):
         iter = self.get_iter()
         try:
             self.recursion_lock = True
-            val = await iter.__anext__()
+            val = None
+            if not self.buffer:
+                val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val + b"\n")
+                self.buffer = val + b"\n"
+            self.write_buffer()
             log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
-- 
2.43.0


From 9e7dd3f386600b79ba09c10c23bcb2fedd4bf9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 07/76] fix: let functions read from and write to files and
 devices that can not be polled

---
 pieshell/iterio.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index bf1e11a..e04fa25 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -41,10 +41,19 @@ class IOHandler(object):
         loop = asyncio.get_event_loop()
         def callback(event):
             self.handle_event(event)
-        if self.events & select.POLLIN:
-            loop.add_reader(self.fd, callback, select.POLLIN)
-        if self.events & select.POLLOUT:
-            loop.add_writer(self.fd, callback, select.POLLOUT)
+        def always_ready(event):
+            if not self.enabled: return
+            callback(event)
+            loop.call_soon(always_ready, event)
+        try:
+            if self.events & select.POLLIN:
+                loop.add_reader(self.fd, callback, select.POLLIN)
+            if self.events & select.POLLOUT:
+                loop.add_writer(self.fd, callback, select.POLLOUT)
+        except PermissionError:
+            # Regular files and some devices can not be polled, but
+            # they do not block either.
+            loop.call_soon(always_ready, self.events & (select.POLLIN | select.POLLOUT))
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
     def disable(self):
         self.enabled = False
-- 
2.43.0


From 99524d553adef9ca892d8e7b0b6e14bb8a5ac014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 08/76] fix: close the input of a function when the function is
 done

---
 pieshell/pipeline/function.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index e14921d..6ee4ff7 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -85,9 +85,10 @@ class Function(base.Pipeline):
 
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            thing = thing(
-                iterio.LineInputHandler(redirects.stdin.open(False), usage=self),
-                *self._arg, **self._kw)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            thing = thing(stdin, *self._arg, **self._kw)
+        else:
+            stdin = None
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
@@ -102,12 +103,14 @@ class Function(base.Pipeline):
             thing = itertoasync(thing)
         thing = convert(thing)
             
-        self._running_process = running.RunningFunction(
-            self,
-            iterio.LineOutputHandler(
-                redirects.stdout.open(False),
-                thing,
-                usage=self))
+        stdout = iterio.LineOutputHandler(
+            redirects.stdout.open(False),
+            thing,
+            usage=self)
+        if stdin is not None:
+            # The function might not have read all of its input
+            stdout.done_future.add_done_callback(lambda future: stdin.destroy())
+        self._running_process = running.RunningFunction(self, stdout)
         self._running_processes = [self._running_process]
         self._redirects = self._running_process.redirects = redirects
 
-- 
2.43.0


From e99239c708392e5ad5a0efe21f2913036eca93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 09/76] fix: redirects that share a source, and files opened
 under their target's number

---
 pieshell/redir.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..8e2592a 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -103,7 +103,9 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd: # A file opened under just the right number
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
@@ -113,8 +115,6 @@ class Redirect(object):
         if isinstance(self.source, int):
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
             self.source = fd
         return self
     def make_pipe(self):
@@ -200,6 +200,10 @@ class Redirects(object):
         for redirect in self.redirects.values():
             redirects.append(redirect.move(new_fd))
             new_fd += 1
+        # Only now, as several redirects can have the same source
+        for fd in set(redirect.source for redirect in self.redirects.values() if isinstance(redirect.source, int)):
+            log.log("move close(%s)" % (fd), "fd")
+            os.close(fd)
         log.log("After move: %s" % repr(Redirects(*redirects)), "fd")
         return redirects
     def perform(self):
-- 
2.43.0


From c61061654362c0cb990b79fe7ff55e855263b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 10/76] fix: do not run a command whose redirects could not be
 set up

---
 pieshell/redir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 8e2592a..3ebb54e 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -215,6 +215,7 @@ class Redirects(object):
             import traceback
             log.log(e, "fd")
             log.log(traceback.format_exc(), "fd")
+            raise
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From fac7101339aa78fa3d245becc8806b2082c6df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 11/76] fix: the members of a group write to the same pipe

---
 pieshell/pipeline/group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..3c1de55 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,10 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # All members share the same pipe
+        redirects = redir.Redirects(*[redirect.make_pipe() if redirect.source is redir.PIPE else redirect
+                                      for redirect in redirects.redirects.values()])
+
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
-- 
2.43.0


From d38af893712bd15aefee328bf761e01d3bb81fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 12/76] fix: accept async iterators in pipelines and as
 arguments

---
 pieshell/pipeline/base.py    | 1 +
 pieshell/pipeline/command.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..0eb26c5 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -97,6 +97,7 @@ class Pipeline(DescribableObject):
             thing = redir.Redirects(thing, defaults=False)
         if not isinstance(thing, Pipeline) and (isinstance(thing, (types.FunctionType, types.MethodType))
                                                 or hasattr(thing, "__iter__")
+                                                or hasattr(thing, "__aiter__")
                                                 or hasattr(thing, "__next__")):
             thing = function.Function(self._env, thing)
         if not isinstance(thing, (Pipeline, redir.Redirects)):
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..6a0b8a0 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -186,7 +186,7 @@ class Command(command.BaseCommand):
         elif isinstance(thing, (types.FunctionType, types.MethodType)):
             thing = function.Function(self._env, thing)
             direction = "stdin"
-        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__"):
+        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__") or hasattr(thing, "__aiter__"):
             thing = function.Function(self._env, thing)
             direction = "stdout"
         else:
-- 
2.43.0


From 9b552b5685dd4215670fb53d2a6ce2b3d186f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 13/76] fix: do not leak the log file descriptor to commands

---
 pieshell/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index c3cbb21..89a00df 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -30,6 +30,6 @@ elif hasattr(sys.stderr, "fileno"):
 else:
     outfd = 1
 logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1
-os.dup2(outfd, logfd)
+os.dup2(outfd, logfd, inheritable=False)
 def log(msg, category="misc"):
     logging.getLogger(category).error(msg)
-- 
2.43.0


From 2fae6da3b79e9fa844f29ec80fdebebf1ea0a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 14/76] fix: give a command an empty input when the output of
 the one before is redirected elsewhere

---
 pieshell/pipeline/pipe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 64afa7d..908c8ad 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -42,7 +42,10 @@ class Pipe(base.Pipeline):
 
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
         src = self.src._run(redir.Redirects(child_redirects).redirect("stdout", redir.PIPE), sess, indentation + "  ")
-        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", self.src._redirects.stdout.pipe), sess, indentation + "  ")
+        src_pipe = self.src._redirects.stdout.pipe
+        if not isinstance(src_pipe, int): # The source has its output redirected somewhere else
+            src_pipe = "/dev/null"
+        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", src_pipe), sess, indentation + "  ")
 
         self._redirects = self.src._redirects.merge(self.dst._redirects)
         self._redirects.register(redir.Redirect(self.src._redirects.stdin))
-- 
2.43.0


From 675fd5972df7424bf4ee99cb65790cf9479201d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 15/76] fix: an environment without any exported variables does
 not use those of the process

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..ad1991b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,7 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        return self._exports_value if self._exports_value is not None else os.environ
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From 7bd2c4b8f8370a47004c28669b2c49115e7a5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 16/76] fix: do not list pipelines as running that already have
 ended

---
 pieshell/pipeline/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 0eb26c5..a06746b 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -151,7 +151,8 @@ class Pipeline(DescribableObject):
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
         self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if not pipeline.finished:
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From ad67acb8fcc01d51110341e80e41d03e2f278a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 17/76] fix: never return from a forked child into the program

---
 pieshell/pipeline/command.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 6a0b8a0..08b7cd1 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -227,10 +227,11 @@ class Command(command.BaseCommand):
             try:
                 self._child(redirects, args)
             except Exception as e:
+                ecode = getattr(e, "errno", None) or ecode
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-                ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+            finally:
+                # If we ever get to here, all is lost...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From f827d50ed6ebb5e1198e3457cf0aec17d5763e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 18/76] fix: end a subshell without running the caller's
 handlers, and with the right status

---
 pieshell/pipeline/builtins.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..80818f0 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -179,19 +179,28 @@ class SubShell(command.Command, builtin.Builtin):
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
         return item
                        
+    def _run(self, redirects, sess, indentation = ""):
+        sys.stdout.flush() # Or the child would write this, too
+        return command.Command._run(self, redirects, sess, indentation)
+
     def _child(self, redirects, args):
         redirects.perform()
         os.chdir(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
+        ecode = 0
         try:
             self._arg[1].run_interactive()
         except Exception as e:
-            sys.stderr.write(str(e))
+            ecode = 1
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
-            sys.exit(1)
-        sys.exit(0)
+                # It can be another process than the last that failed
+                ecode = e.pipeline.exit_code or ecode
+            sys.stderr.write(str(e))
+            sys.stderr.flush()
+        sys.stdout.flush()
+        # Not sys.exit(), as that would run handlers of our caller
+        os._exit(ecode)
 
 class Remote(builtin.Builtin):
     name = "remote"
-- 
2.43.0


From 72625ee687eeb2ca8ab42b0b3482ed503ce77769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 19/76] fix: file names in redirects are relative to the
 environment's directory

---
 pieshell/pipeline/builtins.py | 2 +-
 pieshell/pipeline/command.py  | 2 +-
 pieshell/pipeline/function.py | 4 ++--
 pieshell/redir.py             | 4 +++-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 80818f0..0a9f62e 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -184,8 +184,8 @@ class SubShell(command.Command, builtin.Builtin):
         return command.Command._run(self, redirects, sess, indentation)
 
     def _child(self, redirects, args):
+        os.chdir(self._env._cwd) # Redirects are relative to this
         redirects.perform()
-        os.chdir(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
         ecode = 0
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 08b7cd1..e9a9a27 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -173,8 +173,8 @@ class Command(command.BaseCommand):
     find). """
 
     def _child(self, redirects, args):
+        os.chdir(self._env._cwd) # Redirects are relative to this
         redirects.perform()
-        os.chdir(self._env._cwd)
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 6ee4ff7..1a62384 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -85,7 +85,7 @@ class Function(base.Pipeline):
 
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
             thing = thing(stdin, *self._arg, **self._kw)
         else:
             stdin = None
@@ -104,7 +104,7 @@ class Function(base.Pipeline):
         thing = convert(thing)
             
         stdout = iterio.LineOutputHandler(
-            redirects.stdout.open(False),
+            redirects.stdout.open(False, self._env._cwd),
             thing,
             usage=self)
         if stdin is not None:
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 3ebb54e..9f83c9c 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -86,9 +86,11 @@ class Redirect(object):
     def __deepcopy__(self, memo = {}):
         return type(self)(self.fd, copy.deepcopy(self.source), self.flag, self.mode, self.pipe, self.borrowed)
 
-    def open(self, borrow = True):
+    def open(self, borrow = True, cwd = None):
         source = self.source
         if not isinstance(source, int):
+            if cwd is not None:
+                source = os.path.join(cwd, os.fsdecode(source))
             log.log("Opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
             source = os.open(source, self.flag, self.mode)
             log.log("Done opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
-- 
2.43.0


From 3b92a190de66b159d84b8be234a1cae6d1993560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 20/76] fix: do not send signals to the pid of a process that
 has ended

---
 pieshell/pipeline/running.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index d9c6b2d..0289dd0 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -267,11 +267,13 @@ class RunningProcess(RunningItem):
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
     def restart(self):
+        if not self.is_running: return # The pid can be that of another process by now
         try:
             os.kill(self.iohandler.pid, signal.SIGCONT)
         except ProcessLookupError:
             pass
     def suspend(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGSTOP)
         except ProcessLookupError:
-- 
2.43.0


From 24366479f673c22f73b8d47029afc723614b65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 21/76] fix: a running process has not failed and has no exit
 code

---
 pieshell/pipeline/running.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 0289dd0..c36e79b 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -142,6 +142,7 @@ class RunningPipeline(object):
         return not not self.failed_processes
     @property
     def exit_code(self):
+        if not self.processes: return 0
         return self.processes[-1].exit_code
 
     @property
@@ -283,9 +284,10 @@ class RunningProcess(RunningItem):
         return self.iohandler.pid
     @property
     def is_failed(self):
-        return self.exit_code != 0
+        return not self.is_running and self.exit_code != 0
     @property
     def exit_code(self):
+        if self.is_running: return None
         return self.iohandler.last_event["ssi_status"]
     def __repr__(self, display_output=False):
         res = repr(self.cmd)
-- 
2.43.0


From 3447d2e2ed517302ac36474e905ca20697998cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 22/76] fix: raise PipelineInterrupted on Ctrl-C and do not
 leave the interrupted wait behind

---
 pieshell/pipeline/base.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index a06746b..208b4d8 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -161,7 +161,22 @@ class Pipeline(DescribableObject):
         return pipeline
     
     def run_interactive(self):
-        return asyncio.get_event_loop().run_until_complete(self.async_run_interactive())
+        loop = asyncio.get_event_loop()
+        pipelines = []
+        async def run_and_wait():
+            pipelines.append(self.run())
+            await pipelines[0].wait()
+            return pipelines[0]
+        task = loop.create_task(run_and_wait())
+        try:
+            return loop.run_until_complete(task)
+        except KeyboardInterrupt:
+            if not task.done():
+                # Do not leave the task waiting in the background
+                task.cancel()
+                loop.run_until_complete(asyncio.wait([task]))
+            if not pipelines: raise
+            raise running.PipelineInterrupted(pipelines[0])
         
     def __pos__(self):
         return self.run_interactive()
-- 
2.43.0


From 0ac0314271f78b82f8974ae8b109e8caa75f7ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 23/76] fix: waiting for one pipeline does not make another one
 unstoppable

---
 pieshell/pipeline/running.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index c36e79b..6f2602a 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -85,6 +85,7 @@ class RunningPipeline(object):
         for process in self.processes:
             process.suspend()
     async def wait(self):
+        previous_pipeline = stop_signal_handler.current_pipeline
         try:
             if self.pipeline._env._interactive:
                 stop_signal_handler.current_pipeline = self
@@ -103,7 +104,11 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if stop_signal_handler.current_pipeline is self:
+                # There can be other pipelines being waited for
+                if previous_pipeline is not None and not previous_pipeline.is_running:
+                    previous_pipeline = None
+                stop_signal_handler.current_pipeline = previous_pipeline
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From 6c29d0627a9975f0b0fe1d31a94c4bab13c38868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 24/76] fix: a function that was interrupted has ended

---
 pieshell/iterio.py           | 6 ++++--
 pieshell/pipeline/running.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index e04fa25..61d17e0 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -135,8 +135,9 @@ class OutputHandler(IOHandler):
             self.write_buffer()
         except StopAsyncIteration:
             self.destroy()
-        except Exception as e:
+        except BaseException as e:
             self.destroy(e)
+            if not isinstance(e, Exception): raise
 
     def _repr_args(self):
         args = IOHandler._repr_args(self)
@@ -162,8 +163,9 @@ class LineOutputHandler(OutputHandler):
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
-        except Exception as e:
+        except BaseException as e:
             self.destroy(e)
+            if not isinstance(e, Exception): raise
 
 class InputHandler(IOHandler):
     events = select.POLLIN | select.POLLHUP | select.POLLERR
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 6f2602a..7ad75ee 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -204,8 +204,9 @@ class RunningItem(BaseRunningItem):
     async def await_finish(self):
         try:
             await self.iohandler.wait()
-        except Exception:
-            pass # Reported by is_failed
+        except BaseException as e:
+            if e is not self.iohandler.exception: raise
+            # Reported by is_failed
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From 02a34c6aae3fe3b171a62a438c5ea1aed6c65875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 25/76] fix: fg notices failures and can be suspended and
 resumed again

---
 pieshell/pipeline/builtins.py | 21 +++++++++++++++++++--
 pieshell/pipeline/running.py  | 15 +++++++++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 0a9f62e..c3dd93a 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -64,15 +64,32 @@ class RunnningFg(running.BaseRunningItem):
     @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
+    @property
+    def exit_code(self):
+        return self.wrapped_pipeline.exit_code
+    def restart(self):
+        self.wrapped_pipeline.restart()
+    def suspend(self):
+        self.wrapped_pipeline.suspend()
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
+        await self.wrapped_pipeline.wait_finish()
         self.running_pipeline.handle_finish()
-    
+    def __repr__(self, display_output=False):
+        return "\n\n".join(proc.__repr__(display_output=display_output)
+                           for proc in self.wrapped_pipeline.failed_processes)
+
 class FgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
     """
     name = "fg"
 
+    def run(self, redirects = []):
+        pipeline = self._env.last_pipeline
+        try:
+            return builtin.Builtin.run(self, redirects)
+        finally:
+            self._env.last_pipeline = pipeline
+
     def _run(self, redirects, sess, indentation = ""):
         pipeline = self._env.last_pipeline
         if len(self._arg) > 1:
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 7ad75ee..4a06469 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -92,10 +92,7 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    # There can be several waiters, and each of them can be canceled
-                    if self.finish_future is None:
-                        self.finish_future = asyncio.get_event_loop().create_future()
-                    await asyncio.shield(self.finish_future)
+                    await self.wait_change()
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
@@ -109,6 +106,16 @@ class RunningPipeline(object):
                 if previous_pipeline is not None and not previous_pipeline.is_running:
                     previous_pipeline = None
                 stop_signal_handler.current_pipeline = previous_pipeline
+    async def wait_change(self):
+        # There can be several waiters, and each of them can be canceled
+        if self.finish_future is None:
+            self.finish_future = asyncio.get_event_loop().create_future()
+        await asyncio.shield(self.finish_future)
+    async def wait_finish(self):
+        """Waits for all processes to end, whether the pipeline is in
+        the foreground or not, and is suspended in between or not."""
+        while self.is_running:
+            await self.wait_change()
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From d83eeb87151dcc95075af87707bb1f11616fb6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 26/76] fix: builtins do not replace the last pipeline that bg
 and fg work on

---
 pieshell/pipeline/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 208b4d8..5b358e5 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -150,7 +150,8 @@ class Pipeline(DescribableObject):
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
-        self._env.last_pipeline = pipeline
+        if processes: # Not for e.g. cd or bg
+            self._env.last_pipeline = pipeline
         if not pipeline.finished:
             self._env.running_pipelines.append(pipeline)
         return pipeline
-- 
2.43.0


From e1982006ffa9497b0c40be00320476b7310b27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 27/76] fix: pickle pipelines of environments that have run
 pipelines before

---
 pieshell/environ.py          | 5 ++++-
 pieshell/pipeline/command.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index ad1991b..471b882 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -59,6 +59,7 @@ class Environment(object):
         self._redirects = redirects
         self._clear_dir_cache()
         self.running_pipelines = utils.LineList()
+        self.last_pipeline = None
     @property
     def _exports(self):
         return self._exports_value if self._exports_value is not None else os.environ
@@ -191,7 +192,9 @@ class Environment(object):
     def __getstate__(self):
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            # Running pipelines can not be moved to another process
+            if k == "last_pipeline": return None
+            if k == "running_pipelines": return utils.LineList()
             return v
         return {k: mangle(k, v) for k, v in self.__dict__.items()}
 
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index e9a9a27..72152dc 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -40,6 +40,8 @@ class BaseCommand(base.Pipeline):
     subclasses that specialcases this handling with the
     BuiltinRegistry.
     """
+    _running_process = None # Not pickled
+
     def __new__(cls, env = None, arg = None):
         from . import builtin
         if cls is BaseCommand:
-- 
2.43.0


From e7ae410ac3912413dd742b5c7b85108fe40c530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 28/76] fix: make clear_dir_cache clear the cache

---
 pieshell/pipeline/builtins.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index c3dd93a..4d5f036 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -102,19 +102,11 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
-        self.env._clear_dir_cache()
+        self._env._clear_dir_cache()
         return []
 
     def __dir__(self):
-        if self._arg[1:]:
-            pth = self.env._expand_path(self._path)
-        else:
-            pth = "."
-        try:
-            return [name for name in os.listdir(pth)
-                    if os.path.isdir(os.path.join(pth, name))]
-        except:
-            return []
+        return []
 
 def parse_declares(data):
     l = shlex.shlex(io.StringIO(data), posix=True)
-- 
2.43.0


From 3c8f0fe148a9331f20ec359d97dd2e36d69bf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 29/76] fix: completion of commands when parts of PATH do not
 exist

---
 pieshell/environ.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 471b882..ace8aeb 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -166,14 +166,18 @@ class Environment(object):
     def __dir__(self):
         if self._dir_cache is None:
             e = self._exports
-            self._dir_cache = []
-            paths = e["PATH"].split(":")
+            dir_cache = []
+            paths = e.get("PATH", os.defpath).split(":")
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-                self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
-            self._dir_cache.extend(pipeline.BuiltinRegistry.builtins.keys())
-            self._dir_cache.sort()
+                try:
+                    dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                except OSError:
+                    pass # Directories in PATH do not have to exist
+            dir_cache.extend(pipeline.BuiltinRegistry.builtins.keys())
+            dir_cache.sort()
+            self._dir_cache = dir_cache
         return self._dir_cache
     @contextlib.contextmanager
     def temporary_env(self, env):
-- 
2.43.0


From aa6984b880d02498c6917f20eca8a4b9cdd16f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 30/76] fix: deliver stop requests with the asyncio signal
 manager

---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..49cc730 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, self.handle_event, signo)
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From a3e81fd129944c0cebd3d75a5746d73e4fe2d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 31/76] fix: expand patterns in directories with pattern
 characters in their names

---
 pieshell/environ.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index ace8aeb..cc9915a 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -86,7 +86,8 @@ class Environment(object):
         arg = os.path.expanduser(arg)
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
-        res = glob.glob(self._expand_path(arg))
+        # The directory is a name, not a pattern
+        res = glob.glob(os.path.abspath(os.path.join(glob.escape(self._cwd), arg)))
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From 8d50e90de8e7fd656868636f6a8c458b516261df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 32/76] fix: assigning an exported variable that also is a
 local one

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index cc9915a..df2dcd1 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -216,8 +216,10 @@ class EnvScope(dict):
         if name == "env":
             value._scope = self
         env = dict.__getitem__(self, 'env')
-        if name in env._exports:
+        if name in env._exports and name != "env":
             env._exports[name] = value
+            # A variable set before it was exported would hide it
+            dict.pop(self, name, None)
         else:
             dict.__setitem__(self, name, value)
     def __getitem__(self, name):
-- 
2.43.0


From 4b0f7d81bc56dd53bc6f74e6492385e4b94cca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 33/76] fix: a failing cd does not change the directory of the
 environment

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index df2dcd1..d98c1a4 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -98,9 +98,11 @@ class Environment(object):
         cwd = self._expand_path(cwd)
         if not os.path.exists(cwd):
             raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
+        if not os.path.isdir(cwd):
+            raise NotADirectoryError("Path is not a directory: %s" % cwd)
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
-- 
2.43.0


From 20c685dee00682def03bb36a5e6f963038ff4ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 34/76] fix: set default redirects of environments to files

---
 pieshell/redir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 9f83c9c..b3e9502 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -6,6 +6,7 @@ import tempfile
 import uuid
 import code
 import threading
+import pathlib
 
 from .utils import pipe
 from . import log
@@ -243,7 +244,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes, pathlib.PurePath)):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From 266d929f2322bd9f9d5d71a334e1cec6e64a560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 35/76] fix: environments do not share their default redirects

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index d98c1a4..afc2fa8 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -123,7 +123,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
-- 
2.43.0


From c2d9f6ed7505c726edfbbb2938b93d82a402b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 36/76] fix: a function that fails at once does not leave the
 rest of the pipeline hanging

---
 pieshell/pipeline/function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 1a62384..b9452cd 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -83,10 +83,18 @@ class Function(base.Pipeline):
             else:
                 return str(x).encode("utf-8")
 
+        async def failed(exception):
+            # Only this function fails, the rest of the pipeline is run anyway
+            raise exception
+            yield
+
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
             stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
-            thing = thing(stdin, *self._arg, **self._kw)
+            try:
+                thing = thing(stdin, *self._arg, **self._kw)
+            except Exception as e:
+                thing = failed(e)
         else:
             stdin = None
 
-- 
2.43.0


From df1d227164e5285087f902c693bc61b2e94d8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 37/76] fix: keep the defaults of keyword only arguments of
 pyshfunctions

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index afc2fa8..0062a47 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -190,11 +190,13 @@ class Environment(object):
         finally:
             self._scope["env"] = self    
     def pyshfunction(self, fn):
-        return types.FunctionType(
+        res = types.FunctionType(
             fn.__code__, EnvScope(env=self, _parent_scope=fn.__globals__),
             name=fn.__name__,
             argdefs=fn.__defaults__,
             closure=fn.__closure__)
+        res.__kwdefaults__ = fn.__kwdefaults__
+        return res
 
     def __getstate__(self):
         def mangle(k, v):
-- 
2.43.0


From 3ec01e0b091159915aaa66c6f833ed86d350dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 38/76] fix: importing a pysh module that fails is an error

---
 pieshell/module.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index a41fe6a..cd4a91c 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -18,12 +18,22 @@ class Loader(object):
     def __init__(self, path):
         self.path = path
     def load_module(self, fullname):
-        if fullname not in sys.modules:
+        is_new = fullname not in sys.modules
+        if is_new:
             env = environ.envScope["env"]()
             scope = environ.EnvScope(env=env)
             sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
-        sys.modules[fullname]._scope.execute_file(self.path)
-        return sys.modules[fullname]
+        module = sys.modules[fullname]
+        try:
+            with open(self.path, encoding="utf-8") as f:
+                content = f.read()
+            exec(compile(content, self.path, "exec"), module._scope)
+        except BaseException:
+            # The import fails, so do not leave half a module behind
+            if is_new:
+                sys.modules.pop(fullname, None)
+            raise
+        return module
 
 class Finder(object):
     def find_module(self, fullname, path=None):
-- 
2.43.0


From efb4cd22d18f2146bca0c1034a5a67d6257259bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 39/76] fix: names of pysh modules, and submodules that do not
 exist

---
 pieshell/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index cd4a91c..26ca05e 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -8,6 +8,9 @@ class Module(types.ModuleType):
         types.ModuleType.__setattr__(self, "_scope", scope)
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
+        if name.startswith("__") and name.endswith("__") and not dict.__contains__(self._scope, name):
+            # Python looks for e.g. __path__, which is no command
+            raise AttributeError(name)
         return self._scope[name]
     def __setattr__(self, name, value):
         self._scope[name] = value
@@ -22,6 +25,8 @@ class Loader(object):
         if is_new:
             env = environ.envScope["env"]()
             scope = environ.EnvScope(env=env)
+            scope["__name__"] = fullname
+            scope["__file__"] = self.path
             sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
         module = sys.modules[fullname]
         try:
-- 
2.43.0


From bda0901c1ef4c5cb40bf8e361ade59995cdf23d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 40/76] fix: parse the variables and functions of bash exactly

---
 pieshell/pipeline/builtins.py | 80 +++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 4d5f036..cbd6b1b 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,7 +1,6 @@
 import os
 import os.path
-import shlex
-import io
+import re
 import asyncio
 import sys
 import base64
@@ -108,45 +107,52 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     def __dir__(self):
         return []
 
-def parse_declares(data):
-    l = shlex.shlex(io.StringIO(data), posix=True)
-
-    l.whitespace_split = True
+def parse_bash_word(data, pos):
+    """Parses a word the way bash quotes the values of variables: "..."
+    or $'...'. Returns the word and the position after it."""
+    escapes = {"a": b"\a", "b": b"\b", "e": b"\033", "E": b"\033", "f": b"\f",
+               "n": b"\n", "r": b"\r", "t": b"\t", "v": b"\v"}
+    res = b""
+    while pos < len(data) and data[pos] != "\n":
+        if data[pos] == '"':
+            chunk = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(data, pos)
+            res += re.sub(r'\\([$`"\\])', r"\1", chunk.group(1)).encode("utf-8", "surrogateescape")
+        elif data.startswith("$'", pos):
+            chunk = re.compile(r"\$'((?:[^'\\]|\\.)*)'", re.S).match(data, pos)
+            for escape, char in re.findall(r"\\([0-7]{1,3}|.)|([^\\]+)", chunk.group(1), re.S):
+                if char:
+                    res += char.encode("utf-8", "surrogateescape")
+                elif escape[0] in "01234567":
+                    res += bytes([int(escape, 8)])
+                else:
+                    res += escapes.get(escape, escape.encode("utf-8"))
+        else:
+            chunk = re.compile(r"\\?(.)").match(data, pos)
+            res += chunk.group(1).encode("utf-8", "surrogateescape")
+        pos = chunk.end()
+    return os.fsdecode(res), pos
 
-    lastlineno = 1
-    line = []
-    lines = []
+def parse_declares(data):
+    # All variables come before all functions
+    vars = {}
+    pos = 0
+    declare = re.compile(r"declare -[a-zA-Z]+ ([a-zA-Z_][a-zA-Z0-9_]*)(=?)")
     while True:
-        if l.lineno != lastlineno:
-            lines.append((lastlineno, line))
-            line = []
-        lastlineno = l.lineno
-        token = l.get_token()
-        if token is None:
-            break
-        line.append(token)
+        line = declare.match(data, pos)
+        if line is None: break
+        value, pos = "", line.end()
+        if line.group(2):
+            value, pos = parse_bash_word(data, pos)
+        vars[line.group(1)] = value
+        pos += 1 # Newline
 
-    vars = {}
-    funcstarts = []
-    for (lineno, line) in lines:
-        if line[0] == "declare":
-            name = line[2]
-            if "=" in name:
-                name, value = name.split("=", 1)
-            else:
-                value = ""
-            vars[name] = value
-        elif len(line) == 3 and line[1] == '()' and line[2] == '{':
-            funcstarts.append((lineno, line[0]))
-
-    lines = data.split("\n")
     funcs = {}
-    for i in range(len(funcstarts)):
-        if i >= len(funcstarts) - 1:
-            flines = lines[funcstarts[i][0]-1:]
-        else:
-            flines = lines[funcstarts[i][0]-1:funcstarts[i+1][0]-1]
-        funcs[funcstarts[i][1]] = "\n".join(flines)
+    funcstarts = list(re.compile(r"^(?:function )?(\S+) \(\) *\n\{ *$", re.M).finditer(data, pos))
+    for i, start in enumerate(funcstarts):
+        end = len(data)
+        if i + 1 < len(funcstarts):
+            end = funcstarts[i + 1].start()
+        funcs[start.group(1)] = data[start.start():end]
 
     return vars, funcs
 
-- 
2.43.0


From 526bb0d3fe1c21c3302cc4e1af7f430219a75eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 41/76] fix: bashsource scripts with special characters in
 their names

---
 pieshell/pipeline/builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index cbd6b1b..48db54f 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,6 +1,7 @@
 import os
 import os.path
 import re
+import shlex
 import asyncio
 import sys
 import base64
@@ -167,11 +168,11 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source %s" % (shlex.quote(str(exp)),))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-            "; ".join(args),
+            environ.R("; ".join(args)),
             self.parse_decls)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
-- 
2.43.0


From 0342f90fd59b1f5e4ba2ad5c009bf5d39de1679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 42/76] fix: --log

---
 pieshell/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index 0b0763c..88957c6 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -5,6 +5,7 @@ import readline
 import atexit
 import pickle
 import base64
+import logging
 
 from . import environ
 from . import log
@@ -61,7 +62,7 @@ Where OPTIONS are any of
     else:
         if 'log' in kws:
             for name in kws['log'].split(','):
-                log.debug[name] = True
+                logging.getLogger(name).setLevel(logging.NOTSET + 1)
 
         with environ.envScope:
             environ.envScope["args"] = args
-- 
2.43.0


From 985814d185b2a92cb46b8e7bf0f227f02235551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 43/76] fix: execute files that are resources of packages

---
 pieshell/environ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0062a47..37e2ab9 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -272,6 +272,8 @@ class EnvScope(dict):
             f = open(filename)
         with f as f:
             content = f.read()
+        if isinstance(content, bytes):
+            content = content.decode("utf-8")
         code.InteractiveConsole(locals=self).runsource(content, filename, "exec")
 
     def execute_expr(self, expr):
-- 
2.43.0


From dded931ef0c21deb09daf3279484ab6ffe692530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 44/76] fix: start with an unusable home directory or
 configuration

---
 pieshell/environ.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 37e2ab9..95766e1 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -313,11 +313,14 @@ class EnvScope(dict):
         try:
             if not os.path.exists(conf):
                 self._copy_resource(conf_resource, conf)
-        except PermissionError:
+        except OSError:
             self.execute_file(conf_resource)
         else:
             if os.path.exists(conf):
-                self.execute_file(conf)
+                try:
+                    self.execute_file(conf)
+                except (OSError, UnicodeDecodeError) as e:
+                    sys.stderr.write("Unable to read %s: %s\n" % (conf, e))
 
     def __enter__(self):
         self.ps1 = getattr(sys, "ps1", None)
-- 
2.43.0


From 401bfdd49bdb910e9b5c70f49a30f6f5856a05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 45/76] fix: report read errors to the reader instead of
 hanging

---
 pieshell/iterio.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 61d17e0..6dcddc0 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -175,11 +175,20 @@ class InputHandler(IOHandler):
         self.eof = False
         self.future = None
         self.at_eof = at_eof
+        self.error = None
         IOHandler.__init__(self, fd, borrowed, usage)
 
+    def read(self):
+        try:
+            return os.read(self.fd, 1024)
+        except OSError as e:
+            # E.g. a directory. Raised to the reader at the end.
+            self.error = e
+            return b""
+
     def handle_event(self, event):
         if self.buffer is None:
-            self.buffer = os.read(self.fd, 1024)
+            self.buffer = self.read()
             if not self.buffer:
                 self.eof = True
                 self.destroy()
@@ -193,6 +202,7 @@ class InputHandler(IOHandler):
     async def __anext__(self):
         if self.buffer is None:
             if self.eof:
+                if self.error is not None: raise self.error
                 if self.at_eof: await self.at_eof()
                 raise StopAsyncIteration
             future = self.future = asyncio.get_event_loop().create_future()
@@ -217,7 +227,7 @@ class LineInputHandler(InputHandler):
 
     def handle_event(self, event):
         if b'\n' not in self.buffer:
-            read_data = os.read(self.fd, 1024)
+            read_data = self.read()
             self.buffer += read_data
             if not read_data:
                 self.eof = True
@@ -235,6 +245,7 @@ class LineInputHandler(InputHandler):
             await future
         if not self.buffer:
             assert self.eof
+            if self.error is not None: raise self.error
             if self.at_eof: await self.at_eof()
             raise StopAsyncIteration
         if b'\n' not in self.buffer:
-- 
2.43.0


From 4d920e5dce6a63ec4f1ccb7b0d2a9db7d89b81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 46/76] fix: closing a descriptor that is not redirected

---
 pieshell/redir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index b3e9502..c79e156 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -178,7 +178,7 @@ class Redirects(object):
             if not isinstance(redirect, Redirect):
                 redirect = Redirect(redirect)
             if redirect.source is None:
-                del self.redirects[redirect.fd]
+                self.redirects.pop(redirect.fd, None)
             else:
                 self.redirects[redirect.fd] = redirect
         return self
-- 
2.43.0


From 0b6842ee43021e8ffb7f8adb4f6995707ea0ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 47/76] fix: jsonutils.filter

---
 pieshell/utils/jsonutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/utils/jsonutils.py b/pieshell/utils/jsonutils.py
index caf82e7..c29a6dc 100644
--- a/pieshell/utils/jsonutils.py
+++ b/pieshell/utils/jsonutils.py
@@ -17,7 +17,7 @@ def filter(func):
                 yield None
             elif func(item):
                 yield item
-    apply_map.__name__ = "filter(%s)" % (func.__name__,)
+    apply_filter.__name__ = "filter(%s)" % (func.__name__,)
     return apply_filter
 
 from_json = map(json.loads)
-- 
2.43.0


From f04205a1466d0611f2cc9b092bd9aa5836bb3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 48/76] fix: iterating over signals

---
 pieshell/signalio/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 507ff18..064d269 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -25,15 +25,16 @@ class SignalHandler(object):
     
 class SignalIteratorHandler(SignalHandler):
     def __init__(self, filter):
-        SignalHandler.__init__(self, filter)
         self.future = None
         self.buffer = []
+        SignalHandler.__init__(self, filter)
     def handle_event(self, event):
         self.buffer[0:0] = [event]
         if self.future is not None:
             self.future.set_result(None)
+            self.future = None
 
-    async def __aiter__(self):
+    def __aiter__(self):
         return self
     
     async def __anext__(self):
-- 
2.43.0


From cd1869dc979c4c86ee3e4c76c9ea8c837fac5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 49/76] fix: closing a descriptor with a redirect attached to a
 command

Redirecting a descriptor to None was forgotten when the redirect was merged with the others.
---
 pieshell/redir.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index c79e156..33e45f8 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -161,10 +161,13 @@ class Redirect(object):
 class Redirects(object):
     def __init__(self, *redirects, **kw):
         self.redirects = {}
+        self.closed = set() # Descriptors redirected to None
         for redirect in redirects:
             if isinstance(redirect, Redirects):
                 for item in redirect.redirects.values():
                     self.register(Redirect(item))
+                for fd in redirect.closed:
+                    self.register(Redirect(fd, None, 0))
             else:
                 self.register(Redirect(redirect))
     def borrow(self):
@@ -174,13 +177,17 @@ class Redirects(object):
         if isinstance(redirect, Redirects):
             for item in redirect.redirects.values():
                 self.register(item)
+            for fd in redirect.closed:
+                self.register(Redirect(fd, None, 0))
         else:
             if not isinstance(redirect, Redirect):
                 redirect = Redirect(redirect)
             if redirect.source is None:
                 self.redirects.pop(redirect.fd, None)
+                self.closed.add(redirect.fd)
             else:
                 self.redirects[redirect.fd] = redirect
+                self.closed.discard(redirect.fd)
         return self
     def redirect(self, *arg, **kw):
         self.register(Redirect(*arg, **kw))
@@ -253,4 +260,5 @@ class Redirects(object):
         return thing
     def __repr__(self):
         redirects = sorted(self.redirects.values(), key = lambda a: a.fd)
-        return ", ".join(repr(redirect) for redirect in redirects)
+        return ", ".join([repr(redirect) for redirect in redirects]
+                         + ["%s closed" % fd for fd in sorted(self.closed)])
-- 
2.43.0


From 034a63763d6246c49124fbaecca20ee6d1a6dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 50/76] fix: an interrupt just as a pipeline ends stopping the
 next one

---
 pieshell/pipeline/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 5b358e5..6dced4b 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -176,6 +176,11 @@ class Pipeline(DescribableObject):
                 # Do not leave the task waiting in the background
                 task.cancel()
                 loop.run_until_complete(asyncio.wait([task]))
+            else:
+                # The end of the task would stop the loop the next
+                # time it is run
+                loop.call_soon(loop.stop)
+                loop.run_forever()
             if not pipelines: raise
             raise running.PipelineInterrupted(pipelines[0])
         
-- 
2.43.0


From b4a6106b3fd6da542dc68f8291776f6f5ea05e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 51/76] fix: the shell blocking when others fill the pipe it
 writes to

---
 pieshell/iterio.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 6dcddc0..04693fa 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -1,5 +1,6 @@
 import os
 import select
+import stat
 import signal
 import errno
 from . import log
@@ -119,7 +120,26 @@ class OutputHandler(IOHandler):
         poll = select.poll()
         poll.register(self.fd, select.POLLOUT)
         if self.buffer and poll.poll(0):
-            self.buffer = self.buffer[os.write(self.fd, self.buffer[:select.PIPE_BUF]):]
+            self.buffer = self.buffer[self.write(self.buffer[:select.PIPE_BUF]):]
+
+    def write(self, data):
+        # Others can write to the same pipe, and fill it after the
+        # poll. Since O_NONBLOCK would affect them, too, if set for
+        # self.fd, the pipe has to be opened once more.
+        fd = None
+        if stat.S_ISFIFO(os.fstat(self.fd).st_mode):
+            try:
+                fd = os.open("/proc/self/fd/%s" % (self.fd,), os.O_WRONLY | os.O_NONBLOCK)
+            except OSError:
+                pass # E.g. when there are no readers
+        if fd is None:
+            return os.write(self.fd, data)
+        try:
+            return os.write(fd, data)
+        except BlockingIOError:
+            return 0
+        finally:
+            os.close(fd)
 
     async def send_output(self):
         if self.recursion_lock: return
-- 
2.43.0


From 3b33ffe6318a342a9ed13744e92352e0a09b3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 52/76] fix: the shell blocking when others empty the pipe it
 reads

---
 pieshell/iterio.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 04693fa..a2cb396 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -16,6 +16,24 @@ def events_to_str(events):
 
 
 
+def without_blocking(fd, flag, fn):
+    """Calls fn with a file descriptor equal to fd, except that it does
+    not block. As others can use the same pipe at the same time, a
+    poll is not enough to know if fd would block, and O_NONBLOCK would
+    affect them, too, if set for fd. So the pipe is opened once more."""
+    copy = None
+    if stat.S_ISFIFO(os.fstat(fd).st_mode):
+        try:
+            copy = os.open("/proc/self/fd/%s" % (fd,), flag | os.O_NONBLOCK)
+        except OSError:
+            pass # E.g. when there are no readers
+    if copy is None:
+        return fn(fd)
+    try:
+        return fn(copy)
+    finally:
+        os.close(copy)
+
 class IOHandler(object):
     events = 0
     def __init__(self, fd, borrowed = False, usage = None):
@@ -123,23 +141,10 @@ class OutputHandler(IOHandler):
             self.buffer = self.buffer[self.write(self.buffer[:select.PIPE_BUF]):]
 
     def write(self, data):
-        # Others can write to the same pipe, and fill it after the
-        # poll. Since O_NONBLOCK would affect them, too, if set for
-        # self.fd, the pipe has to be opened once more.
-        fd = None
-        if stat.S_ISFIFO(os.fstat(self.fd).st_mode):
-            try:
-                fd = os.open("/proc/self/fd/%s" % (self.fd,), os.O_WRONLY | os.O_NONBLOCK)
-            except OSError:
-                pass # E.g. when there are no readers
-        if fd is None:
-            return os.write(self.fd, data)
         try:
-            return os.write(fd, data)
+            return without_blocking(self.fd, os.O_WRONLY, lambda fd: os.write(fd, data))
         except BlockingIOError:
             return 0
-        finally:
-            os.close(fd)
 
     async def send_output(self):
         if self.recursion_lock: return
@@ -199,8 +204,11 @@ class InputHandler(IOHandler):
         IOHandler.__init__(self, fd, borrowed, usage)
 
     def read(self):
+        # None if there is nothing to read at the moment
         try:
-            return os.read(self.fd, 1024)
+            return without_blocking(self.fd, os.O_RDONLY, lambda fd: os.read(fd, 1024))
+        except BlockingIOError:
+            return None
         except OSError as e:
             # E.g. a directory. Raised to the reader at the end.
             self.error = e
@@ -208,7 +216,9 @@ class InputHandler(IOHandler):
 
     def handle_event(self, event):
         if self.buffer is None:
-            self.buffer = self.read()
+            read_data = self.read()
+            if read_data is None: return
+            self.buffer = read_data
             if not self.buffer:
                 self.eof = True
                 self.destroy()
@@ -248,6 +258,7 @@ class LineInputHandler(InputHandler):
     def handle_event(self, event):
         if b'\n' not in self.buffer:
             read_data = self.read()
+            if read_data is None: return
             self.buffer += read_data
             if not read_data:
                 self.eof = True
-- 
2.43.0


From 14d25195ffeeb2b3e543f027ea55551cf6729a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 53/76] fix: members of a pipeline overwriting each other's
 output in a file

---
 pieshell/pipeline/group.py |  1 +
 pieshell/pipeline/pipe.py  |  1 +
 pieshell/redir.py          | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 3c1de55..062df0d 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -39,6 +39,7 @@ class Group(base.Pipeline):
         # All members share the same pipe
         redirects = redir.Redirects(*[redirect.make_pipe() if redirect.source is redir.PIPE else redirect
                                       for redirect in redirects.redirects.values()])
+        redirects = redirects.share(self._env._cwd)
 
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 908c8ad..0712a38 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -37,6 +37,7 @@ class Pipe(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        redirects = redirects.share(self._env._cwd)
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 33e45f8..0b0783a 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -4,6 +4,7 @@ import types
 import sys
 import tempfile
 import uuid
+import stat
 import code
 import threading
 import pathlib
@@ -204,6 +205,24 @@ class Redirects(object):
     def make_pipes(self):
         return type(self)(*[redirect.make_pipe()
                             for redirect in self.redirects.values()])
+    def share(self, cwd):
+        """Opens the files to be written to, so that several commands
+        do not overwrite the output of each other."""
+        def share(redirect):
+            if isinstance(redirect.source, (int, type)) or not redirect.flag & (os.O_WRONLY | os.O_RDWR):
+                return redirect
+            try:
+                if stat.S_ISFIFO(os.stat(os.path.join(cwd, os.fsdecode(redirect.source))).st_mode):
+                    return redirect # Could block
+            except OSError:
+                pass
+            try:
+                source = redirect.open(cwd=cwd)
+            except OSError:
+                return redirect # The commands will fail
+            return Redirect(redirect.fd, source, redirect.flag, redirect.mode)
+        return type(self)(*[share(redirect) for redirect in self.redirects.values()],
+                          *[Redirect(fd, None, 0) for fd in self.closed])
     def move_existing_fds(self):
         new_fd = self.find_free_fd()
         redirects = []
-- 
2.43.0


From 1414e92d13848b46210ed27af42b2572d8d9843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 54/76] fix: variables of pysh modules and new scopes in
 argument expansion and temporary_env

---
 pieshell/environ.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 95766e1..aef3a73 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -213,6 +213,12 @@ class EnvScope(dict):
     """EnvScope can be used instead of a globals() dictionary to allow
     global lookup of command names, without the env.COMMAND
     prefixing."""
+    def __init__(self, *arg, **kw):
+        dict.__init__(self, *arg, **kw)
+        env = dict.get(self, 'env')
+        # The scope of a function is only one of those that use env
+        if env is not None and env._scope is None and not dict.__contains__(self, '_parent_scope'):
+            env._scope = self
     def __setitem__(self, name, value):
         # Hack for ptpython
         if name == "_":
-- 
2.43.0


From 9615000122628a738b1d2360cd9a8b7c10c3ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 55/76] fix: patterns ending with a slash match directories
 only

---
 pieshell/environ.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index aef3a73..6032d8d 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -87,12 +87,14 @@ class Environment(object):
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
         # The directory is a name, not a pattern
-        res = glob.glob(os.path.abspath(os.path.join(glob.escape(self._cwd), arg)))
+        res = glob.glob(os.path.join(glob.escape(self._cwd), arg))
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
                 if res[idx].startswith(self._cwd + "/"):
-                    res[idx] = "./" + res[idx][len(self._cwd + "/"):]
+                    res[idx] = res[idx][len(self._cwd + "/"):]
+                    if not res[idx].startswith("./"):
+                        res[idx] = "./" + res[idx]
         return res
     def _cd(self, cwd):
         cwd = self._expand_path(cwd)
-- 
2.43.0


From a09da241e2cb5c4accf3d2d0d631c75224c00d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 56/76] fix: bashsource of scripts that change IFS

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 48db54f..4bba73b 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -169,7 +169,7 @@ class BashSource(builtin.Builtin):
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
                 args.append("source %s" % (shlex.quote(str(exp)),))
-        args.append("{ declare -x; declare -f; } > $0")
+        args.append("{ declare -x; declare -f; } > \"$0\"")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
             environ.R("; ".join(args)),
-- 
2.43.0


From 6107b2cd6bbb3aa69ae59ed797a30b6626825a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 57/76] fix: the name of pysh modules in packages

---
 pieshell/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 26ca05e..7d53550 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -27,7 +27,7 @@ class Loader(object):
             scope = environ.EnvScope(env=env)
             scope["__name__"] = fullname
             scope["__file__"] = self.path
-            sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
+            sys.modules[fullname] = Module(scope, fullname)
         module = sys.modules[fullname]
         try:
             with open(self.path, encoding="utf-8") as f:
-- 
2.43.0


From 33c0d8880a744a12835aa52f24af0402e8f56516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 58/76] fix: annotated variables in pieshell scopes

---
 pieshell/environ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 6032d8d..833a8a8 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -252,6 +252,9 @@ class EnvScope(dict):
                 return parent[name]
             if hasattr(builtins, name):
                 return getattr(builtins, name)
+            if name.startswith("__") and name.endswith("__"):
+                # Python looks for e.g. __annotations__, which is no command
+                raise KeyError(name)
         return getattr(env, name)
 
     def keys(self):
-- 
2.43.0


From ff7837b17f812acc12d6fdeb96d4611a9f642d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 59/76] fix: from NAME import * with pysh modules

---
 pieshell/module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index 7d53550..61b4dc7 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -9,6 +9,9 @@ class Module(types.ModuleType):
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
         if name.startswith("__") and name.endswith("__") and not dict.__contains__(self._scope, name):
+            if name == "__all__":
+                # from NAME import *
+                return [key for key in dict.keys(self._scope) if key != "env" and not key.startswith("_")]
             # Python looks for e.g. __path__, which is no command
             raise AttributeError(name)
         return self._scope[name]
-- 
2.43.0


From bdd60f6c713177ff7f4f5eded50220a0412562dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 60/76] fix: importing pysh modules from relative directories

---
 pieshell/module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 61b4dc7..ad44053 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -60,6 +60,7 @@ class Finder(object):
                 break
         if found is None:
             return None
-        return Loader(found)
+        # The working directory can change before it is loaded
+        return Loader(os.path.abspath(found))
 
 sys.meta_path.append(Finder())
-- 
2.43.0


From 6164bc4c74c14a7be657f5d13f7bb1519dfc0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 61/76] fix: unpickle pipelines with arguments wrapped in R()

---
 pieshell/environ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 833a8a8..f0ce34b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -20,6 +20,9 @@ class R(object):
     def __init__(self, str):
         self.str = str
     def __getattr__(self, name):
+        if name == "str":
+            # Not set yet while unpickling
+            raise AttributeError(name)
         return getattr(self.str, name)
     def __iter__(self):
         return iter(self.str)
-- 
2.43.0


From 7035b62f803a5d71bbf57547451dbe2c2715b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 62/76] fix: list processes and members under names that are
 identifiers

Names that are empty once slugified, e.g. of kernel threads, and
keywords, e.g. of as or a lambda, could not be used as attributes.
---
 pieshell/tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pieshell/tree.py b/pieshell/tree.py
index d204a28..a207ee4 100644
--- a/pieshell/tree.py
+++ b/pieshell/tree.py
@@ -1,5 +1,6 @@
 import slugify
 import re
+import keyword
 
 class TreeGroup(object):
     def __init__(self, children, level=0):
@@ -9,6 +10,10 @@ class TreeGroup(object):
             key = slugify.slugify(key, separator="_")
             if re.match(r"^[0-9]", key):
                 key = "n" + key
+            elif not key:
+                key = "_"
+            elif keyword.iskeyword(key):
+                key = key + "_"
             if key not in procs: procs[key] = {}
             procs[key][child._getkey(None)] = child
         self.children = {}
-- 
2.43.0


From 978db52bfcb5925235acc346ba6b916783c62b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 63/76] fix: list processes and logins when some are zombies or
 have ended

A single one of them made listing or navigating to all others fail.
---
 pieshell/ps.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index b33a8c3..4c413d5 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -54,7 +54,7 @@ class PstreeProcess(object):
             key = getattr(self.INFO, attr)
             if attr != "pid":
                 key = key()
-        except psutil.AccessDenied:
+        except psutil.Error: # No access, a zombie, or just ended
             key = self._getkey(level+1)
             if attr == "exe" and isinstance(key, list):
                 key = key[0]
@@ -118,7 +118,7 @@ class PstreeLogin(object):
         if level == 0:
             return self.details.name
         elif level == 1:
-            return self.details.host
+            return self.details.host or ""
         return self.process._getkey(level - 2 if level is not None else None)
 
     def __repr__(self):
@@ -127,7 +127,13 @@ class PstreeLogin(object):
 class PstreeLogins(object):
     @property
     def _children(self):
-        return tree.TreeGroup([PstreeLogin(login) for login in psutil.users()])
+        logins = []
+        for login in psutil.users():
+            try:
+                logins.append(PstreeLogin(login))
+            except psutil.NoSuchProcess:
+                pass # Just logged out
+        return tree.TreeGroup(logins)
     def __dir__(self):
         return dir(self._children)
     def __getattr__(self, key):
-- 
2.43.0


From 83b957cb52fff1ed141d3614ad1f4e22593ced75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 64/76] fix: do not hide processes called children, nor
 children() of processes

The attribute of TreeGroup took precedence over both.
---
 pieshell/tree.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pieshell/tree.py b/pieshell/tree.py
index a207ee4..b14243a 100644
--- a/pieshell/tree.py
+++ b/pieshell/tree.py
@@ -16,15 +16,15 @@ class TreeGroup(object):
                 key = key + "_"
             if key not in procs: procs[key] = {}
             procs[key][child._getkey(None)] = child
-        self.children = {}
+        self._children = {}
         for key, value in procs.items():
             if len(value) == 1:
-                self.children[key] = next(iter(value.values()))
+                self._children[key] = next(iter(value.values()))
             else:
-                self.children[key] = TreeGroup(value.values(), level+1)        
+                self._children[key] = TreeGroup(value.values(), level+1)        
     def __dir__(self):
-        return self.children.keys()
+        return self._children.keys()
     def __getattr__(self, key):
-        if key not in self.children:
+        if key not in self._children:
             raise AttributeError(key)
-        return self.children[key]
+        return self._children[key]
-- 
2.43.0


From bdee2b2de3a2fbca46830d5e530730e450ad40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 65/76] fix: do not start commands with SIGCHLD and SIGTSTP
 blocked

With the signalfd backend they inherited the signal mask of the shell,
so that e.g. a shell script waiting for its background jobs never ended,
and that commands could not be stopped by SIGTSTP.
---
 pieshell/pipeline/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 72152dc..92358d9 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -21,6 +21,7 @@ from .. import iterio
 from .. import redir
 from .. import log
 from .. import environ
+from .. import signalio
 from . import running
 from . import base
 from . import command
@@ -177,6 +178,8 @@ class Command(command.BaseCommand):
     def _child(self, redirects, args):
         os.chdir(self._env._cwd) # Redirects are relative to this
         redirects.perform()
+        # Blocked for the signalfd of the shell only
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, signalio.manager.get_signal_manager().mask)
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
-- 
2.43.0


From 0f0508d075fb4c691260816cb36ee28919a0ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 66/76] fix: do not start commands with SIGPIPE ignored

Python ignores it for itself. Commands that rely on it, e.g. a loop in
a shell script that writes to head, went on forever.
---
 pieshell/pipeline/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 92358d9..bb7659d 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -180,6 +180,9 @@ class Command(command.BaseCommand):
         redirects.perform()
         # Blocked for the signalfd of the shell only
         signal.pthread_sigmask(signal.SIG_UNBLOCK, signalio.manager.get_signal_manager().mask)
+        # Ignored by python, but is what ends many commands once
+        # nobody reads their output
+        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
-- 
2.43.0


From 04501f63ce0391fb05c6f73701163f488860272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 67/76] fix: do not run signal handlers of the shell in its
 children

---
 pieshell/pipeline/builtins.py |  4 +++-
 pieshell/pipeline/command.py  | 43 +++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 4bba73b..08ecac5 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -2,6 +2,7 @@ import os
 import os.path
 import re
 import shlex
+import signal
 import asyncio
 import sys
 import base64
@@ -199,11 +200,12 @@ class SubShell(command.Command, builtin.Builtin):
         sys.stdout.flush() # Or the child would write this, too
         return command.Command._run(self, redirects, sess, indentation)
 
-    def _child(self, redirects, args):
+    def _child(self, redirects, args, sigmask):
         os.chdir(self._env._cwd) # Redirects are relative to this
         redirects.perform()
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
+        signal.pthread_sigmask(signal.SIG_SETMASK, sigmask)
         ecode = 0
         try:
             self._arg[1].run_interactive()
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index bb7659d..bfbcb3b 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -175,16 +175,25 @@ class Command(command.BaseCommand):
     programs, as some expect "--key value", or even "-key=value" (e.g.
     find). """
 
-    def _child(self, redirects, args):
+    def _child(self, redirects, args, sigmask):
         os.chdir(self._env._cwd) # Redirects are relative to this
         redirects.perform()
-        # Blocked for the signalfd of the shell only
-        signal.pthread_sigmask(signal.SIG_UNBLOCK, signalio.manager.get_signal_manager().mask)
         # Ignored by python, but is what ends many commands once
         # nobody reads their output
         signal.signal(signal.SIGPIPE, signal.SIG_DFL)
+        # Some signals are blocked for the signalfd of the shell only
+        signal.pthread_sigmask(
+            signal.SIG_SETMASK,
+            sigmask - set(signalio.manager.get_signal_manager().mask))
         os.execvpe(args[0], args, self._env._exports)
 
+    def _reset_signal_handlers(self):
+        """Handlers written in python belong to the shell, and must
+        not be run in its children."""
+        for signo in signal.valid_signals():
+            if callable(signal.getsignal(signo)):
+                signal.signal(signo, signal.SIG_DFL)
+
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
         from . import function
         if isinstance(thing, str):
@@ -229,17 +238,23 @@ class Command(command.BaseCommand):
         args = self._arg_list(redirects, sess, indentation)
         log.log(indentation + "222Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
-        pid = os.fork()
-        if pid == 0:
-            ecode = -1
-            try:
-                self._child(redirects, args)
-            except Exception as e:
-                ecode = getattr(e, "errno", None) or ecode
-                sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-            finally:
-                # If we ever get to here, all is lost...
-                os._exit(ecode)
+        # A signal must not run any handlers in the child
+        sigmask = signal.pthread_sigmask(signal.SIG_BLOCK, signal.valid_signals())
+        try:
+            pid = os.fork()
+            if pid == 0:
+                ecode = -1
+                try:
+                    self._reset_signal_handlers()
+                    self._child(redirects, args, sigmask)
+                except Exception as e:
+                    ecode = getattr(e, "errno", None) or ecode
+                    sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
+                finally:
+                    # If we ever get to here, all is lost...
+                    os._exit(ecode)
+        finally:
+            signal.pthread_sigmask(signal.SIG_SETMASK, sigmask)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From b3871a9f1e8efdb01c36bfe01623fe171773f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 68/76] fix: several signal handlers with the same filter

---
 pieshell/signalio/manager_asyncio.py  | 8 ++++++--
 pieshell/signalio/manager_signalfd.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 49cc730..a85019e 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -18,15 +18,19 @@ class SignalManager(object):
         key = sorted(flt.items(), key=lambda item: item[0])
         return tuple(key)
 
+    def handler_to_key(self, signal_handler):
+        # There can be several handlers with the same filter
+        return self.filter_to_key(signal_handler.filter), id(signal_handler)
+
     def register(self, signal_handler):
         flt = signal_handler.filter.items()
 
-        key = self.filter_to_key(signal_handler.filter)
+        key = self.handler_to_key(signal_handler)
         self.signal_handlers[key] = signal_handler
         log.log("REGISTER %s, %s" % (key, signal_handler), "signalreg")
 
     def deregister(self, signal_handler):
-        key = self.filter_to_key(signal_handler.filter)
+        key = self.handler_to_key(signal_handler)
         del self.signal_handlers[key]
         log.log("DEREGISTER %s, %s" % (key, signal_handler), "signalreg")
 
diff --git a/pieshell/signalio/manager_signalfd.py b/pieshell/signalio/manager_signalfd.py
index c2b7bb1..5bd7e0d 100644
--- a/pieshell/signalio/manager_signalfd.py
+++ b/pieshell/signalio/manager_signalfd.py
@@ -23,15 +23,19 @@ class SignalManager(IOHandler):
         key = sorted(flt.items(), key=lambda item: item[0])
         return tuple(key)
 
+    def handler_to_key(self, signal_handler):
+        # There can be several handlers with the same filter
+        return self.filter_to_key(signal_handler.filter), id(signal_handler)
+
     def register(self, signal_handler):
         flt = signal_handler.filter.items()
 
-        key = self.filter_to_key(signal_handler.filter)
+        key = self.handler_to_key(signal_handler)
         self.signal_handlers[key] = signal_handler
         log.log("REGISTER %s, %s" % (key, signal_handler), "signalreg")
 
     def deregister(self, signal_handler):
-        key = self.filter_to_key(signal_handler.filter)
+        key = self.handler_to_key(signal_handler)
         del self.signal_handlers[key]
         log.log("DEREGISTER %s, %s" % (key, signal_handler), "signalreg")
 
-- 
2.43.0


From 07d7e097add43782e50e0c053133cc4adedabc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 69/76] fix: signals sent by a process mistaken for changes of
 its state

---
 pieshell/signalio/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 064d269..2718b9d 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -1,4 +1,5 @@
 import os
+import signal
 from .. import log
 import asyncio
 from .signalutils import *
@@ -48,7 +49,8 @@ class ProcessSignalHandler(SignalHandler):
         self.last_event = None
         self.done_future = asyncio.get_event_loop().create_future()
         self.pid = pid
-        SignalHandler.__init__(self, {"ssi_pid": pid})
+        # Signals sent by the process have its pid, too
+        SignalHandler.__init__(self, {"ssi_pid": pid, "ssi_signo": signal.SIGCHLD})
 
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
-- 
2.43.0


From 6a7d6dce12503e46a23b8f96b8ea06fe806846b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 70/76] fix: completing the name of a command ran the command

---
 pieshell/jedi_completion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/jedi_completion.py b/pieshell/jedi_completion.py
index b3ec49b..4244f37 100644
--- a/pieshell/jedi_completion.py
+++ b/pieshell/jedi_completion.py
@@ -2,6 +2,7 @@ import os
 import sys
 import jedi
 
+from .pipeline import base
 
 def setup_readline(scopes, **kw):
     class JediRL:
@@ -9,6 +10,8 @@ def setup_readline(scopes, **kw):
             if state == 0:
                 sys.path.insert(0, os.getcwd())
                 # Calling python doesn't have a path, so add to sys.path.
+                # Displaying a pipeline runs it, and jedi displays some.
+                base.repr_state.in_repr = getattr(base.repr_state, "in_repr", 0) + 1
                 try:
                     interpreter = jedi.Interpreter(text, scopes)
                     completions = interpreter.complete(**kw)
@@ -17,6 +20,7 @@ def setup_readline(scopes, **kw):
                         for c in completions
                     ]
                 finally:
+                    base.repr_state.in_repr -= 1
                     sys.path.pop(0)
             try:
                 return self.matches[state]
-- 
2.43.0


From 6fd38b7a7408fe339f7c0e1e2d118fa62ec49c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 71/76] fix: cd completes the directories of its environment

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 08ecac5..6a0cab9 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -36,7 +36,7 @@ class CdBuiltin(builtin.Builtin):
         if self._arg[1:]:
             pth = self._env._expand_path(self._path)
         else:
-            pth = "."
+            pth = self._env._cwd
         try:
             return [name for name in os.listdir(pth)
                     if os.path.isdir(os.path.join(pth, name))] + list(self._replacements.keys())
-- 
2.43.0


From 95948b1143c773decb6e08e1dc87339bafbaf2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 72/76] fix: complete arguments of commands exactly, without
 having the shell evaluate them

---
 pieshell/pipeline/command.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index bfbcb3b..4becfed 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -10,6 +10,7 @@ import threading
 import signal
 import operator
 import re
+import shlex
 import builtins
 import functools
 import inspect
@@ -156,12 +157,7 @@ class BaseCommand(base.Pipeline):
         return args
 
     def _arg_list_sh(self, *arg, **kw):
-        def quote_arg(arg):
-            arg = str(arg)
-            if " " in arg:
-                arg = repr(arg)
-            return arg
-        return ' '.join(quote_arg(arg) for arg in self._arg_list(*arg, **kw))
+        return ' '.join(shlex.quote(str(arg)) for arg in self._arg_list(*arg, **kw))
 
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
@@ -270,7 +266,7 @@ class Command(command.BaseCommand):
 
     def _complete(self):
         cmd = self._arg_list_sh() + " "
-        return (item.strip() for item in self._env.get_completions(cmd))
+        return (item.strip() for item in self._env.get_completions(environ.R(cmd)))
 
     @property
     def __signature__(self):
-- 
2.43.0


From dd37a18c6ee632d88bd39055cbb9a7aecf2fa1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 73/76] fix: report unfinished files and statements instead of
 ignoring them

---
 pieshell/environ.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index f0ce34b..64251e3 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -288,10 +288,20 @@ class EnvScope(dict):
             content = f.read()
         if isinstance(content, bytes):
             content = content.decode("utf-8")
-        code.InteractiveConsole(locals=self).runsource(content, filename, "exec")
+        self._execute(content, filename, "exec")
 
     def execute_expr(self, expr):
-        code.InteractiveConsole(locals=self).runsource(expr, "<expr>")
+        self._execute(expr, "<expr>", "single")
+
+    def _execute(self, source, filename, symbol):
+        # Not runsource(), which waits for the rest of anything unfinished
+        console = code.InteractiveConsole(locals=self)
+        try:
+            compiled = compile(source + "\n", filename, symbol, dont_inherit=True)
+        except (OverflowError, SyntaxError, ValueError):
+            console.showsyntaxerror(filename)
+        else:
+            console.runcode(compiled)
 
     def _copy_resource(self, resource, dst):
         dstdir = os.path.dirname(dst)
-- 
2.43.0


From 10991e69c22a89278451243c38abe80d47336093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 74/76] fix: start with an unreadable history file

---
 pieshell/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index 88957c6..b49ab94 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -82,7 +82,10 @@ Where OPTIONS are any of
             else:
                 history = os.path.expanduser('~/.config/pieshell.history')
                 if os.path.exists(history):
-                    readline.read_history_file(history)
+                    try:
+                        readline.read_history_file(history)
+                    except OSError as e:
+                        sys.stderr.write("Unable to read %s: %s\n" % (history, e))
                 atexit.register(readline.write_history_file, history)
                 
                 if kws.get("ptpython", False):
-- 
2.43.0


From 0453f5dbf962aa1d242dab4c3063fba24ffb88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 75/76] fix: start on terminals that can not read the history

---
 pieshell/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index b49ab94..dd80524 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -84,7 +84,7 @@ Where OPTIONS are any of
                 if os.path.exists(history):
                     try:
                         readline.read_history_file(history)
-                    except OSError as e:
+                    except Exception as e: # Terminals readline can not handle raise other errors
                         sys.stderr.write("Unable to read %s: %s\n" % (history, e))
                 atexit.register(readline.write_history_file, history)
                 
-- 
2.43.0


From 052535a215ce882f3f38b8c5028444612069b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 76/76] fix: remove output files shared between commands

---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 4a06469..6b08072 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,7 +194,10 @@ class BaseRunningItem(object):
         for fd, name in self.output_files.items():
             if hasattr(name, "path"):
                 name = name.path
-            os.unlink(name)
+            try:
+                os.unlink(name)
+            except FileNotFoundError:
+                pass # Shared with another part of the pipeline
     def restart(self):
         pass
     def suspend(self):
-- 
2.43.0

