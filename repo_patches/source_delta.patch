From 539411c7a1278501cf3de0edbfb1fc80b81d78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 01/70] fix: finish the protocol transaction before FetchAll
 raises its error

When the Error and Ready messages of a streamed result arrived in different
reads, the error was raised while the transaction was still pending, and the
next, unrelated operation raised it a second time.
---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..136e1b0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -939,6 +939,10 @@ class FetchAll(Chunks):
 		# fatal is True == dead connection
 		# fatal is False == dead transaction
 		if x.fatal is not None:
+			if self.database.pq.xact is x:
+				# The error is raised here; don't leave the protocol
+				# transaction for the next operation to finish and raise again.
+				self.database.pq.complete()
 			self.database.typio.raise_error(x.error_message, creator = getattr(self, '_controller', self) or self)
 
 		# no messages to process?
-- 
2.43.0


From 57a9270655f7031530e952f3fdbba33e9df0d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 02/70] fix: fail a COPY FROM STDIN at once when its source
 raises

The CopyFail was left pending when the iterable given to load_chunks() or
load_rows() raised: the next, unrelated operation sent it and then raised
the server's answer to it instead of running.
---
 postgresql/driver/pq3.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 136e1b0..f0bfca0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1770,14 +1770,21 @@ class Statement(pg_api.Statement):
 			))
 			self.database.typio.raise_client_error(x.error_message, creator = self)
 
-		for chunk in chunks:
-			x.messages = list(chunk)
-			while x.messages is not x.CopyFailSequence:
-				# Continue stepping until the transaction
-				# sets the CopyFailSequence again. That's
-				# the signal that the transaction has sent
-				# all the previously set messages.
-				step()
+		try:
+			for chunk in chunks:
+				x.messages = list(chunk)
+				while x.messages is not x.CopyFailSequence:
+					# Continue stepping until the transaction
+					# sets the CopyFailSequence again. That's
+					# the signal that the transaction has sent
+					# all the previously set messages.
+					step()
+		except Exception:
+			# The COPY cannot be finished: fail it now, instead of
+			# leaving that, and its error, to the next operation.
+			if self.database.pq.xact is x:
+				self.database.pq.complete()
+			raise
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
 		self.database.pq.synchronize()
-- 
2.43.0


From 566dc68a49b74d4f61e05eb1e97894d50b01f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 03/70] fix: don't end a row stream silently when its request
 failed elsewhere

If the prefetch of a rows(), chunks() or column() stream was completed by
another operation and had failed, the stream ended as if the result were
complete; if pushing the prefetch raised another request's error, the chunk
already received and the rest of the result were dropped.
---
 postgresql/driver/pq3.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f0bfca0..3ce1450 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1017,6 +1017,10 @@ class MultiXactStream(Chunks):
 
 		if self.database.pq.xact is x:
 			self.database._pq_complete()
+		elif x.fatal is not None:
+			# Another operation finished the transaction, and it failed;
+			# what was received is not the end of the result.
+			self.database.typio.raise_error(x.error_message, creator = getattr(self, '_controller', self) or self)
 
 		# get all the element.Tuple messages
 		chunk = [
@@ -1024,8 +1028,11 @@ class MultiXactStream(Chunks):
 		]
 		if len(chunk) == self.chunksize:
 			# there may be more, dispatch the request for the next chunk
-			self._xact = self._ins(self._command)
-			self.database._pq_push(self._xact, self)
+			next_xact = self._ins(self._command)
+			# This finishes, and raises the error of, any other pending
+			# transaction. If so, the chunk is still there the next time.
+			self.database._pq_push(next_xact, self)
+			self._xact = next_xact
 		else:
 			# it's done.
 			self._xact = None
-- 
2.43.0


From 1fd6dbb4c8e5cae1d9367a1bd17b163e96e1f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 04/70] fix: don't continue a protocol step after a failed read
 or write

---
 postgresql/protocol/client3.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..80cce86 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -411,22 +411,21 @@ class Connection(object):
 		to stream information out.
 		"""
 		x = self.xact
+		dir, op = x.state
+		if dir is not xact.Sending and dir is not xact.Receiving:
+			raise RuntimeError(
+				"unexpected PQ transaction state: " + repr(dir)
+			)
 		try:
-			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
-				# The "op" callable will either switch the state, or
-				# set the 'messages' attribute with a new sequence
-				# of message objects for more writing.
-				op()
-			elif dir is xact.Receiving:
-				self.read_messages()
+				if self.write_messages(x.messages):
+					# The "op" callable will either switch the state, or
+					# set the 'messages' attribute with a new sequence
+					# of message objects for more writing.
+					op()
+			elif self.read_messages():
 				self.read = self.read[op(self.read):]
 				self.state = getattr(x, 'last_ready', self.state)
-			else:
-				raise RuntimeError(
-					"unexpected PQ transaction state: " + repr(dir)
-				)
 		except self.socket_factory.try_again_exception as e:
 			# Unlike _complete, this catches at the outermost level
 			# as there is no loop here for more transitioning.
@@ -435,6 +434,14 @@ class Connection(object):
 				return
 			else:
 				raise
+		except Exception as proto_exc:
+			# As in complete(), it's a protocol or a programming error.
+			x.fatal = True
+			x.state = xact.Complete
+			x.exception = proto_exc
+			x.error_message = client_detected_protocol_error
+			self.state = b''
+			return
 		if x.state is xact.Complete and \
 		getattr(self.xact, 'fatal', None) is not True:
 			# only remove the transaction if it's *not* fatal
-- 
2.43.0


From 4d2c7eba61ee934aa30c1df5f5f2c39bcaf56d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 05/70] fix: deliver equal asynchronous messages that arrive
 together

---
 postgresql/protocol/xact3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..f4640fb 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -476,11 +476,12 @@ class Instruction(Transaction):
 		else:
 			offset, current_step = self.last[2]
 			# it's a new set, so we can clear the asyncs record.
-			self._asyncs = []
+			self._asyncs = 0
 		cmd = COMMANDS[offset]
 		paths = HOOK[cmd.type]
 		processed = []
 		count = 0
+		asyncs = 0
 
 		for x in messages:
 			count += 1
@@ -523,7 +524,8 @@ class Instruction(Transaction):
 					current_step = 0
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					asyncs += 1
+					if asyncs > self._asyncs:
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
@@ -532,7 +534,7 @@ class Instruction(Transaction):
 							# notify the user, but continue...
 							sys.excepthook(*sys.exc_info())
 						# it's been processed, so don't process it again.
-						self._asyncs.append(x)
+						self._asyncs = asyncs
 				else:
 					##
 					# Procotol violation.
-- 
2.43.0


From 4a1750078912b0520785f035a68b5a91147e1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 06/70] fix: don't replace a fatal protocol transaction when
 synchronizing

---
 postgresql/protocol/client3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 80cce86..4bd8391 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -99,6 +99,9 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
+			if self.xact is not None:
+				# The connection is lost; there's nothing to synchronize.
+				return
 		x = xact.Instruction((element.SynchronizeMessage,))
 		self.xact = x
 		self.complete()
-- 
2.43.0


From 22df77c94b0ea7e9f5d063fe4d5a8309ab185d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 07/70] fix: process asynchronous messages received by clean-up
 requests

---
 postgresql/driver/pq3.py       |  4 ++--
 postgresql/protocol/client3.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3ce1450..2e3be75 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1794,7 +1794,7 @@ class Statement(pg_api.Statement):
 			raise
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
-		self.database.pq.synchronize()
+		self.database.pq.synchronize(self.database._receive_async)
 
 	def _load_tuple_chunks(self, chunks, tuple=tuple):
 		pte = self._raise_parameter_tuple_error
@@ -1841,7 +1841,7 @@ class Statement(pg_api.Statement):
 			# exception being marked as the cause, so there should
 			# be no [exception] information loss.
 			##
-			self.database.pq.synchronize()
+			self.database.pq.synchronize(self.database._receive_async)
 			raise
 
 	def load_chunks(self, chunks, *parameters):
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 4bd8391..6734ffd 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -90,7 +90,7 @@ class Connection(object):
 		return locals()
 	tracer = property(**tracer())
 
-	def synchronize(self):
+	def synchronize(self, asynchook = xact.return_arg):
 		"""
 		Explicitly send a Synchronize message to the backend.
 		Useful for forcing the completion of lazily processed transactions.
@@ -102,7 +102,7 @@ class Connection(object):
 			if self.xact is not None:
 				# The connection is lost; there's nothing to synchronize.
 				return
-		x = xact.Instruction((element.SynchronizeMessage,))
+		x = xact.Instruction((element.SynchronizeMessage,), asynchook = asynchook)
 		self.xact = x
 		self.complete()
 
@@ -365,7 +365,7 @@ class Connection(object):
 			)
 		return r
 
-	def take_out_trash(self):
+	def take_out_trash(self, asynchook = xact.return_arg):
 		"""
 		close cursors and statements slated for closure.
 		"""
@@ -379,7 +379,7 @@ class Connection(object):
 			xm.append(element.CloseStatement(x))
 			statements += 1
 		xm.append(element.SynchronizeMessage)
-		x = xact.Instruction(xm)
+		x = xact.Instruction(xm, asynchook = asynchook)
 		self.xact = x
 		del self.garbage_cursors[:cursors]
 		del self.garbage_statements[:statements]
@@ -399,7 +399,7 @@ class Connection(object):
 			if self.garbage_statements or self.garbage_cursors:
 				# This *has* to be done before a new transaction
 				# is pushed.
-				self.take_out_trash()
+				self.take_out_trash(getattr(x, 'asynchook', xact.return_arg))
 			if self.xact is None:
 				# set it as the current transaction and begin
 				self.xact = x
-- 
2.43.0


From 302dfe5b8461cd05fb804796369b1a52a323bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 08/70] fix: raise when the connection is lost while closing
 discarded objects

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 2e3be75..3459d5b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2627,6 +2627,10 @@ class Connection(pg_api.Connection):
 		if controller is not None:
 			self._controller = controller
 		self.pq.push(xact)
+		x = self.pq.xact
+		if x is not None and x is not xact and x.fatal is not None:
+			# The connection was lost before the transaction was started.
+			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None))
 
 	# Complete the current protocol transaction.
 	def _pq_complete(self):
-- 
2.43.0


From 27f4d96f7f7d6981259c424396f84d3d72ecb912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 09/70] fix: don't leave a transaction block open when its
 commit or rollback fails

---
 postgresql/driver/pq3.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3459d5b..446c33a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2141,8 +2141,7 @@ class Transaction(pg_api.Transaction):
 		if typ is None:
 			# No exception, but in a failed transaction?
 			if self.database.pq.state == b'E':
-				if not self.database.closed:
-					self.rollback()
+				self._rollback_on_exit()
 				# pg_exc.InFailedTransactionError
 				em = element.ClientError((
 					(b'S', 'ERROR'),
@@ -2157,18 +2156,23 @@ class Transaction(pg_api.Transaction):
 					self.commit()
 					# If an error occurs, clean up the transaction state
 					# and raise as needed.
-				except pg_exc.ActiveTransactionError as err:
-					if not self.database.closed:
-						# adjust the state so rollback will do the right thing and abort.
-						self.state = 'open'
-						self.rollback()
+				except Exception:
+					if self.state == 'open' and self.database.pq.state != b'I':
+						self._rollback_on_exit()
 					raise
 		elif issubclass(typ, Exception):
 			# There's an exception, so only rollback if the connection
 			# exists. If the rollback() was called here, it would just
 			# contribute noise to the error.
-			if not self.database.closed:
-				self.rollback()
+			self._rollback_on_exit()
+
+	def _rollback_on_exit(self):
+		# Finish the pending protocol transaction, if any, so that its error
+		# does not keep the transaction block open.
+		if self.database.pq.xact is not None:
+			self.database.pq.complete()
+		if not self.database.closed:
+			self.rollback()
 
 	@staticmethod
 	def _start_xact_string(isolation = None, mode = None):
-- 
2.43.0


From a80e8146171b4f09677fb6ceed652c5a69afc80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 10/70] fix: treat socket errors during SSL negotiation as a
 failed connection attempt

---
 postgresql/protocol/client3.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 6734ffd..d9f4e56 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -163,7 +163,19 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				self.ssl_negotiation = supported = self.negotiate_ssl()
+			except self.socket_factory.fatal_exception as err:
+				self.xact.state = xact.Complete
+				self.xact.fatal = True
+				self.xact.exception = err
+				self.xact.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08006'),
+					(b'M', self.socket_factory.fatal_exception_message(err) \
+						or 'SSL negotiation failed'),
+				))
+				return
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
@@ -214,9 +226,15 @@ class Connection(object):
 		Otherwise, return None. Indicates non-PQv3 endpoint.
 		"""
 		r = element.NegotiateSSLMessage.bytes()
-		while r:
-			r = r[self.socket.send(r):]
-		status = self.socket.recv(1)
+		status = None
+		while status is None:
+			try:
+				while r:
+					r = r[self.socket.send(r):]
+				status = self.socket.recv(1)
+			except self.socket_factory.try_again_exception as e:
+				if not self.socket_factory.try_again(e):
+					raise
 		if status == b'S':
 			return True
 		elif status == b'N':
-- 
2.43.0


From 20d4648a66c09a18a0a0fcbd3c296a722d44c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 11/70] fix: raise when the source of a COPY FROM STDIN used
 the connection

---
 postgresql/driver/pq3.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 446c33a..5a70f09 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1779,7 +1779,11 @@ class Statement(pg_api.Statement):
 
 		try:
 			for chunk in chunks:
-				x.messages = list(chunk)
+				messages = list(chunk)
+				if x.state is xact.Complete:
+					# The source used the connection, which failed the COPY.
+					break
+				x.messages = messages
 				while x.messages is not x.CopyFailSequence:
 					# Continue stepping until the transaction
 					# sets the CopyFailSequence again. That's
@@ -1792,6 +1796,10 @@ class Statement(pg_api.Statement):
 			if self.database.pq.xact is x:
 				self.database.pq.complete()
 			raise
+		if x.state is xact.Complete:
+			self.database.typio.raise_error(
+				x.error_message, cause = getattr(x, 'exception', None)
+			)
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
 		self.database.pq.synchronize(self.database._receive_async)
-- 
2.43.0


From c8e8d1d40d242e1d2ba6ea6cd332866f4ac8645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 12/70] fix: unpack NULLs and report undecodable values in
 column() and first()

---
 postgresql/driver/pq3.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 5a70f09..7c37c6d 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -748,22 +748,15 @@ class Output(object):
 		return x
 
 	# Process the element.Tuple message in x for column()
-	def _process_tuple_chunk_Column(self, x, range = range):
-		unpack = self._output_io[0]
-		# get the raw data for the first column
-		l = [y[0] for y in x]
-		# iterate over the range to keep track
-		# of which item we're processing.
-		r = range(len(l))
-		try:
-			return [unpack(l[i]) for i in r]
-		except Exception:
-			cause = sys.exc_info()[1]
-		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
-		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
+	def _process_tuple_chunk_Column(self, x, proc = process_chunk):
+		# Only the first column is unpacked.
+		return [
+			y[0] for y in proc(
+				self._output_io[:1],
+				[z[:1] for z in x],
+				self._raise_column_tuple_error
+			)
+		]
 
 	# Process the element.Tuple message in x for rows()
 	def _process_tuple_chunk_Row(self, x,
@@ -1711,10 +1704,10 @@ class Statement(pg_api.Statement):
 				)
 			else:
 				# Single column output.
-				if xt[0] is None:
-					return None
-				io = self._output_io[0] or self.database.typio.decode
-				return io(xt[0])
+				return process_tuple(
+					self._output_io, xt,
+					self._raise_column_tuple_error
+				)[0]
 		else:
 			##
 			# It doesn't return rows, so return a count.
-- 
2.43.0


From 0ab5a483856df78ea362a9944823756a6a9bbcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 13/70] fix: keep settings and subscriptions consistent when a
 subscriber raises or unsubscribes

---
 postgresql/driver/pq3.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 7c37c6d..c320279 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2078,12 +2078,14 @@ class Settings(pg_api.Settings):
 		d = self.database.typio._decode
 		key = d(msg.name)[0]
 		val = d(msg.value)[0]
-		for x in subs.get(key, ()):
-			x(self.database, key, val)
-		if None in subs:
-			for x in subs[None]:
+		# Callbacks may unsubscribe.
+		callbacks = list(subs.get(key, ()))
+		callbacks.extend(subs.get(None, ()))
+		try:
+			for x in callbacks:
 				x(self.database, key, val)
-		self.cache[key] = val
+		finally:
+			self.cache[key] = val
 
 	def subscribe(self, key, callback):
 		"""
-- 
2.43.0


From 4f94b962d4deedc6d5404abe04da7c841da031cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 14/70] fix: raise when a chunk failed while the source of a
 row load used the connection

---
 postgresql/driver/pq3.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c320279..bb35fa2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1805,6 +1805,8 @@ class Statement(pg_api.Statement):
 		Instruction = xact.Instruction
 		Execute = element.Execute
 
+		x = None
+
 		try:
 			for chunk in chunks:
 				bindings = [
@@ -1823,14 +1825,20 @@ class Statement(pg_api.Statement):
 					for t in chunk
 				]
 				bindings.append(last)
-				self.database._pq_push(
-					Instruction(
-						chain.from_iterable(bindings),
-						asynchook = self.database._receive_async
-					),
-					self
+				if x is not None and x.fatal is not None:
+					# The source used the connection, which finished the
+					# previous chunk, and that failed.
+					break
+				x = Instruction(
+					chain.from_iterable(bindings),
+					asynchook = self.database._receive_async
 				)
+				self.database._pq_push(x, self)
 			self.database._pq_complete()
+			if x is not None and x.fatal is not None:
+				self.database.typio.raise_error(
+					x.error_message, cause = getattr(x, 'exception', None)
+				)
 		except:
 			##
 			# In cases where row packing errors or occur,
-- 
2.43.0


From 9fb34f9fc61504f95748802bffa39d9c8673bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 15/70] fix: try the other kind of connection when a reached
 server fails the first

sslmode 'prefer' tries SSL first, then without, and 'allow' the reverse. The
second attempt was also skipped when a reachable server broke the first one
(failed TLS handshake, reset); only skip it if the address wasn't reachable.
---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index bb35fa2..b862ea7 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2568,7 +2568,7 @@ class Connection(pg_api.Connection):
 				# *not* be ran because it has already been noted to be
 				# a failure.
 				can_skip = True
-			elif hasattr(pq.xact, 'exception'):
+			elif pq.socket is None and hasattr(pq.xact, 'exception'):
 				# If a Python exception occurred, chances are that it is
 				# going to fail again iff it is going to hit the same host.
 				if sslmode == 'prefer' and ssl is False:
-- 
2.43.0


From 241886b3d5b71c189f8c342150731e0850fc3bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 16/70] fix: allow connect() to be called again after it could
 not connect

It raised AttributeError: 'NoneType' object has no attribute 'xact'.
---
 postgresql/driver/pq3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index b862ea7..f6942f1 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2463,7 +2463,7 @@ class Connection(pg_api.Connection):
 			# already connected? just return.
 			return
 
-		if hasattr(self, 'pq'):
+		if getattr(self, 'pq', None) is not None:
 			# It's closed, *but* there's a PQ connection..
 			x = self.pq.xact
 			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None), creator = self)
@@ -2479,6 +2479,8 @@ class Connection(pg_api.Connection):
 	def _establish(self):
 		# guts of connect()
 		self.pq = None
+		# of an earlier call that could not connect
+		self.__dict__.pop('failures', None)
 		# if any exception occurs past this point, the connection
 		# object will not be usable.
 		timeout = self.connector.connect_timeout
-- 
2.43.0


From e8ab9ab94d77e02479296fcdfaca916f4636bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 17/70] fix: apply client_encoding before decoding the other
 reported settings

PostgreSQL 16 reports session_authorization before client_encoding; connecting
as a user with a non-ASCII name raised UnicodeDecodeError.
---
 postgresql/driver/pq3.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f6942f1..5b601a6 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2552,9 +2552,13 @@ class Connection(pg_api.Connection):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
 				showoption_type = element.ShowOption.type
-				for x in neg.asyncs:
-					if x.type == showoption_type:
-						self._receive_async(x)
+				# The others are in the encoding that client_encoding names,
+				# and may be reported before it.
+				for x in sorted(
+					(x for x in neg.asyncs if x.type == showoption_type),
+					key = lambda x: x.name != b'client_encoding'
+				):
+					self._receive_async(x)
 				# success!
 				break
 			elif pq.socket is not None:
-- 
2.43.0


From 5550aaa2f1a6a9e440b66b3aeaf1473b495068b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 18/70] fix: settings interface acting on out of date cached
 values

Assigning a setting was skipped when the cache already had the value, and
getset() (used by the settings context manager) returned cached values,
although a statement or a rollback may have changed the setting since.
get() could overwrite a newer value reported while it was querying.
Deleting settings.path raised an AttributeError.
---
 postgresql/driver/pq3.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 5b601a6..3141f1b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2001,9 +2001,6 @@ class Settings(pg_api.Settings):
 		return v
 
 	def __setitem__(self, i, v):
-		cv = self.cache.get(i)
-		if cv == v:
-			return
 		setas = self.database.sys.setting_set(i, v)
 		self.cache[i] = setas
 
@@ -2027,10 +2024,7 @@ class Settings(pg_api.Settings):
 				'"%s"' %(x.replace('"', '""'),) for x in value
 			])
 		def fdel(self):
-			if self.database.connector.path is not None:
-				self.path = self.database.connector.path
-			else:
-				self.database.execute("RESET search_path")
+			del self['search_path']
 		doc = 'structured search_path interface'
 		return locals()
 	path = property(**path())
@@ -2042,27 +2036,25 @@ class Settings(pg_api.Settings):
 		db = self.database
 		r = self.database.sys.setting_get(k)
 		if r:
-			v = r[0][0]
-			self.cache[k] = v
+			# A newer value may have been reported in the meantime.
+			v = self.cache.setdefault(k, r[0][0])
 		else:
 			v = alt
 		return v
 
 	def getset(self, keys):
 		setmap = {}
-		rkeys = []
-		for k in keys:
-			v = self.cache.get(k)
-			if v is not None:
-				setmap[k] = v
-			else:
-				rkeys.append(k)
+		rkeys = list(keys)
 
 		if rkeys:
-			r = self.database.sys.setting_mget(rkeys)
-			self.cache.update(r)
-			setmap.update(r)
-			rem = set(rkeys) - set([x['name'] for x in r])
+			# The cached values may be out of date if the settings were changed
+			# by a statement or a rollback.
+			setmap.update(self.database.sys.setting_mget(rkeys))
+			setmap.update(
+				(k, self.cache[k]) for k in rkeys
+				if k not in setmap and k in self.cache
+			)
+			rem = set(rkeys) - set(setmap)
 			if rem:
 				raise KeyError(rem)
 		return setmap
-- 
2.43.0


From f29826687de9941ff29827c9fef9cbced8f09772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 19/70] fix: relative FORWARD and BACKWARD seeks of reversed
 cursors

With direction set to BACKWARD, seek(n, 'FORWARD') and seek(n, 'BACKWARD')
moved to the absolute position n instead of moving relatively in the
inverted direction; seek('ALL', 'FORWARD'/'BACKWARD') was not inverted.
---
 postgresql/driver/pq3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3141f1b..01dbb52 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1173,6 +1173,8 @@ class Cursor(Output, pg_api.Cursor):
 		if offset == 'ALL':
 			if rwhence not in ('BACKWARD', 'FORWARD'):
 				rwhence = 'BACKWARD' if self.direction is False else 'FORWARD'
+			elif self.direction is False:
+				rwhence = 'FORWARD' if rwhence == 'BACKWARD' else 'BACKWARD'
 		else:
 			if offset < 0 and rwhence == 'BACKWARD':
 				offset = -offset
@@ -1182,8 +1184,10 @@ class Cursor(Output, pg_api.Cursor):
 				if offset == 'ALL' and rwhence != 'FORWARD':
 					rwhence = 'BACKWARD'
 				else:
-					if rwhence == 'RELATIVE':
+					if rwhence in ('RELATIVE', 'FORWARD'):
 						offset = -offset
+					elif rwhence == 'BACKWARD':
+						rwhence = 'FORWARD'
 					elif rwhence == 'ABSOLUTE':
 						rwhence = 'FROM_END'
 					else:
-- 
2.43.0


From 48b1203aa6b4faf2fe0cd69870c3b0eef61b59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 20/70] fix: AttributeError instead of the column error of
 cursors opened by name

Cursors made with cursor_from_id have no statement; report the types of
the cursor's own columns.
---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 01dbb52..a922ddc 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -787,7 +787,7 @@ class Output(object):
 					itemnum,
 					self.column_names[itemnum],
 					self.database.typio.sql_type_from_oid(
-						self.statement.pg_column_types[itemnum]
+						self.pg_column_types[itemnum]
 					) or '<unknown>',
 				)
 			),
-- 
2.43.0


From 23401bbdee748cea89512dfe173d7d6d52cc438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 21/70] fix: access to row columns by name with cursors opened
 by name

The mapping was a zip object; give the rows a dictionary, as statements do.
---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a922ddc..7f17c36 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1121,7 +1121,7 @@ class Cursor(Output, pg_api.Cursor):
 				if m.type == tupledesc:
 					typio = self.database.typio
 					self._output = m
-					self._output_attmap = typio.attribute_map(self._output)
+					self._output_attmap = dict(typio.attribute_map(self._output))
 					self._row_constructor = typio.RowTypeFactory(self._output_attmap)
 					# tuple output
 					self._output_io = typio.resolve_descriptor(
-- 
2.43.0


From 2c823d03021c6125af1b74d8f291021be10aa87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 22/70] fix: notifications received before a connection failed
 were not reported

---
 postgresql/notifyman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..2612352 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -116,7 +116,9 @@ class NotificationManager(object):
 
 	# Check the connection's _notifies list; just scan everything.
 	def _pull_from_connections(self):
-		for db in self.connections:
+		# Include the connections that failed; they may have received
+		# notifications before the failure.
+		for db in self.connections | self.garbage:
 			if not db._notifies:
 				# nothing queued up, look at the next connection
 				continue
-- 
2.43.0


From e70bd94463ce2b1626600ab320108e0c5635b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 23/70] fix: NotificationManagers with a zero timeout did not
 look at the wire

---
 postgresql/notifyman.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 2612352..2efc3fa 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -76,6 +76,10 @@ class NotificationManager(object):
 				self.connections.remove(db)
 				self.garbage.add(db)
 		check = self.connections - self.garbage
+		if self.timeout == 0:
+			# Polling must not finish the exchanges in progress; those will
+			# collect the notifications themselves.
+			check = set(db for db in check if db.pq.xact is None)
 
 		r, w, x = select(check, (), check, max_duration)
 		# Make sure the connection's _notifies get filled.
@@ -197,7 +201,8 @@ class NotificationManager(object):
 		return self
 
 	def __next__(self, time = time):
-		checked_wire = True
+		# Unless polling, look at what has already been received first.
+		checked_wire = self.timeout != 0
 		# Loop until NOTIFY received or timeout.
 		while True:
 			if self.incoming is not None:
-- 
2.43.0


From d2ecaede0fa123b44b661f0e75faf84881c00f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 24/70] fix: notifications read along with the end of a reply
 were left until the next one arrived

---
 postgresql/notifyman.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 2efc3fa..906dc8b 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -81,9 +81,18 @@ class NotificationManager(object):
 			# collect the notifications themselves.
 			check = set(db for db in check if db.pq.xact is None)
 
+		# Messages that were read along with the end of a reply
+		# are not going to be signalled by select().
+		unread = set(
+			db for db in check
+			if db.pq.read or db.pq.message_buffer.has_message()
+		)
+		if unread:
+			max_duration = 0
+
 		r, w, x = select(check, (), check, max_duration)
 		# Make sure the connection's _notifies get filled.
-		for db in r:
+		for db in unread.union(r):
 			# Collect any pending events.
 			try:
 				# Even if db is in a failed transaction, this
-- 
2.43.0


From 78ad146fb6a5a1cdfe510919bd5b54a1b4a3a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 25/70] fix: idle events emitted before waiting notifications
 or held back by them

---
 postgresql/notifyman.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 906dc8b..e322777 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -168,15 +168,15 @@ class NotificationManager(object):
 		now = time()
 		if self._last_time is None:
 			self._last_time = now
-		elif self.timeout and now >= (self._last_time + self.timeout):
+		elif not self.timeout:
+			# No idle events; restart the wait.
+			self._last_time = None
+		elif now >= (self._last_time + self.timeout):
 			# Set last_time to None in case the timeout is so low
 			# that this condition keeps NOTIFYs from being seen.
 			self._last_time = None
 			# Signal timeout.
 			return True
-		else:
-			# toggle back to None.
-			self._last_time = None
 		return False
 
 	def settimeout(self, seconds):
@@ -212,6 +212,7 @@ class NotificationManager(object):
 	def __next__(self, time = time):
 		# Unless polling, look at what has already been received first.
 		checked_wire = self.timeout != 0
+		polled = False
 		# Loop until NOTIFY received or timeout.
 		while True:
 			if self.incoming is not None:
@@ -230,13 +231,13 @@ class NotificationManager(object):
 			# timeout happened? yield the "idle" event.
 			# This check **must** happen after .incoming is checked.
 			# Never emit idle when there are real events.
-			if self._timedout():
+			if polled and self._timedout():
 				return None
 
 			if not checked_wire and self.connections:
 				# Nothing queued up, check connections if any.
 				self._wait_on_wires()
-				checked_wire = True
+				checked_wire = polled = True
 			else:
 				checked_wire = False
 			self._pull_from_connections()
-- 
2.43.0


From e33accf22d541a50f558a7a5cab06fd0ad90ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 26/70] fix: COPYs that fail before reading anything left the
 connection out of sync

---
 postgresql/protocol/xact3.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index f4640fb..eccd0c2 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -456,6 +456,7 @@ class Instruction(Transaction):
 		ERROR_TYPE = element.Error.type,
 		READY_TYPE = element.Ready.type,
 		ERROR_PARSE = element.Error.parse,
+		CLOSE_TYPE = element.ClosePortal.type,
 		len = len,
 	):
 		"""
@@ -535,6 +536,11 @@ class Instruction(Transaction):
 							sys.excepthook(*sys.exc_info())
 						# it's been processed, so don't process it again.
 						self._asyncs = asyncs
+				elif x[0] == READY_TYPE and cmd.type == CLOSE_TYPE and \
+				self.fatal is False and hasattr(self, 'CopyFailSequence'):
+					# The failed COPY did not read the Synchronize message
+					# that was sent along with the Execute.
+					pass
 				else:
 					##
 					# Procotol violation.
@@ -606,10 +612,18 @@ class Instruction(Transaction):
 				# In this case, the commands that were sent past
 				# message starting the COPY, need to be re-issued
 				# once the COPY is complete. PG cleared its buffer.
-				self.CopyFailSequence = (self.CopyFailMessage,) + \
-					self.commands[offset+1:]
-				self.CopyDoneSequence = (element.CopyDoneMessage,) + \
-					self.commands[offset+1:]
+				rest = self.commands[offset+1:]
+				if rest and rest[-1] is element.SynchronizeMessage and not [
+					x for x in rest[:-1] if x.type != CLOSE_TYPE
+				]:
+					# However, if the COPY fails before it reads anything, the
+					# Synchronize message sent along with the Execute is still
+					# effective. Follow the re-issued one with a Close message,
+					# so that the end of the transaction can be identified.
+					rest = rest[-1:] + (rest[:-1] or (element.ClosePortal(b''),)) + rest[-1:]
+					self.commands = self.commands[:offset+1] + rest
+				self.CopyFailSequence = (self.CopyFailMessage,) + rest
+				self.CopyDoneSequence = (element.CopyDoneMessage,) + rest
 				self.state = (Sending, self.sent_from_stdin)
 			elif last.type == element.CopyToBegin.type:
 				# Should be seeing COPY data soon.
-- 
2.43.0


From 58363f0e77779c31b613c4ff93b78a8ade4c1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 27/70] fix: server versions with a packager's suffix

---
 postgresql/versionstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 04c065a..348fb31 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -13,7 +13,8 @@ def split(vstr: str) -> tuple:
 	Split a PostgreSQL version string into a tuple.
 	(major, minor, patch, ..., state_class, state_level)
 	"""
-	v = vstr.strip().split('.')
+	# Packagers append their own version: '16.4 (Debian 16.4-1.pgdg120+1)'
+	v = vstr.partition('(')[0].strip().split('.')
 
 	# Get rid of the numbers around the state_class (beta,a,dev,alpha, etc)
 	state_class = v[-1].strip('0123456789')
-- 
2.43.0


From c33987a035e147135c43d5b0951fe04ec87cf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 28/70] fix: releasing a nested advisory lock object unlocked
 it at once

ALock.release() unlocked the identifiers on the server on every call, so an
object acquired twice was no longer held after the first release although
locked() said so. Unlock when the last acquisition is released.
---
 postgresql/alock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..28716cc 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -104,7 +104,7 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
 			self._release(reversed(self._id_pairs), reversed(self._ids))
-- 
2.43.0


From f1d18ce2b5bf1bd8d4475e8974f9c867f8c7c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 29/70] fix: leaving a COPY loop early committed a partial load

CopyManager.__exit__ completed the receivers' COPY when the block was left
without an exception before the producer was exhausted.
---
 postgresql/copyman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..77e3f98 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -707,6 +707,10 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		if typ is None and not self._seen_stop_iteration:
+			# The COPY was abandoned; the receivers must not complete it.
+			typ, val = CopyFail, CopyFail(self, "copy not completed")
+
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
-- 
2.43.0


From 45e3f9d865b589fee44c2b8e32c71b490b0cf5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 30/70] fix: message types above 127 read outside of
 message_types

The type byte was sign-extended, so a corrupted or hostile stream crashed
the interpreter.
---
 postgresql/port/_optimized/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..5688497 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
-- 
2.43.0


From 5ec3f0e35428c2d457656716c95042bc72f04ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 31/70] fix: malformed rows were accepted without
 port.optimized

As the C version does, refuse a DataRow whose fields do not add up to the
size of the message.
---
 postgresql/protocol/element3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..8ee834a 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -504,6 +504,8 @@ class Tuple(TupleMessage):
 				att = data[ao:offset]
 			add(att)
 			natts -= 1
+		if offset != len(data):
+			raise ValueError("invalid tuple(D) message size")
 		return T(atts)
 	try:
 		parse = parse_tuple_message
-- 
2.43.0


From 79b9574f4c4263447383c1eb28f606e3618ab80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:28 +0000
Subject: [PATCH 32/70] fix: replies lacking a part raised unrelated Python
 exceptions

An error without a code or message, a statement description without its
parameter types and a command tag without a command raised KeyError, TypeError
and AttributeError.
---
 postgresql/driver/pq3.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 7f17c36..f14ae18 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -72,6 +72,12 @@ could_not_connect = element.ClientError((
 	(b'M', "could not establish connection to server"),
 ))
 
+not_described = element.ClientError((
+	(b'S', 'ERROR'),
+	(b'C', '08P01'),
+	(b'M', "server did not describe the statement's parameters"),
+))
+
 # generate an id for a client statement or cursor
 def ID(s, title = None, IDNS = 'py:'):
 	return IDNS + hex(id(s))
@@ -523,8 +529,8 @@ class TypeIO(pg_api.TypeIO):
 
 	def raise_server_error(self, error_message, cause = None, creator = None):
 		m = dict(self.decode_notice(error_message))
-		c = m.pop('code')
-		ms = m.pop('message')
+		c = m.pop('code', '08P01')
+		ms = m.pop('message', '')
 		server_error = self.lookup_exception(c)
 		server_error = server_error(ms, code = c, details = m, source = 'SERVER', creator = creator or self.database)
 		server_error.database = self.database
@@ -834,7 +840,8 @@ class Output(object):
 		The completion message's command identifier.
 		"""
 		if self._complete_message is not None:
-			return self._complete_message.extract_command().decode('ascii')
+			command = self._complete_message.extract_command()
+			return command and command.decode('ascii')
 
 	def count(self):
 		"""
@@ -1532,6 +1539,8 @@ class Statement(pg_api.Statement):
 		(*head, argtypes, tupdesc, last) = self._xact.messages_received()
 
 		typio = self.database.typio
+		if argtypes.__class__ is not element.AttributeTypes:
+			typio.raise_client_error(not_described, creator = self)
 		if tupdesc is None or tupdesc is element.NoDataMessage:
 			# Not typed output.
 			self._output = None
-- 
2.43.0


From e895583f10d85f628a262e36d3583a269e1d4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 33/70] fix: DB-API connections used as context managers lost
 committed work

connect() on an open connection, which is also what entering the context
manager does, started a nested transaction: commit() only released a
savepoint of the transaction that was then rolled back on close.
---
 postgresql/driver/dbapi20.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..6a7099f 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -355,6 +355,9 @@ class Connection(Connection):
 	del autocommit_set, autocommit_get, autocommit_del
 
 	def connect(self, *args, **kw):
+		if self.closed is False:
+			# already connected, and so is the transaction already started.
+			return
 		super().connect(*args, **kw)
 		self._xact = self.xact()
 		self._xact.start()
-- 
2.43.0


From 5d308d7f707523131342819120e80ee1c499ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 34/70] fix: DB-API close() raised on a lost connection and
 kept its socket

---
 postgresql/driver/dbapi20.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 6a7099f..3500e21 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -364,7 +364,9 @@ class Connection(Connection):
 		self._dbapi_connected_flag = True
 
 	def close(self):
-		if self.closed and self._dbapi_connected_flag:
+		# A lost connection is closed, but still has its socket.
+		lost = getattr(getattr(self, 'pq', None), 'socket', None) is not None
+		if self.closed and self._dbapi_connected_flag and not lost:
 			raise Error(
 				"connection already closed",
 				source = 'CLIENT',
-- 
2.43.0


From fb6830f8486fae3802f27feb182dd1b75acef9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 35/70] fix: DB-API statements after a failed commit were
 committed at once

When the server refuses a COMMIT the transaction is over, but commit() did
not start another: everything until the next commit or rollback was
auto-committed and could not be undone.
---
 postgresql/driver/dbapi20.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 3500e21..964d974 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -388,7 +388,14 @@ class Connection(Connection):
 				},
 				creator = self
 			)
-		self._xact.commit()
+		try:
+			self._xact.commit()
+		except Exception:
+			# The server ends the transaction when it cannot commit it.
+			if not self.closed and self.pq.state == b'I':
+				self._xact = self.xact()
+				self._xact.start()
+			raise
 		self._xact = self.xact()
 		self._xact.start()
 
-- 
2.43.0


From e232c208ef5695c52a265abb682aeda2e8b233be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 36/70] fix: DB-API autocommit read False with no transaction
 started

When START TRANSACTION could not be sent, because a pending request failed,
the connection stayed in autocommit mode but claimed otherwise.
---
 postgresql/driver/dbapi20.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 964d974..93567a8 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -338,8 +338,9 @@ class Connection(Connection):
 		else:
 			if self._xact is not None:
 				return
-			self._xact = self.xact()
-			self._xact.start()
+			x = self.xact()
+			x.start()
+			self._xact = x
 
 	def autocommit_get(self):
 		return self._xact is None
-- 
2.43.0


From a2f713bf4fafca1935d4b7bb3b6411fe3b651696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 37/70] fix: a statement that could not be sent looked executed
 until its rows were read

chunks() and rows() return without an error when the connection breaks
while the request is being sent, and DB-API's execute() never reads the
(empty) result of a statement that returns no rows: it reported success.
---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f14ae18..c4c382e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -921,6 +921,11 @@ class FetchAll(Chunks):
 						self.database.typio.raise_client_error(self._xact.error_message, creator = self)
 					return
 
+		x = self._xact
+		if x.fatal is not None:
+			# The request could not even be sent.
+			self.database.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None), creator = self)
+
 	def __next__(self,
 		data_types = (tuple,bytes),
 		complete = element.Complete.type,
-- 
2.43.0


From 12d1a5a62508c2aa83e7797118320b1f8c6d749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 38/70] fix: deleting a setting of a ConfigFile raised
 TypeError

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..f175471 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -244,7 +244,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		with self._open(self.path) as cfo:
-- 
2.43.0


From 0ed4a642de6229f4465840a126104ed4dc052179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 39/70] fix: settings could not be added to an empty
 configuration file

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index f175471..8e99f38 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -124,7 +124,7 @@ def alter_config(map, fo, keys = None):
 			val = map[key]
 			# Can't comment without an uncommented candidate.
 			if val is not None:
-				if not lines[-1].endswith(os.linesep):
+				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
 				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
 
-- 
2.43.0


From 3d0dd37852e57798ba5fa5cd96ef9e05a4a5e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 40/70] fix: temporary settings of a ConfigFile were never
 restored

Leaving the context raised AttributeError, and the call that creates it
returned None.
---
 postgresql/configfile.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 8e99f38..c0231b5 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -227,7 +227,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -258,12 +258,13 @@ class ConfigFile(pg_api.Settings):
 
 	def __call__(self, **kw):
 		self._store.insert(0, kw)
+		return self
 
 	def __context__(self):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
 
 	def __len__(self):
 		return len(list(self.keys()))
@@ -273,12 +274,10 @@ class ConfigFile(pg_api.Settings):
 		self.update(self._store[0])
 		del self._store[0]
 		self._restore.append(res)
+		return self
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
-		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
+		self.update(self._restore.pop())
 		return exc is None
 
 	def get(self, k, alt = None):
-- 
2.43.0


From 4c331311e9732505beb54397792f0add160c75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 41/70] fix: pg_dotconf could not apply a file of settings

---
 postgresql/bin/pg_dotconf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 31306e9..06599a6 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -39,8 +39,8 @@ def command(args):
 			for line in sf:
 				pl = configfile.parse_line(line)
 				if pl is not None:
-					if comment not in line[pl[0].start]:
-						settings[line[pl[0]]] = unquote(line[pl[1]])
+					if configfile.comment not in line[:pl[0].start]:
+						settings[line[pl[0]]] = configfile.unquote(line[pl[1]])
 
 	prev = None
 	for p in ca[1:]:
-- 
2.43.0


From b896d6a60f01e36a7cdc67351080188b169f069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 42/70] fix: pg_dotconf could not be imported

The package defines no __version__ as .project has no author and date.
---
 postgresql/bin/pg_dotconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 06599a6..697d9e1 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -3,7 +3,7 @@ import sys
 import os
 from optparse import OptionParser
 from .. import configfile
-from .. import __version__
+from ..project import version as __version__
 
 __all__ = ['command']
 
-- 
2.43.0


From 5cb5387be6dc154472d273923af7820d550d538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 43/70] fix: leaving temporary settings of a ConfigFile dropped
 differently spelled ones

getset() did not find 'Port' as the value of port, so that restoring the
old settings commented it out.
---
 postgresql/configfile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index c0231b5..200a3bf 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -307,12 +307,12 @@ class ConfigFile(pg_api.Settings):
 		Get all the settings in the list of keys.
 		Returns a dictionary of those keys.
 		"""
-		keys = set(keys)
+		# Names of settings are case-insensitive.
+		names = {k.lower() : k for k in keys}
+		r = dict.fromkeys(names.values())
 		with self._open(self.path) as cfo:
-			cfg = read_config(
-				cfo,
-				selector = keys.__contains__
-			)
-			for x in (keys - set(cfg.keys())):
-				cfg[x] = None
-			return cfg
+			for line in cfo:
+				for k, v in read_config((line,)).items():
+					if k.lower() in names:
+						r[names[k.lower()]] = v
+		return r
-- 
2.43.0


From 7ad56cf66d85980f039f4406a0ed39d0d7a8dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 44/70] fix: a failed or interrupted update truncated the
 configuration file

---
 postgresql/bin/pg_dotconf.py |  4 +---
 postgresql/configfile.py     | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 697d9e1..80d720b 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -71,9 +71,7 @@ def command(args):
 		for l in lines:
 			sys.stdout.write(l)
 	else:
-		with open(fp, 'w') as fw:
-			for l in lines:
-				fw.write(l)
+		configfile.ConfigFile(fp)._save(lines)
 	return 0
 
 if __name__ == '__main__':
diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 200a3bf..d9d1831 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -6,6 +6,8 @@ PostgreSQL configuration file parser and editor functions.
 """
 import sys
 import os
+import stat
+import tempfile
 from . import string as pg_str
 from . import api as pg_api
 
@@ -237,6 +239,40 @@ class ConfigFile(pg_api.Settings):
 		)
 
 	def _save(self, lines : [str]):
+		path = os.path.realpath(self.path)
+		if self._open is not open or not os.path.isfile(path):
+			return self._overwrite(lines)
+
+		# Write a new file and put it in place of the old one when it's complete;
+		# a failure or a crash must not leave a truncated file behind.
+		try:
+			fd, new = tempfile.mkstemp(
+				prefix = os.path.basename(path) + '.', dir = os.path.dirname(path)
+			)
+		except PermissionError:
+			# Only allowed to write the file.
+			return self._overwrite(lines)
+		try:
+			with self._open(fd, 'w') as cf:
+				for l in lines:
+					cf.write(l)
+				cf.flush()
+				os.fsync(fd)
+			old = os.stat(path)
+			if hasattr(os, 'chown'):
+				os.chown(new, old.st_uid, old.st_gid)
+			os.chmod(new, stat.S_IMODE(old.st_mode))
+			os.replace(new, path)
+		except BaseException as e:
+			try:
+				os.unlink(new)
+			except OSError:
+				pass
+			if isinstance(e, PermissionError):
+				return self._overwrite(lines)
+			raise
+
+	def _overwrite(self, lines : [str]):
 		with self._open(self.path, 'w') as cf:
 			for l in lines:
 				cf.write(l)
-- 
2.43.0


From 29d140364f9aab37cb4f7e19f8c389e5b622277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 45/70] fix: a cluster could not be started with settings

---
 postgresql/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 122103e..f6ab93e 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -337,7 +337,7 @@ class Cluster(pg_api.Cluster):
 		cmd = (self.daemon_path, '-D', self.data_directory)
 		if settings is not None:
 			for k,v in dict(settings).items():
-				cmd.append('--{k}={v}'.format(k=k,v=v))
+				cmd += ('--{k}={v}'.format(k=k,v=v),)
 
 		p = sp.Popen(
 			cmd,
-- 
2.43.0


From 53f83b409d7ec66fed4cd556771ef301b3096f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 46/70] fix: an empty pid file made cluster operations raise
 ValueError

---
 postgresql/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index f6ab93e..e365d99 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -134,6 +134,9 @@ class Cluster(pg_api.Cluster):
 			path = os.path.join(self.data_directory, self.DEFAULT_PID_FILENAME)
 			with open(path) as f:
 				return int(f.readline())
+		except ValueError:
+			# Not written yet, or not a pid.
+			return None
 		except IOError as e:
 			if e.errno in (errno.EIO, errno.ENOENT):
 				return None
-- 
2.43.0


From b6e413c21fb5a18fd041e53bf587d63573fb95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 47/70] fix: cluster operations signalled process groups

---
 postgresql/cluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index e365d99..c72cdc8 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -133,7 +133,10 @@ class Cluster(pg_api.Cluster):
 		try:
 			path = os.path.join(self.data_directory, self.DEFAULT_PID_FILENAME)
 			with open(path) as f:
-				return int(f.readline())
+				pid = int(f.readline())
+			# A standalone backend writes its negated pid, which
+			# would be taken for a process group when signalled.
+			return pid if pid > 0 else None
 		except ValueError:
 			# Not written yet, or not a pid.
 			return None
-- 
2.43.0


From b136122ec6626ba10e679a044c150876d6adb717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 48/70] fix: a running cluster appeared stopped when its pid
 file could not be opened

---
 postgresql/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index c72cdc8..7641d69 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -143,6 +143,7 @@ class Cluster(pg_api.Cluster):
 		except IOError as e:
 			if e.errno in (errno.EIO, errno.ENOENT):
 				return None
+			raise
 
 	@property
 	def pid(self):
-- 
2.43.0


From efe2a53df82cc76f76d3a8da0c0ad71ed3783228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 49/70] fix: waiting for a cluster with default
 listen_addresses or port raised TypeError

---
 postgresql/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 7641d69..ce5a1b1 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -540,7 +540,7 @@ class Cluster(pg_api.Cluster):
 		host, port = self.address()
 		connection = self.driver.fit(
 			user = ' -*- ping -*- ',
-			host = host, port = port,
+			host = host or 'localhost', port = port or 5432,
 			database = 'template1',
 			sslmode = 'disable',
 		)()
-- 
2.43.0


From 19617993d83b063a2013acf74dff9b423549e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 50/70] fix: waiting for a cluster to stop raised when it
 stopped between two checks

---
 postgresql/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index ce5a1b1..c2dda2b 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -635,7 +635,8 @@ class Cluster(pg_api.Cluster):
 			if self.daemon_process is not None:
 				self.last_exit_code = self.daemon_process.poll()
 			else:
-				self.last_exit_code = pg_kill(self.get_pid_from_file(), 0)
+				# Not a child of this process.
+				self.last_exit_code = None
 			if time.time() - start >= timeout:
 				raise ClusterTimeoutError(
 					'timeout on shutdown',
-- 
2.43.0


From bc51687777a75e10219c01a90ab2b76dfba4099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 51/70] fix: dropping a cluster with symbolic links to
 directories failed halfway

---
 postgresql/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index c2dda2b..9e8313d 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -332,7 +332,12 @@ class Cluster(pg_api.Cluster):
 			for name in files:
 				os.remove(os.path.join(root, name))
 			for name in dirs:
-				os.rmdir(os.path.join(root, name))	
+				path = os.path.join(root, name)
+				if os.path.islink(path):
+					# WAL directories and tablespaces.
+					os.remove(path)
+				else:
+					os.rmdir(path)
 		os.rmdir(self.data_directory)
 
 	def start(self, logfile = None, settings = None):
-- 
2.43.0


From f3e173c92117c26e5e432f1b412c221f2c08204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 52/70] fix: descriptions of a running cluster lacked its pid

---
 postgresql/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 9e8313d..95df686 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -117,7 +117,7 @@ class Cluster(pg_api.Cluster):
 		state = self.state
 		yield (None, '[' + state + ']')
 		if state == 'running':
-			yield ('pid', self.state)
+			yield ('pid', str(self.pid))
 
 	@property
 	def daemon_path(self):
-- 
2.43.0


From 6e4ba31bfa974127b883d1119225ab2a67c0eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:49 +0000
Subject: [PATCH 53/70] fix: cluster operations could signal processes other
 than the server

---
 postgresql/cluster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 95df686..0a28f6f 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -150,12 +150,12 @@ class Cluster(pg_api.Cluster):
 		"""
 		If we have the subprocess, use the pid on the object.
 		"""
-		pid = self.get_pid_from_file()
-		if pid is None:
-			d = self.daemon_process
-			if d is not None:
-				return d.pid
-		return pid
+		d = self.daemon_process
+		if d is not None and d.poll() is None:
+			return d.pid
+		# Not started by this object, or it has exited and
+		# its pid may already be that of another process.
+		return self.get_pid_from_file()
 
 	@property
 	def settings(self):
-- 
2.43.0


From c9e81e65afdfe4868c8c0a9099a6c0319a04c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:33 +0000
Subject: [PATCH 54/70] fix: a search_path of None was sent as the text None
 when connecting

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c4c382e..7b50944 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2872,7 +2872,7 @@ class Connector(pg_api.Connector):
 			if 'search_path' in self.settings:
 				sp = s.get('search_path')
 				if sp is None:
-					self.settings.pop('search_path')
+					s.pop('search_path')
 				elif not isinstance(sp, str):
 					s['search_path'] = ','.join(
 						pg_str.quote_ident(x) for x in sp
-- 
2.43.0


From 7063b574cf468a6b5fbfeea6783e083cba17ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:58 +0000
Subject: [PATCH 55/70] fix: checking a cluster's readiness left its connection
 open

When the server accepted the ping, the socket was never closed.
---
 postgresql/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 0a28f6f..7c8303d 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -572,6 +572,9 @@ class Cluster(pg_api.Cluster):
 					break
 			else:
 				e = err
+		else:
+			# Only the answer is of interest.
+			connection.close()
 		# the else true means we successfully connected with those
 		# credentials... strange, but true..
 		return e if e is not None else True
-- 
2.43.0


From 48aa04a2d594de1f865e26b9c87d399f06fabce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:15 +0000
Subject: [PATCH 56/70] fix: the zone of a timetz had its sign inverted

PostgreSQL keeps the seconds west of UTC; datetime.time the offset east of it.
Zones of the standard library were refused as well: they want to be asked by
the time itself.
---
 postgresql/types/io/stdlib_datetime.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..b17123d 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -186,9 +186,10 @@ def timetz_pack(x,
 	Create a ((seconds, microseconds), timezone) tuple from a `datetime.time`
 	instance.
 	"""
-	td = x.tzinfo.utcoffset(x)
+	td = x.utcoffset()
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	# PostgreSQL counts the seconds west of UTC.
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +200,8 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	# PostgreSQL counts the seconds west of UTC.
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From bc7fa154fe372f536538ee3407dfcb336cc6f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:15 +0000
Subject: [PATCH 57/70] fix: NaN and infinities of numeric could not be read,
 nor NaN sent

---
 postgresql/types/io/stdlib_decimal.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..922c6e8 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -28,6 +28,13 @@ oid_to_type = {
 #  2. digits, sequence of int()'s
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
+numeric_nan = -16384
+# The sign of the values that have no digits.
+numeric_special = {
+	numeric_nan : Decimal('NaN'),
+	-12288 : Decimal('Infinity'),
+	-4096 : Decimal('-Infinity'),
+}
 
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
@@ -41,6 +48,8 @@ def numeric_pack(x,
 	x = x.as_tuple()
 	if x.exponent == 'F':
 		raise ValueError("numeric does not support infinite values")
+	if x.exponent in ('n', 'N'):
+		return pack(((0, 0, numeric_nan, 0), ()))
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -148,6 +157,8 @@ numeric_signs = {
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] in numeric_special:
+		return numeric_special[header[2]]
 	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
-- 
2.43.0


From 63bec68b1635f4ecc5fa7a6596dc962993def314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:53 +0000
Subject: [PATCH 58/70] fix: an inet parameter was stored with a prefix length
 of zero

The address 1.2.3.4 became 1.2.3.4/0 on the server.
---
 postgresql/types/io/pg_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index a74d5e1..c3ce653 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -10,7 +10,8 @@ oid_to_type = {
 
 def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_address):
 	a = Constructor(ob)
-	return pack((a.version, None, a.packed))
+	# A prefix length of zero would make it the address of a network.
+	return pack((a.version, a.max_prefixlen, a.packed))
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
-- 
2.43.0


From a977f3dc458d9b5baf417e90874973cc40042bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:53 +0000
Subject: [PATCH 59/70] fix: the Python type of oid, xid, cid, tid, uuid,
 hstore and record was missing

Statement.column_types and the others failed with an IndexError on them.
---
 postgresql/driver/pq3.py              | 2 +-
 postgresql/types/io/contrib_hstore.py | 5 ++++-
 postgresql/types/io/pg_system.py      | 8 ++++----
 postgresql/types/io/stdlib_uuid.py    | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 7b50944..be85e63 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -502,7 +502,7 @@ class TypeIO(pg_api.TypeIO):
 
 			return process_tuple(column_unpack, data, raise_unpack_tuple_error)
 
-		return (None, _unpack_record)
+		return (None, _unpack_record, tuple)
 
 	def raise_client_error(self, error_message, cause = None, creator = None):
 		m = {
diff --git a/postgresql/types/io/contrib_hstore.py b/postgresql/types/io/contrib_hstore.py
index 9279863..613d006 100644
--- a/postgresql/types/io/contrib_hstore.py
+++ b/postgresql/types/io/contrib_hstore.py
@@ -43,6 +43,9 @@ def hstore_factory(oid, typio,
 
 	return (pack_hstore, unpack_hstore)
 
+def hstore_io_factory(oid, typio):
+	return hstore_factory(oid, typio) + (dict,)
+
 oid_to_io = {
-	'contrib_hstore' : hstore_factory,
+	'contrib_hstore' : hstore_io_factory,
 }
diff --git a/postgresql/types/io/pg_system.py b/postgresql/types/io/pg_system.py
index 70ce964..efc6503 100644
--- a/postgresql/types/io/pg_system.py
+++ b/postgresql/types/io/pg_system.py
@@ -2,9 +2,9 @@ from ...types import OIDOID, XIDOID, CIDOID, TIDOID
 from . import lib
 
 oid_to_io = {
-	OIDOID : (lib.oid_pack, lib.oid_unpack),
-	XIDOID : (lib.xid_pack, lib.xid_unpack),
-	CIDOID : (lib.cid_pack, lib.cid_unpack),
-	TIDOID : (lib.tid_pack, lib.tid_unpack),
+	OIDOID : (lib.oid_pack, lib.oid_unpack, int),
+	XIDOID : (lib.xid_pack, lib.xid_unpack, int),
+	CIDOID : (lib.cid_pack, lib.cid_unpack, int),
+	TIDOID : (lib.tid_pack, lib.tid_unpack, tuple),
 	#ACLITEMOID : (aclitem_pack, aclitem_unpack),
 }
diff --git a/postgresql/types/io/stdlib_uuid.py b/postgresql/types/io/stdlib_uuid.py
index 3fc33b9..6b8879a 100644
--- a/postgresql/types/io/stdlib_uuid.py
+++ b/postgresql/types/io/stdlib_uuid.py
@@ -10,5 +10,5 @@ def uuid_unpack(x, UUID = uuid.UUID):
 	return UUID(bytes=x)
 
 oid_to_io = {
-	UUIDOID : (uuid_pack, uuid_unpack),
+	UUIDOID : (uuid_pack, uuid_unpack, uuid.UUID),
 }
-- 
2.43.0


From d8dac638cda8e8285f05b1b6171c4af67883573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:52 +0000
Subject: [PATCH 60/70] fix: parameters of types without conversion functions
 were sent as binary

The driver documents that it uses the string format for them; the server took
the text for the type's binary form and refused it.
---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index be85e63..8873364 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1576,7 +1576,7 @@ class Statement(pg_api.Statement):
 			pack = (typio.resolve(x) or (None,None))[0]
 			packs.append(pack or typio.encode)
 			formats.append(
-				strfmt if x is None else binfmt
+				strfmt if pack is None else binfmt
 			)
 		self._input_io = tuple(packs)
 		self._input_formats = formats
-- 
2.43.0


From c50000025b015a9c9671ca6f435672ce1cb821af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:31 +0000
Subject: [PATCH 61/70] fix: float datetimes lost a microsecond to truncation

---
 postgresql/types/io/lib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..1e18460 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -1,5 +1,4 @@
 import struct
-from math import floor
 from ...python.functools import Composition as compose
 from ...python.itertools import interlace
 from ...python.structlib import \
@@ -73,10 +72,10 @@ date_negative_infinity = b'\x80\x00\x00\x00'
 # time types
 date_pack, date_unpack = long_pack, long_unpack
 
-def mktimetuple(ts, floor = floor):
+def mktimetuple(ts, divmod = divmod, round = round):
 	'make a pair of (seconds, microseconds) out of the given double'
-	seconds = floor(ts)
-	return (int(seconds), int(1000000 * (ts - seconds)))
+	# The nearest microsecond; most fractions have no exact double.
+	return divmod(round(ts * 1000000), 1000000)
 
 def mktimetuple64(ts, divmod = divmod):
 	'make a pair of (seconds, microseconds) out of the given long'
-- 
2.43.0


From e1ec417e46e9fc83eddfd5e4a7f29d7092119301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 62/70] fix: a temporary cluster could outlive its process

---
 postgresql/temporal.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index a19a845..12fdcda 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -8,7 +8,7 @@ import os
 import atexit
 import builtins
 from collections import deque
-from .cluster import Cluster, ClusterError
+from .cluster import Cluster, ClusterError, ClusterTimeoutError
 from . import installation
 from .python.socket import find_available_port
 
@@ -65,26 +65,40 @@ class Temporal(object):
 	def destroy(self):
 		# Don't destroy if it's not the initializing process.
 		if os.getpid() == self._init_pid_:
+			cluster = self.cluster
 			# Kill all the open connections.
 			try:
-				c = cluster.connection(user = 'test', database = 'template1',)
-				with c:
-					if c.version_info[:2] <= (9,1):
-						c.sys.terminate_backends()
-					else:
-						c.sys.terminate_backends_92()
+				if cluster is not None and cluster.running():
+					c = cluster.connection(user = 'test', database = 'template1',)
+					with c:
+						if c.version_info[:2] <= (9,1):
+							c.sys.terminate_backends()
+						else:
+							c.sys.terminate_backends_92()
 			except Exception:
 				# Doesn't matter much if it fails.
 				pass
-			cluster = self.cluster
 			self.cluster = None
 			self._init_pid_ = None
 			if cluster is not None:
 				cluster.stop()
-				cluster.wait_until_stopped(timeout = 5)
-				cluster.drop()
+				try:
+					cluster.wait_until_stopped(timeout = 5)
+				except ClusterTimeoutError:
+					# drop() insists.
+					pass
+				if os.path.isdir(cluster.data_directory):
+					cluster.drop()
+
+	def init(self, *args, **kw):
+		try:
+			self._init(*args, **kw)
+		except BaseException:
+			# Leave nothing of what could not be made usable.
+			self.destroy()
+			raise
 
-	def init(self,
+	def _init(self,
 		installation_factory = installation.default,
 		inshint = {
 			'hint' : "Try setting the PGINSTALLATION " \
@@ -115,8 +129,9 @@ class Temporal(object):
 		cluster = Cluster(installation, self.cluster_path,)
 
 		# If it exists already, destroy it.
-		if cluster.initialized():
+		if os.path.isdir(self.cluster_path):
 			cluster.drop()
+		self.cluster = cluster
 		cluster.encoding = 'utf-8'
 		cluster.init(
 			user = 'test', # Consistent username.
@@ -165,7 +180,6 @@ class Temporal(object):
 		c = cluster.connection(user = 'test', database = 'template1',)
 		with c:
 			c.execute('create database test')
-		self.cluster = cluster
 
 	def push(self):
 		if 'PGTEST' in os.environ:
-- 
2.43.0


From 9f43c2033f5077ae703f73145e89b50215474eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 63/70] fix: builtins were not restored after a pg_tmp block

---
 postgresql/temporal.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 12fdcda..4abf196 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -44,7 +44,7 @@ class Temporal(object):
 		'settings',
 		'prepare',
 		'sqlexec',
-		'newdb',
+		'new',
 	}
 
 	def __init__(self):
@@ -211,34 +211,28 @@ class Temporal(object):
 			'connector' : c.connector,
 			'new' : new_pg_tmp_connection,
 		}
-		if not self.builtins_stack:
-			# Store any of those set or not set.
-			current = {
-				k : builtins.__dict__[k] for k in self.builtins_keys
-				if k in builtins.__dict__
-			}
-			self.builtins_stack.append((current, []))
+		# Store any of those set or not set.
+		current = {
+			k : builtins.__dict__[k] for k in self.builtins_keys
+			if k in builtins.__dict__
+		}
 
 		# Store and push.
-		self.builtins_stack.append((local_builtins, extras))
+		self.builtins_stack.append((local_builtins, extras, current))
 		builtins.__dict__.update(local_builtins)
 		self.sandbox_id += 1
 
 	def pop(self, exc, drop_schema = ('DROP SCHEMA {0} CASCADE').format):
-		local_builtins, extras = self.builtins_stack.pop()
+		local_builtins, extras, previous = self.builtins_stack.pop()
 		self.sandbox_id -= 1
 
 		# restore __builtins__
-		if len(self.builtins_stack) > 1:
-			builtins.__dict__.update(self.builtins_stack[-1][0])
-		else:
-			previous = self.builtins_stack.popleft()
-			for x in self.builtins_keys:
-				if x in previous:
-					builtins.__dict__[x] = previous[x]
-				else:
-					# Wasn't set before.
-					builtins.__dict__.pop(x, None)
+		for x in self.builtins_keys:
+			if x in previous:
+				builtins.__dict__[x] = previous[x]
+			else:
+				# Wasn't set before.
+				builtins.__dict__.pop(x, None)
 
 		# close popped connection, but only if we're not in an interrupt.
 		# However, temporal will always terminate all backends atexit.
-- 
2.43.0


From 64aa1daaaba5aecfcb94613a26e18eafabe0477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 64/70] fix: a failing interrupt kept the connections of a
 pg_tmp block open

---
 postgresql/temporal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 4abf196..0ba7328 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -243,7 +243,11 @@ class Temporal(object):
 					# In order for a clean close of the connection,
 					# interrupt before closing. It is still
 					# possible for the close to block, but less likely.
-					xdb.interrupt()
+					try:
+						xdb.interrupt()
+					except Exception:
+						# The others are still to be closed.
+						pass
 				xdb.close()
 
 			# Interrupted and closed all the other connections at this level;
-- 
2.43.0


From b97dced1dc6acc60749df8f33bf8fc55d863d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 65/70] fix: a pg_tmp block could drop or refuse over the
 schema of another

---
 postgresql/temporal.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 0ba7328..d0e9b4a 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -35,6 +35,7 @@ class Temporal(object):
 
 	_init_pid_ = None
 	_local_id_ = 0
+	_sandbox_id_ = 0
 	builtins_keys = {
 		'connector',
 		'db',
@@ -190,7 +191,9 @@ class Temporal(object):
 			c.connect()
 
 		extras = []
-		sbid = self.format_sandbox_id(os.getpid(), self.sandbox_id + 1)
+		# Never used again, schemas of interrupted blocks remain.
+		Temporal._sandbox_id_ = self.sandbox_id = Temporal._sandbox_id_ + 1
+		sbid = self.format_sandbox_id(os.getpid(), self.sandbox_id)
 
 		def new_pg_tmp_connection(l = extras, clone = c.clone, sbid = sbid):
 			# Used to create a new connection that will be closed
@@ -220,11 +223,9 @@ class Temporal(object):
 		# Store and push.
 		self.builtins_stack.append((local_builtins, extras, current))
 		builtins.__dict__.update(local_builtins)
-		self.sandbox_id += 1
 
 	def pop(self, exc, drop_schema = ('DROP SCHEMA {0} CASCADE').format):
-		local_builtins, extras, previous = self.builtins_stack.pop()
-		self.sandbox_id -= 1
+		local_builtins, extras, previous, *sandboxes = self.builtins_stack.pop()
 
 		# restore __builtins__
 		for x in self.builtins_keys:
@@ -253,11 +254,12 @@ class Temporal(object):
 			# Interrupted and closed all the other connections at this level;
 			# now remove the sandbox schema.
 			xdb = local_builtins['db']
-			with xdb.clone() as c:
-				# Use a new connection so that the state of
-				# the context connection will not have to be
-				# contended with.
-				c.execute(drop_schema(self.format_sandbox_id(os.getpid(), self.sandbox_id + 1)))
+			for sb in sandboxes:
+				with xdb.clone() as c:
+					# Use a new connection so that the state of
+					# the context connection will not have to be
+					# contended with.
+					c.execute(drop_schema(sb))
 		else:
 			# interrupt exception; avoid waiting for close
 			pass
@@ -266,6 +268,8 @@ class Temporal(object):
 		cxn.connect()
 		sb = self.format_sandbox_id(os.getpid(), self.sandbox_id)
 		cxn.execute('CREATE SCHEMA ' + sb)
+		# It is there, and is to be dropped with the block.
+		self.builtins_stack[-1] += (sb,)
 		cxn.settings['search_path'] = ','.join((sb, cxn.settings['search_path']))
 
 	def __enter__(self):
@@ -275,7 +279,7 @@ class Temporal(object):
 		self.push()
 		try:
 			self._init_c(builtins.db)
-		except Exception as e:
+		except BaseException as e:
 			# failed to initialize sandbox schema; pop it.
 			self.pop(e)
 			raise
-- 
2.43.0


From 7e3e054ae371e6dc71b10a552fd322d167fc9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 66/70] fix: version strings of packaged installations were
 refused

---
 postgresql/installation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 5856816..2458758 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -209,7 +209,8 @@ class Installation(pg_api.Installation):
 		"""
 		self.info = info
 		self.version = self.info["version"]
-		self.type, vs = self.version.split()
+		# Packages may add their own version.
+		self.type, vs, *_ = self.version.split()
 		self.version_info = versionstring.normalize(versionstring.split(vs))
 		self.configure_options = dict(
 			parse_configure_options(self.info.get('configure', ''))
-- 
2.43.0


From 08da1b53ae9d92beb368d4fb2cd65305ad4eee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 67/70] fix: an interrupted Cluster.init() left initdb running

---
 postgresql/cluster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 7c8303d..9e3c40d 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -277,6 +277,11 @@ class Cluster(pg_api.Cluster):
 			except sp.TimeoutExpired:
 				p.kill()
 				stdout, stderr = p.communicate()
+			except BaseException:
+				# Interrupted; it must not go on by itself.
+				p.kill()
+				p.wait()
+				raise
 			finally:
 				rc = p.returncode
 
-- 
2.43.0


From 90526c866132000f965e554309da752b4098e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:33 +0000
Subject: [PATCH 68/70] fix: statements known by name could not be streamed
 outside a transaction

SingleXactFetch, which Statement.chunks() and rows() use for a statement
obtained with statement_from_id() outside of a transaction block, did not
define how a chunk is processed.
---
 postgresql/driver/pq3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8873364..ffc2aff 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -982,6 +982,7 @@ class SingleXactCopy(FetchAll):
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
+	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
-- 
2.43.0


From 0e791f9789feac9ae8f8137c757b058fe48d9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:33 +0000
Subject: [PATCH 69/70] fix: keyword arguments of stored procedures were
 unusable

StoredProcedure.__call__ used names which are not defined in Python 3, and
the positions of the named arguments counted OUT arguments as well.
---
 postgresql/driver/pq3.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ffc2aff..2df0a9a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1904,23 +1904,24 @@ class StoredProcedure(pg_api.StoredProcedure):
 
 	def __call__(self, *args, **kw):
 		if kw:
-			input = []
-			argiter = iter(args)
 			try:
-				word_idx = [(kw[k], self._input_attmap[k]) for k in kw]
+				words = {self._input_attmap[k] : kw[k] for k in kw}
 			except KeyError as k:
 				raise TypeError("%s got unexpected keyword argument %r" %(
-						self.name, k.message
+						self.name, k.args[0]
 					)
 				)
-			word_idx.sort(key = get1)
-			current_word = word_idx.pop(0)
-			for x in range(argc):
-				if x == current_word[1]:
-					input.append(current_word[0])
-					current_word = word_idx.pop(0)
-				else:
-					input.append(argiter.next())
+			argc = len(self.statement.pg_parameter_types)
+			if len(args) + len(words) != argc:
+				raise TypeError("%s requires %d arguments, given %d" %(
+						self.name, argc, len(args) + len(words)
+					)
+				)
+			argiter = iter(args)
+			input = [
+				words[x] if x in words else next(argiter)
+				for x in range(argc)
+			]
 		else:
 			input = args
 
@@ -1953,10 +1954,15 @@ class StoredProcedure(pg_api.StoredProcedure):
 
 		self._input_attmap = {}
 		argnames = proctup.get('proargnames') or ()
+		# OUT arguments have names as well, but they are not given.
+		argmodes = proctup.get('proargmodes')
+		argpos = 0
 		for x in range(len(argnames)):
-			an = argnames[x]
-			if an is not None:
-				self._input_attmap[an] = x
+			if argmodes is not None and argmodes[x] not in (b'i', b'b', b'v'):
+				continue
+			if argnames[x]:
+				self._input_attmap[argnames[x]] = argpos
+			argpos += 1
 
 		proargs = proctup['proargtypes']
 		for x in proargs:
-- 
2.43.0


From 0efd6f85d8de9937ea6a25c63852ec860db40c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:15 +0000
Subject: [PATCH 70/70] fix: any message was taken for the reply to a password

Negotiation parsed whatever followed the password message as an
authentication message, without checking its type.
---
 postgresql/protocol/xact3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index eccd0c2..244a00b 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -214,6 +214,17 @@ class Negotiation(Transaction):
 				self.unsupported_auth_request(req)
 				return
 			x = (yield (element.Password(pw),))
+			if x[0] != element.Authentication.type:
+				self.fatal = True
+				self.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08P01'),
+					(b'M', message_expectation(
+						expected = element.Authentication.type,
+						received = x[0],
+					)),
+				))
+				return
 
 			self.authok = element.Authentication.parse(x[1])
 			if self.authok.request != element.AuthRequest_OK:
-- 
2.43.0

