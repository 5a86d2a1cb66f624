From 2ebae187e56261b1d238fa7d36ea4d76a2f4312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 001/153] fix: index message_types with an unsigned message
 type byte

A type byte >= 0x80 is a negative char and read outside the tuple.
---
 postgresql/port/_optimized/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..5688497 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
-- 
2.43.0


From 85b0c8497965ac8ffbdce9f3be8c87aadcb35df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 002/153] fix: pq_message_stream.read() propagates the
 ValueError of an invalid size

p_length() gives -1 with an exception set; passing it on to PyTuple_New
replaced the ValueError with a SystemError.
---
 postgresql/port/_optimized/buffer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index 5688497..01bf708 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -417,6 +417,8 @@ p_read(PyObject *self, PyObject *args)
 	p.offset = pb->position.offset;
 
 	msg_in = p_length(self);
+	if (msg_in < 0)
+		return(NULL);
 	msg_count = msg_count < msg_in && msg_count != -1 ? msg_count : msg_in;
 
 	rob = PyTuple_New(msg_count);
-- 
2.43.0


From c110ee56dbaabb65af9fee56bec5727c6e0ad10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 003/153] fix: accept NoData as the response to DescribePortal

Portals of statements that return no rows are described with NoData
without any preceding ParameterDescription.
---
 postgresql/protocol/xact3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..21071bf 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -338,6 +338,7 @@ class Instruction(Transaction):
 			# Still needs the descriptor.
 			{
 				element.AttributeTypes.type : (element.AttributeTypes.parse, 1),
+				element.NoData.type : (element.NoData.parse, None),
 				element.TupleDescriptor.type : (
 					element.TupleDescriptor.parse, None
 				),
-- 
2.43.0


From 6f59d2ebc79ca44de9086d32a7a6f326418b0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 004/153] fix: process responses to an Instruction that starts
 with Flush

---
 postgresql/protocol/xact3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 21071bf..a3798f3 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -478,6 +478,9 @@ class Instruction(Transaction):
 			offset, current_step = self.last[2]
 			# it's a new set, so we can clear the asyncs record.
 			self._asyncs = []
+		# Flush has no responses, so a leading one is not being answered.
+		while HOOK[COMMANDS[offset].type] is None:
+			offset += 1
 		cmd = COMMANDS[offset]
 		paths = HOOK[cmd.type]
 		processed = []
-- 
2.43.0


From 0d276c945587b9f1a8c0d090bc3c9e9cde11d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 005/153] fix: deliver equal asynchronous messages that arrive
 in one read

The record of processed messages is meant to avoid processing a message
again when the set is put again, not to drop a second message that happens
to be equal to an earlier one of the set (two identical notifications).
---
 postgresql/protocol/xact3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index a3798f3..1356e37 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -527,7 +527,7 @@ class Instruction(Transaction):
 					current_step = 0
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					if count not in self._asyncs:
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
@@ -536,7 +536,7 @@ class Instruction(Transaction):
 							# notify the user, but continue...
 							sys.excepthook(*sys.exc_info())
 						# it's been processed, so don't process it again.
-						self._asyncs.append(x)
+						self._asyncs.append(count)
 				else:
 					##
 					# Procotol violation.
-- 
2.43.0


From 0a0f44ddda3c4da7bca2ebf83790ae4ef9250574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 006/153] fix: judge an error's severity by its non-localized
 field

With lc_messages set to another language, the 'S' field of a plain error is
not 'ERROR' and the connection was considered dead.
---
 postgresql/protocol/xact3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 1356e37..193b700 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -497,7 +497,8 @@ class Instruction(Transaction):
 				if x[0] == ERROR_TYPE:
 					em = ERROR_PARSE(x[1])
 					# Is it fatal?
-					self.fatal = fatal = em[b'S'].upper() != b'ERROR'
+					# The 'S' field is localized, 'V' is not. (9.6 and later)
+					self.fatal = fatal = (em.get(b'V') or em[b'S']).upper() != b'ERROR'
 					self.error_message = em
 					if fatal is True:
 						# Can't sync up if the session is closed.
-- 
2.43.0


From ce0b23bfe306f2e0b4b3ecb04de4478ea1fece4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 007/153] fix: step() does not process a failed read or write

The transaction was already marked complete and fatal; running the operation
on top of it put it back into a live state or raised IndexError (COPY).
---
 postgresql/protocol/client3.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..201c938 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -414,14 +414,14 @@ class Connection(object):
 		try:
 			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
-				# The "op" callable will either switch the state, or
-				# set the 'messages' attribute with a new sequence
-				# of message objects for more writing.
-				op()
+				if self.write_messages(x.messages):
+					# The "op" callable will either switch the state, or
+					# set the 'messages' attribute with a new sequence
+					# of message objects for more writing.
+					op()
 			elif dir is xact.Receiving:
-				self.read_messages()
-				self.read = self.read[op(self.read):]
+				if self.read_messages():
+					self.read = self.read[op(self.read):]
 				self.state = getattr(x, 'last_ready', self.state)
 			else:
 				raise RuntimeError(
-- 
2.43.0


From 443a11293f8a8cf794ca24efa7fa9da2924d72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 008/153] fix: accept Ready after a failed Function request

The path of Function expects a result first, so the Ready that follows an
error was taken as a protocol violation and the connection was lost.
---
 postgresql/protocol/xact3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 193b700..848514c 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -525,7 +525,8 @@ class Instruction(Transaction):
 					cmd = COMMANDS[offset]
 					paths = HOOK[cmd.type]
 					# On a new command, setup the new step.
-					current_step = 0
+					# (the only thing left to a failed Function is Ready)
+					current_step = 1 if cmd.type == element.Function.type else 0
 					continue
 				elif x[0] in AsynchronousMap:
 					if count not in self._asyncs:
-- 
2.43.0


From c1dea16c1a5412b2aa326d8bf63c5d156d50db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 009/153] fix: do not switch to a COPY or row state after an
 error in the same read

When a response that starts a COPY and the error that ends it were read
together, a failed simple query was put into the state for COPY data.
---
 postgresql/protocol/xact3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 848514c..ae6e0f3 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -596,7 +596,8 @@ class Instruction(Transaction):
 		if offset == NCOMMANDS:
 			# transaction complete.
 			self.state = Complete
-		elif cmd.type in SWITCH_TYPES and processed:
+		elif cmd.type in SWITCH_TYPES and current_step and processed:
+			# (the current step is zero if the command failed since)
 			# Check the context to identify if the state should be
 			# switched to an optimized processor.
 			last = processed[-1]
-- 
2.43.0


From 376bfb15dc00f7572e7253ae86a4e57452872acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 010/153] fix: record a reported setting even if a subscriber
 raises

---
 postgresql/driver/pq3.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..8d094b3 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2059,12 +2059,14 @@ class Settings(pg_api.Settings):
 		d = self.database.typio._decode
 		key = d(msg.name)[0]
 		val = d(msg.value)[0]
-		for x in subs.get(key, ()):
-			x(self.database, key, val)
-		if None in subs:
-			for x in subs[None]:
+		try:
+			for x in subs.get(key, ()):
 				x(self.database, key, val)
-		self.cache[key] = val
+			if None in subs:
+				for x in subs[None]:
+					x(self.database, key, val)
+		finally:
+			self.cache[key] = val
 
 	def subscribe(self, key, callback):
 		"""
-- 
2.43.0


From c11da7851447a2d4f50d33976366274305a47499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 011/153] fix: finish a failed fetch before raising its error

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8d094b3..0c0d86d 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -939,6 +939,10 @@ class FetchAll(Chunks):
 		# fatal is True == dead connection
 		# fatal is False == dead transaction
 		if x.fatal is not None:
+			if self.database.pq.xact is x:
+				# The error was seen before the end of the protocol transaction.
+				# Finish it here, or the next operation would raise it again.
+				self.database.pq.complete()
 			self.database.typio.raise_error(x.error_message, creator = getattr(self, '_controller', self) or self)
 
 		# no messages to process?
-- 
2.43.0


From 5e0e53b8e26cebe30581e89adb0f76aa0f89c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 012/153] fix: deliver asynchronous messages that arrive while
 closing garbage

---
 postgresql/driver/pq3.py       | 1 +
 postgresql/protocol/client3.py | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 0c0d86d..8191d60 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2519,6 +2519,7 @@ class Connection(pg_api.Connection):
 			# The startup/negotiation xact completed.
 			if pq.xact is None:
 				self.pq = pq
+				pq.asynchook = self._receive_async
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 201c938..b9112c5 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -73,6 +73,9 @@ class Connection(object):
 	connection must check for failures. This is done to encourage users
 	to use their own Exception hierarchy.
 	"""
+	# What receives the asynchronous messages of the transactions
+	# that the connection makes on its own.
+	asynchook = staticmethod(xact.return_arg)
 	_tracer = None
 	def tracer():
 		def fget(self):
@@ -99,7 +102,7 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
-		x = xact.Instruction((element.SynchronizeMessage,))
+		x = xact.Instruction((element.SynchronizeMessage,), asynchook = self.asynchook)
 		self.xact = x
 		self.complete()
 
@@ -376,7 +379,7 @@ class Connection(object):
 			xm.append(element.CloseStatement(x))
 			statements += 1
 		xm.append(element.SynchronizeMessage)
-		x = xact.Instruction(xm)
+		x = xact.Instruction(xm, asynchook = self.asynchook)
 		self.xact = x
 		del self.garbage_cursors[:cursors]
 		del self.garbage_statements[:statements]
-- 
2.43.0


From e3627435efaf49ac83b562672366186ed4ed90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 013/153] fix: deliver all asynchronous messages of the
 connection's start-up

---
 postgresql/driver/pq3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8191d60..c9b30b9 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -5,6 +5,7 @@
 PG-API interface for PostgreSQL using PQ version 3.0.
 """
 import os
+import sys
 import weakref
 import socket
 from traceback import format_exception
@@ -2523,10 +2524,12 @@ class Connection(pg_api.Connection):
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
-				showoption_type = element.ShowOption.type
 				for x in neg.asyncs:
-					if x.type == showoption_type:
+					try:
 						self._receive_async(x)
+					except Exception:
+						# Like Instruction: notify the user, but continue...
+						sys.excepthook(*sys.exc_info())
 				# success!
 				break
 			elif pq.socket is not None:
-- 
2.43.0


From 30995ff185c7e8fca5072deca86e41f09ba47e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 014/153] fix: an operation fails if the connection was lost
 while closing garbage

---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c9b30b9..1d87ee4 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2619,6 +2619,11 @@ class Connection(pg_api.Connection):
 		if controller is not None:
 			self._controller = controller
 		self.pq.push(xact)
+		x = self.pq.xact
+		if x is not None and x is not xact:
+			# The connection was lost while closing garbage;
+			# `xact` has not been started.
+			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None))
 
 	# Complete the current protocol transaction.
 	def _pq_complete(self):
-- 
2.43.0


From 275fc1de4e412f2691bb942d124b23931c3d7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 015/153] fix: a socket error without strerror is fatal to the
 connection too

---
 postgresql/python/socket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/socket.py b/postgresql/python/socket.py
index 6587d4c..e55864d 100644
--- a/postgresql/python/socket.py
+++ b/postgresql/python/socket.py
@@ -46,7 +46,7 @@ class SocketFactory(object):
 		"""
 		if typ.try_again(err):
 			return None
-		return getattr(err, 'strerror', '<strerror not present>')
+		return getattr(err, 'strerror', None) or str(err) or '<strerror not present>'
 
 	@property
 	def _security_context(self):
-- 
2.43.0


From 61d8fa3b1edf5ddccb78d8ae227dc265d15b6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 016/153] fix: apply the reported client_encoding before
 decoding start-up notices

---
 postgresql/driver/pq3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1d87ee4..a212467 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2524,7 +2524,10 @@ class Connection(pg_api.Connection):
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
-				for x in neg.asyncs:
+				# Settings first; client_encoding decides how to decode the others.
+				for x in sorted(neg.asyncs,
+					key = lambda x: x.type != element.ShowOption.type
+				):
 					try:
 						self._receive_async(x)
 					except Exception:
-- 
2.43.0


From 1d97bb81b0354eab7815c49460df233d03712e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 017/153] fix: operations on a connection that failed to
 connect raise its error

---
 postgresql/driver/pq3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a212467..2d6b3f0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2437,7 +2437,7 @@ class Connection(pg_api.Connection):
 			# already connected? just return.
 			return
 
-		if hasattr(self, 'pq'):
+		if getattr(self, 'pq', None) is not None:
 			# It's closed, *but* there's a PQ connection..
 			x = self.pq.xact
 			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None), creator = self)
@@ -2574,6 +2574,9 @@ class Connection(pg_api.Connection):
 			failures.append(pq)
 		else:
 			# No servers available. (see the break-statement in the for-loop)
+			# This is terminal, operations will report the last failure.
+			if failures:
+				self.pq = failures[-1]
 			self.failures = failures or ()
 			# it's over.
 			self.typio.raise_client_error(could_not_connect, creator = self, cause = exc)
@@ -2583,9 +2586,6 @@ class Connection(pg_api.Connection):
 
 		sv = self.settings.cache.get("server_version", "0.0")
 		self.version_info = pg_version.normalize(pg_version.split(sv))
-		# manual binding
-		self.sys = pg_lib.Binding(self, pg_lib.sys)
-
 		vi = self.version_info[:2]
 		if vi <= (8,1):
 			sd = self.sys.startup_data_only_version()
@@ -2751,6 +2751,8 @@ class Connection(pg_api.Connection):
 		self.typio = self.connector.driver.typio(self)
 		self.typio.set_encoding('ascii')
 		self.settings = Settings(self)
+		# manual binding
+		self.sys = pg_lib.Binding(self, pg_lib.sys)
 # class Connection
 
 class Connector(pg_api.Connector):
-- 
2.43.0


From 25c8d6072f9395c6636097da3c5f5412422013c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 018/153] fix: synchronize() does not revive a lost connection

---
 postgresql/protocol/client3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index b9112c5..0530a7f 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -102,6 +102,9 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
+		if self.xact is not None:
+			# The connection is lost; keep the transaction that says so.
+			return
 		x = xact.Instruction((element.SynchronizeMessage,), asynchook = self.asynchook)
 		self.xact = x
 		self.complete()
-- 
2.43.0


From 535d11380a33f86185f4c8791ada858295104fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 019/153] fix: report the actual failure when a COPY FROM STDIN
 cannot be started

---
 postgresql/driver/pq3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 2d6b3f0..bfd23ef 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1761,6 +1761,9 @@ class Statement(pg_api.Statement):
 				# The protocol transaction has noticed that its a COPY.
 				break
 		else:
+			if x.fatal is not None:
+				# It failed before the COPY started.
+				self.database.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None), creator = self)
 			# Oh, it's not a COPY at all.
 			x.fatal = x.fatal or False
 			x.error_message = element.ClientError((
-- 
2.43.0


From 0682d5a53cd5145d4f5db057a30945e906b97f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 020/153] fix: a connection lost during the SSL request is a
 failed attempt

---
 postgresql/protocol/client3.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 0530a7f..bd5f663 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -166,7 +166,19 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				supported = self.negotiate_ssl()
+			except self.socket_factory.fatal_exception as err:
+				self.xact.state = xact.Complete
+				self.xact.fatal = True
+				self.xact.exception = err
+				self.xact.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08006'),
+					(b'M', self.socket_factory.fatal_exception_message(err) or "could not negotiate SSL"),
+				))
+				return
+			self.ssl_negotiation = supported
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
-- 
2.43.0


From 49c37db54c755b685ac42b444232907aa3a4ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 021/153] fix: only skip the second attempt on a host that
 could not be reached

---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index bfd23ef..d813299 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2551,8 +2551,8 @@ class Connection(pg_api.Connection):
 				# *not* be ran because it has already been noted to be
 				# a failure.
 				can_skip = True
-			elif hasattr(pq.xact, 'exception'):
-				# If a Python exception occurred, chances are that it is
+			elif pq.socket is None:
+				# If the host could not be reached, chances are that it is
 				# going to fail again iff it is going to hit the same host.
 				if sslmode == 'prefer' and ssl is False:
 					# when 'prefer', the first attempt
-- 
2.43.0


From 64975b52d813bfc14d45b81d703460f86c71fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 022/153] fix: polling for notifications checks the wires

---
 postgresql/notifyman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..ab116c1 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -195,7 +195,8 @@ class NotificationManager(object):
 		return self
 
 	def __next__(self, time = time):
-		checked_wire = True
+		# When polling, the wires are checked before giving up.
+		checked_wire = self.timeout != 0
 		# Loop until NOTIFY received or timeout.
 		while True:
 			if self.incoming is not None:
-- 
2.43.0


From 69b3f64f35e119aee26a9ca2cced158ed372b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 023/153] fix: notice notifications that were read along with
 other messages

---
 postgresql/notifyman.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index ab116c1..761d529 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -77,7 +77,13 @@ class NotificationManager(object):
 				self.garbage.add(db)
 		check = self.connections - self.garbage
 
+		# Messages that have already been read cannot be seen by select().
+		pending = [db for db in check if db.pq.read]
+		if pending:
+			max_duration = 0
+
 		r, w, x = select(check, (), check, max_duration)
+		r.extend(db for db in pending if db not in r)
 		# Make sure the connection's _notifies get filled.
 		for db in r:
 			# Collect any pending events.
-- 
2.43.0


From 24a63a9f1ce7d1d79f8681cffcab28f020e04bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 024/153] fix: emit the notifications received by a connection
 before it failed

---
 postgresql/notifyman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 761d529..eff979e 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -122,7 +122,8 @@ class NotificationManager(object):
 
 	# Check the connection's _notifies list; just scan everything.
 	def _pull_from_connections(self):
-		for db in self.connections:
+		# Failed connections may have received some prior to the failure.
+		for db in chain(self.connections, self.garbage):
 			if not db._notifies:
 				# nothing queued up, look at the next connection
 				continue
-- 
2.43.0


From 57648fa81a0ae7bac0ec2714fa0b690171e29163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 025/153] fix: quote the channel names given to listen() and
 unlisten()

---
 postgresql/driver/pq3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index d813299..f25b9b2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2720,18 +2720,18 @@ class Connection(pg_api.Connection):
 		qstr = ''
 		for x in channels:
 			# XXX: hardcoded identifier length?
-			if len(x) > 63:
+			if len(self.typio.encode(x)) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; LISTEN ' + x.replace('"', '""')
+			qstr += '; LISTEN ' + quote_ident(x)
 		return self.execute(qstr)
 
 	def unlisten(self, *channels, len = len):
 		qstr = ''
 		for x in channels:
 			# XXX: hardcoded identifier length?
-			if len(x) > 63:
+			if len(self.typio.encode(x)) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; UNLISTEN ' + x.replace('"', '""')
+			qstr += '; UNLISTEN ' + quote_ident(x)
 		return self.execute(qstr)
 
 	def iternotifies(self, timeout = None):
-- 
2.43.0


From b1d3587df6f8cfb4bfdac33567f07911e6f8b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 026/153] fix: do not interrupt a COPY to look for
 notifications

---
 postgresql/notifyman.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index eff979e..8390742 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -22,6 +22,7 @@ iterator for a NOTIFY event loop against a set of connections.
 from time import time
 from select import select
 from itertools import chain
+from .protocol.xact3 import Instruction, Receiving, Sending
 
 class NotificationManager(object):
 	"""
@@ -75,7 +76,12 @@ class NotificationManager(object):
 			if db.closed:
 				self.connections.remove(db)
 				self.garbage.add(db)
-		check = self.connections - self.garbage
+		# Connections with a COPY in progress cannot be interrupted;
+		# the notifications will be collected by the COPY.
+		check = {
+			db for db in self.connections - self.garbage
+			if not self._copying(db)
+		}
 
 		# Messages that have already been read cannot be seen by select().
 		pending = [db for db in check if db.pq.read]
@@ -98,6 +104,14 @@ class NotificationManager(object):
 				x.append(db)
 		self.trash(x)
 
+	@staticmethod
+	def _copying(db):
+		x = db.pq.xact
+		return isinstance(x, Instruction) and x.state in (
+			(Receiving, x.put_copydata),
+			(Sending, x.sent_from_stdin),
+		)
+
 	def trash(self, connections):
 		"""
 		Remove the given connections from the set of good connections, and add
-- 
2.43.0


From 9f5ca2ac53111a14bf76abbe532318f3d5235fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 027/153] fix: polling checks the wires before it ends

---
 postgresql/notifyman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 8390742..7db81a3 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -230,7 +230,7 @@ class NotificationManager(object):
 					# that there are no NOTIFYs to be read.
 					# This can be used to poll a set of
 					# connections instead of listening.
-					if self.timeout == 0 or not self.connections:
+					if (self.timeout == 0 and checked_wire) or not self.connections:
 						raise
 
 			# timeout happened? yield the "idle" event.
-- 
2.43.0


From 72a279d88ca0998fa4284800c4ce1dac0c14572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 028/153] fix: messages received while preparing a statement
 can be rendered

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f25b9b2..0244704 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1308,6 +1308,10 @@ class Statement(pg_api.Statement):
 				except:
 					import traceback
 					yield ('LINE', traceback.format_exc(chain=False))
+		if self.closed is None and (self._xact is None or self._xact.state is not xact.Complete):
+			# Still being prepared; don't complete it here. The element may be
+			# the creator of a message received by that transaction.
+			return
 		spt = self.sql_parameter_types
 		if spt is not None:
 			yield ('sql_parameter_types', spt)
-- 
2.43.0


From 8d2007e2c39d8a7e25ec10415f847638bc3b9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 029/153] fix: interrupt() waits until the server has processed
 the request

---
 postgresql/protocol/client3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index bd5f663..23a7f63 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -114,6 +114,12 @@ class Connection(object):
 		s = self.socket_factory(timeout = timeout)
 		try:
 			s.sendall(cq)
+			# The server hangs up after the request has been processed.
+			# Wait for it, or it may interrupt a subsequent operation.
+			try:
+				s.recv(1)
+			except self.socket_factory.fatal_exception:
+				pass
 		finally:
 			s.close()
 
-- 
2.43.0


From 5d9f695bc983b4ff11a171de94c68c906138d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 030/153] fix: a managed copy that was left early fails and
 commits nothing

---
 postgresql/copyman.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..4c8f97c 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -707,6 +707,13 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		# Realignment stops the producer too, but that does not mean that
+		# the producer was exhausted.
+		exhausted = self._seen_stop_iteration
+		if typ is None and not exhausted:
+			# Don't let the receivers commit a part of the data.
+			typ = CopyFail
+
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
@@ -740,7 +747,7 @@ class CopyManager(Element, Iterator):
 			except Exception as e:
 				exit_faults[x] = e
 
-		if typ or exit_faults or profail or not self._seen_stop_iteration:
+		if typ or exit_faults or profail:
 			raise CopyFail(self,
 				"could not complete the COPY operation",
 				receiver_faults = exit_faults or None,
-- 
2.43.0


From facaed829ce1a313317a3bbb814edd2c5befe294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 031/153] fix: seeking a cursor with backward direction mirrors
 every whence

---
 postgresql/driver/pq3.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 0244704..927b8ab 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1173,22 +1173,29 @@ class Cursor(Output, pg_api.Cursor):
 
 		if offset == 'ALL':
 			if rwhence not in ('BACKWARD', 'FORWARD'):
-				rwhence = 'BACKWARD' if self.direction is False else 'FORWARD'
-		else:
-			if offset < 0 and rwhence == 'BACKWARD':
-				offset = -offset
 				rwhence = 'FORWARD'
 
-			if self.direction is False:
-				if offset == 'ALL' and rwhence != 'FORWARD':
-					rwhence = 'BACKWARD'
-				else:
-					if rwhence == 'RELATIVE':
-						offset = -offset
-					elif rwhence == 'ABSOLUTE':
-						rwhence = 'FROM_END'
-					else:
-						rwhence = 'ABSOLUTE'
+		if self.direction is False:
+			# Invert it; the cursor is reversely ordered.
+			if rwhence == 'FORWARD':
+				rwhence = 'BACKWARD'
+			elif rwhence == 'BACKWARD':
+				rwhence = 'FORWARD'
+			elif rwhence == 'RELATIVE':
+				offset = -offset
+			elif rwhence == 'FROM_END':
+				# There is nothing past the end.
+				offset = max(offset, 0)
+				rwhence = 'ABSOLUTE'
+			elif offset < 0:
+				# Relative to the end, which is where the rows start.
+				offset = -offset
+			else:
+				rwhence = 'FROM_END'
+
+		if offset != 'ALL' and offset < 0 and rwhence == 'BACKWARD':
+			offset = -offset
+			rwhence = 'FORWARD'
 
 		if rwhence in ('RELATIVE', 'BACKWARD', 'FORWARD'):
 			if offset == 'ALL':
-- 
2.43.0


From ea9832c6af6a0af9ba81a0a3a845a71eec636dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 032/153] fix: an unknown whence number given to seek() is a
 TypeError

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 927b8ab..88d8683 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1164,7 +1164,7 @@ class Cursor(Output, pg_api.Cursor):
 
 	def seek(self, offset, whence = 'ABSOLUTE'):
 		rwhence = self._seek_whence_map.get(whence, whence)
-		if rwhence is None or rwhence.upper() not in \
+		if not isinstance(rwhence, str) or rwhence.upper() not in \
 		self._seek_whence_map.values():
 			raise TypeError(
 				"unknown whence parameter, %r" %(whence,)
-- 
2.43.0


From 588366b9ac5e3c08e359f140e89c7adff92ca025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 033/153] fix: leaving a transaction takes a result still being
 received into account

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 88d8683..ed2080e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2141,6 +2141,10 @@ class Transaction(pg_api.Transaction):
 		return self
 
 	def __exit__(self, typ, value, tb):
+		if not self.database.closed and self.database.pq.xact is not None:
+			# Finish the running operation first. If it fails,
+			# it has an effect on the state of the transaction.
+			self.database.pq.complete()
 		if typ is None:
 			# No exception, but in a failed transaction?
 			if self.database.pq.state == b'E':
-- 
2.43.0


From 72a54c4211d1fb307d563885b500515b23462f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 034/153] fix: leaving a transaction with any exception rolls
 it back

---
 postgresql/driver/pq3.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ed2080e..fa07976 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2170,12 +2170,11 @@ class Transaction(pg_api.Transaction):
 						self.state = 'open'
 						self.rollback()
 					raise
-		elif issubclass(typ, Exception):
+		elif not self.database.closed:
 			# There's an exception, so only rollback if the connection
 			# exists. If the rollback() was called here, it would just
 			# contribute noise to the error.
-			if not self.database.closed:
-				self.rollback()
+			self.rollback()
 
 	@staticmethod
 	def _start_xact_string(isolation = None, mode = None):
-- 
2.43.0


From 26fd97b5e6fc29f399e42a7ea965c52036443ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 035/153] fix: a transaction whose commit failed is aborted

---
 postgresql/driver/pq3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index fa07976..f45a18a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2246,7 +2246,14 @@ class Transaction(pg_api.Transaction):
 			q = 'COMMIT'
 		else:
 			q = self._release_string(hex(id(self)))
-		self.database.execute(q)
+		try:
+			self.database.execute(q)
+		except pg_exc.Error:
+			if self.type == 'block' and not self.database.closed \
+			and self.database.pq.state == b'I':
+				# The server rolled it back.
+				self.state = 'aborted'
+			raise
 		self.state = 'committed'
 
 	@staticmethod
-- 
2.43.0


From b621327192d1566a6f3eb5cfbab30d5b8ea7a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 036/153] fix: column() handles NULLs and reports the item it
 cannot decode

---
 postgresql/driver/pq3.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f45a18a..dcc7931 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -753,17 +753,15 @@ class Output(object):
 		unpack = self._output_io[0]
 		# get the raw data for the first column
 		l = [y[0] for y in x]
-		# iterate over the range to keep track
-		# of which item we're processing.
-		r = range(len(l))
+		# keep track of which item we're processing.
+		i = 0
+		r = []
 		try:
-			return [unpack(l[i]) for i in r]
+			for i in range(len(l)):
+				r.append(None if l[i] is None else unpack(l[i]))
+			return r
 		except Exception:
 			cause = sys.exc_info()[1]
-		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
 		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
 
 	# Process the element.Tuple message in x for rows()
-- 
2.43.0


From 0bbe8ea7faf47cdb4535d48ffbbe5ce605b2a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 037/153] fix: chunks() of a statement opened by its identifier
 outside of a transaction block

---
 postgresql/driver/pq3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index dcc7931..f2af3ec 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -976,6 +976,7 @@ class SingleXactCopy(FetchAll):
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
+	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
-- 
2.43.0


From 05f1b4c6b35eff0908f340c9c02003565c0ca667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 038/153] fix: an interrupted chunk stream does not end as if
 it were complete

---
 postgresql/driver/pq3.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f2af3ec..0f822ba 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1017,6 +1017,12 @@ class MultiXactStream(Chunks):
 
 		if self.database.pq.xact is x:
 			self.database._pq_complete()
+		if x.fatal is not None:
+			# It was completed by another operation; the rows received
+			# before the error are not the complete result.
+			self.database.typio.raise_error(
+				x.error_message, cause = getattr(x, 'exception', None), creator = self
+			)
 
 		# get all the element.Tuple messages
 		chunk = [
@@ -1024,8 +1030,11 @@ class MultiXactStream(Chunks):
 		]
 		if len(chunk) == self.chunksize:
 			# there may be more, dispatch the request for the next chunk
-			self._xact = self._ins(self._command)
-			self.database._pq_push(self._xact, self)
+			more = self._ins(self._command)
+			self.database._pq_push(more, self)
+			# Not earlier: _pq_push() may raise the error of another operation,
+			# and the chunk has to be available to the next attempt then.
+			self._xact = more
 		else:
 			# it's done.
 			self._xact = None
-- 
2.43.0


From 485e590a8c3c26b1c89a4d7a6c3e93e4ba290956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 039/153] fix: decoding failures of cursors opened by their
 identifier are reported

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 0f822ba..e9f2047 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -793,7 +793,7 @@ class Output(object):
 					itemnum,
 					self.column_names[itemnum],
 					self.database.typio.sql_type_from_oid(
-						self.statement.pg_column_types[itemnum]
+						self.pg_column_types[itemnum]
 					) or '<unknown>',
 				)
 			),
-- 
2.43.0


From b7ac7112a8be6780239bc0353f6ab9424ffa87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 040/153] fix: first() reports a value it cannot decode like
 the other interfaces

---
 postgresql/driver/pq3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index e9f2047..1a4a4c3 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1724,10 +1724,10 @@ class Statement(pg_api.Statement):
 				)
 			else:
 				# Single column output.
-				if xt[0] is None:
-					return None
-				io = self._output_io[0] or self.database.typio.decode
-				return io(xt[0])
+				return process_tuple(
+					self._output_io, xt,
+					self._raise_column_tuple_error
+				)[0]
 		else:
 			##
 			# It doesn't return rows, so return a count.
-- 
2.43.0


From 509047dec85d33a93295e06ea1bff564728b4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 041/153] fix: a closed chunk stream does not go on reading

---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1a4a4c3..b334256 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -926,7 +926,7 @@ class FetchAll(Chunks):
 	):
 		x = self._xact
 		# self._xact = None; means that the cursor has been exhausted.
-		if x is None:
+		if x is None or self.closed:
 			raise StopIteration
 
 		# Finish the protocol transaction.
@@ -1012,7 +1012,7 @@ class MultiXactStream(Chunks):
 
 	def __next__(self, tuple_type = tuple):
 		x = self._xact
-		if x is None:
+		if x is None or self.closed:
 			raise StopIteration
 
 		if self.database.pq.xact is x:
-- 
2.43.0


From c5f2f876bb980c59fc589bdbb7870fe14eee6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 042/153] fix: a closed statement refuses further use

---
 postgresql/driver/pq3.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index b334256..cf239f7 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1508,6 +1508,21 @@ class Statement(pg_api.Statement):
 			self.database.pq.trash_statement(self._pq_statement_id)
 		self.closed = True
 
+	def _ready(self):
+		"""
+		Complete the initialization, and refuse the use of a closed statement.
+		"""
+		if self.closed is None:
+			self._fini()
+		elif self.closed:
+			em = element.ClientError((
+				(b'S', 'ERROR'),
+				# StatementNameError
+				(b'C', '26000'),
+				(b'M', "statement is closed"),
+			))
+			self.database.typio.raise_client_error(em, creator = self)
+
 	def _init(self):
 		"""
 		Push initialization messages to the server, but don't wait for
@@ -1586,6 +1601,7 @@ class Statement(pg_api.Statement):
 		self._xact = None
 
 	def __call__(self, *parameters):
+		self._ready()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
@@ -1614,8 +1630,7 @@ class Statement(pg_api.Statement):
 		return r
 
 	def declare(self, *parameters):
-		if self.closed is None:
-			self._fini()
+		self._ready()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
@@ -1631,8 +1646,7 @@ class Statement(pg_api.Statement):
 	__iter__ = rows
 
 	def chunks(self, *parameters):
-		if self.closed is None:
-			self._fini()
+		self._ready()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
@@ -1663,9 +1677,7 @@ class Statement(pg_api.Statement):
 		return chain.from_iterable(chunks)
 
 	def first(self, *parameters):
-		if self.closed is None:
-			# Not fully initialized; assume interrupted.
-			self._fini()
+		self._ready()
 		if self._input is not None:
 			# Use a regular TypeError.
 			if len(parameters) != len(self._input):
@@ -1860,8 +1872,7 @@ class Statement(pg_api.Statement):
 		In cases of ``COPY ... FROM STDIN``, iterable must be an iterable of
 		sequences of `bytes`.
 		"""
-		if self.closed is None:
-			self._fini()
+		self._ready()
 		if not self._input or parameters:
 			return self._load_copy_chunks(chunks)
 		else:
-- 
2.43.0


From a4b35c2cfbc9857508d52a07732a840f2bf9fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 043/153] fix: abandoned row and column streams are released

---
 postgresql/driver/pq3.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index cf239f7..071200f 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -778,6 +778,11 @@ class Output(object):
 	def _process_tuple_chunk(self, x, proc = process_chunk):
 		return proc(self._output_io, x, self._raise_column_tuple_error)
 
+	# By name: a bound method kept on the instance would be a reference cycle,
+	# and the cursor of an abandoned stream would not be trashed.
+	def _process_chunk(self, x):
+		return getattr(self, self._process_method)(x)
+
 	def _raise_column_tuple_error(self, cause, procs, tup, itemnum):
 		# For column processing.
 		# The element traceback will include the full list of parameters.
@@ -972,16 +977,16 @@ class FetchAll(Chunks):
 
 class SingleXactCopy(FetchAll):
 	_expect = element.CopyToBegin.type
-	_process_chunk = FetchAll._process_copy_chunk
+	_process_method = '_process_copy_chunk'
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
-	_process_chunk = FetchAll._process_tuple_chunk
+	_process_method = '_process_tuple_chunk'
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
 	# only tuple streams
-	_process_chunk = Output._process_tuple_chunk
+	_process_method = '_process_tuple_chunk'
 
 	def _e_metas(self):
 		yield ('chunksize', self.chunksize)
@@ -1614,7 +1619,7 @@ class Statement(pg_api.Statement):
 			c = SingleXactCopy(self, parameters)
 		else:
 			c = SingleXactFetch(self, parameters)
-			c._process_chunk = c._process_tuple_chunk_Row
+			c._process_method = '_process_tuple_chunk_Row'
 
 		# iff output is None, it's not a tuple returning query.
 		# however, if it's a copy, detect that fact by SingleXactCopy's
@@ -1641,7 +1646,7 @@ class Statement(pg_api.Statement):
 	def rows(self, *parameters, **kw):
 		chunks = self.chunks(*parameters, **kw)
 		if chunks._output_io:
-			chunks._process_chunk = chunks._process_tuple_chunk_Row
+			chunks._process_method = '_process_tuple_chunk_Row'
 		return chain.from_iterable(chunks)
 	__iter__ = rows
 
@@ -1673,7 +1678,7 @@ class Statement(pg_api.Statement):
 
 	def column(self, *parameters, **kw):
 		chunks = self.chunks(*parameters, **kw)
-		chunks._process_chunk = chunks._process_tuple_chunk_Column
+		chunks._process_method = '_process_tuple_chunk_Column'
 		return chain.from_iterable(chunks)
 
 	def first(self, *parameters):
-- 
2.43.0


From 458a985938b0296b6992321caea3a9347e016ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 044/153] fix: a copy whose source fails, is interrupted or is
 refused by the server leaves the connection in step

---
 postgresql/copyman.py          | 21 ++-----------
 postgresql/driver/pq3.py       | 55 ++++++++++++++++++++++++++--------
 postgresql/protocol/client3.py |  6 ++--
 postgresql/protocol/xact3.py   | 26 ++++++++++++++++
 4 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4c8f97c..bf4a414 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -575,26 +575,11 @@ class StatementReceiver(ProtocolReceiver):
 		self.xact = None
 		super().__init__(statement.database.pq.socket.send,)
 
-	# XXX: A bit of a hack...
-	# This is actually a good indication that statements need a .copy()
-	# execution method for producing a "CopyCursor" that reads or writes.
-	class WireReady(BaseException):
-		pass
-	def raise_wire_ready(self):
-		raise self.WireReady()
-		yield None
-
-	def __enter__(self, iter = iter):
+	def __enter__(self):
 		super().__enter__()
 		# Get the connection in the COPY state.
-		try:
-			self.statement.load_chunks(
-				iter(self.raise_wire_ready()), *self.parameters
-			)
-		except self.WireReady:
-			# It's a BaseException; nothing should trap it.
-			# Note the transaction object; we'll use it on exit.
-			self.xact = self.statement.database.pq.xact
+		# Note the transaction object; we'll use it on exit.
+		self.xact = self.statement._copy_begin()
 
 	def __exit__(self, typ, val, tb):
 		if self.xact is None:
diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 071200f..8b5e637 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1768,19 +1768,20 @@ class Statement(pg_api.Statement):
 					return command.decode('ascii')
 			return count
 
-	def _load_copy_chunks(self, chunks, *parameters):
+	def _copy_begin(self):
 		"""
-		Given an chunks of COPY lines, execute the COPY ... FROM STDIN
-		statement and send the copy lines produced by the iterable to
-		the remote end.
+		Execute the COPY ... FROM STDIN statement, and return the protocol
+		transaction as soon as it is ready for COPY data.
 		"""
-		x = xact.Instruction((
+		self._ready()
+		x = xact.CopyInstruction((
 				element.Bind(
 					b'',
 					self._pq_statement_id,
 					(), (), (),
 				),
 				element.Execute(b'', 1),
+				element.FlushMessage,
 				element.SynchronizeMessage,
 			),
 			asynchook = self.database._receive_async
@@ -1809,15 +1810,43 @@ class Statement(pg_api.Statement):
 				(b'M', "_load_copy_chunks() used on a non-COPY FROM STDIN query"),
 			))
 			self.database.typio.raise_client_error(x.error_message, creator = self)
+		return x
+
+	def _load_copy_chunks(self, chunks, *parameters):
+		"""
+		Given an chunks of COPY lines, execute the COPY ... FROM STDIN
+		statement and send the copy lines produced by the iterable to
+		the remote end.
+		"""
+		x = self._copy_begin()
+		step = self.database._pq_step
 
-		for chunk in chunks:
-			x.messages = list(chunk)
-			while x.messages is not x.CopyFailSequence:
-				# Continue stepping until the transaction
-				# sets the CopyFailSequence again. That's
-				# the signal that the transaction has sent
-				# all the previously set messages.
-				step()
+		try:
+			for chunk in chunks:
+				messages = list(chunk)
+				if x.state is xact.Complete:
+					# Another operation was performed while producing the chunk.
+					break
+				x.messages = messages
+				while x.messages is not x.CopyFailSequence:
+					# Continue stepping until the transaction
+					# sets the CopyFailSequence again. That's
+					# the signal that the transaction has sent
+					# all the previously set messages.
+					step()
+		except:
+			##
+			# The source failed or gave something that is not COPY data;
+			# fail the COPY here, so that it's not the next operation
+			# that has to raise its error.
+			##
+			if self.database.pq.xact is x:
+				x.messages = x.CopyFailSequence
+				self.database.pq.complete()
+			raise
+		if x.state is xact.Complete:
+			# The COPY was failed by the other operation.
+			self.database.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None), creator = self)
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
 		self.database.pq.synchronize()
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 23a7f63..8b6cdee 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -348,9 +348,9 @@ class Connection(object):
 			self.written = self.writing
 
 		if messages is not self.writing:
-			self.writing = messages
-			self.message_data += cat_messages(self.writing)
-			self.written = self.writing
+			# If they cannot be serialized, they are not being written.
+			self.message_data += cat_messages(messages)
+			self.writing = self.written = messages
 		return self.send_message_data()
 	write_messages = standard_write_messages
 
diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index ae6e0f3..d197f2b 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -721,3 +721,29 @@ class Instruction(Transaction):
 			# set properly before each invocation, the transaction is
 			# being misused and will be terminated.
 			self.messages = self.CopyFailSequence
+
+class CopyInstruction(Instruction):
+	"""
+	An `Instruction` for starting a COPY FROM STDIN.
+
+	Its last command, `element.SynchronizeMessage`, is not sent with the others.
+	A server that is copying drops it, but a server that fails before it started
+	to read the data (statement triggers) answers it. So it is only sent with the
+	end of the COPY, or after it's known that there is none.
+	"""
+	def __init__(self, commands, **kw):
+		super().__init__(commands, **kw)
+		self.messages = list(self.commands[:-1])
+		self._synchronized = False
+
+	def standard_put(self, messages):
+		count = super().standard_put(messages)
+		if self.state is not Complete and not self._synchronized:
+			if self.state[0] is Sending:
+				# It's in the CopyFailSequence and CopyDoneSequence.
+				self._synchronized = True
+			elif self.last[2][0] == len(self.commands) - 1:
+				self._synchronized = True
+				self.messages = self.commands[-1:]
+				self.state = (Sending, self.standard_sent)
+		return count
-- 
2.43.0


From 4e8b99ef732161e17169e88564a47a52d6748625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 045/153] fix: first() of a COPY FROM STDIN fails without
 losing the connection

---
 postgresql/driver/pq3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8b5e637..56837cd 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1712,8 +1712,11 @@ class Statement(pg_api.Statement):
 				),
 				# Get all
 				element.Execute(b'', 0xFFFFFFFF),
-				element.ClosePortal(b''),
-				element.SynchronizeMessage
+			) + (
+				# A COPY FROM STDIN would take it for a protocol violation.
+				(element.ClosePortal(b''),) if self._output is not None else ()
+			) + (
+				element.SynchronizeMessage,
 			),
 			asynchook = db._receive_async
 		)
-- 
2.43.0


From 4aa1117d2b0c0aabed86af62be95e3e48829c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 046/153] fix: nested releases of an advisory lock only count

ALock.release() released the locks on the server at every release, even
when the count remained above zero.
---
 postgresql/alock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..28716cc 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -104,7 +104,7 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
 			self._release(reversed(self._id_pairs), reversed(self._ids))
-- 
2.43.0


From 1205aa7857270dcf86ecd1f02171f0e6f76bd86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 047/153] fix: do not remember settings whose changes are not
 reported

The mapping remembered the values it read and assigned.  Commands that
change settings and the end of a transaction made what it remembered
stale: reads gave values which were not in effect, contexts restored
them, and an assignment of the remembered value was not performed.
---
 postgresql/driver/pq3.py  | 42 +++++++++++++++++++--------------------
 postgresql/lib/libsys.sql |  3 +++
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 56837cd..8db0476 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2029,6 +2029,9 @@ class Settings(pg_api.Settings):
 
 	def __init__(self, database):
 		self.database = database
+		# Only holds the settings whose changes the server reports.
+		# The others can be changed by any command and by the end
+		# of a transaction.
 		self.cache = {}
 
 	def _e_metas(self):
@@ -2038,28 +2041,18 @@ class Settings(pg_api.Settings):
 		self.cache.clear()
 
 	def __getitem__(self, i):
-		v = self.cache.get(i)
+		v = self.get(i)
 		if v is None:
-			r = self.database.sys.setting_get(i)
-
-			if r:
-				v = r[0][0]
-			else:
-				raise KeyError(i)
+			raise KeyError(i)
 		return v
 
 	def __setitem__(self, i, v):
-		cv = self.cache.get(i)
-		if cv == v:
-			return
-		setas = self.database.sys.setting_set(i, v)
-		self.cache[i] = setas
+		self.database.sys.setting_set(i, v)
 
 	def __delitem__(self, k):
 		self.database.execute(
 			'RESET "' + k.replace('"', '""') + '"'
 		)
-		self.cache.pop(k, None)
 
 	def __len__(self):
 		return self.database.sys.setting_len()
@@ -2087,14 +2080,17 @@ class Settings(pg_api.Settings):
 		if k in self.cache:
 			return self.cache[k]
 
-		db = self.database
 		r = self.database.sys.setting_get(k)
 		if r:
-			v = r[0][0]
-			self.cache[k] = v
-		else:
-			v = alt
-		return v
+			return r[0][0]
+		v = self._get_custom(k)
+		return alt if v is None else v
+
+	def _get_custom(self, k):
+		# Customized options which no module has defined are not listed
+		# in pg_settings.
+		if '.' in k and self.database.version_info[:2] >= (9, 6):
+			return self.database.sys.setting_get_custom(k)
 
 	def getset(self, keys):
 		setmap = {}
@@ -2108,9 +2104,13 @@ class Settings(pg_api.Settings):
 
 		if rkeys:
 			r = self.database.sys.setting_mget(rkeys)
-			self.cache.update(r)
 			setmap.update(r)
 			rem = set(rkeys) - set([x['name'] for x in r])
+			for k in list(rem):
+				v = self._get_custom(k)
+				if v is not None:
+					setmap[k] = v
+					rem.discard(k)
 			if rem:
 				raise KeyError(rem)
 		return setmap
@@ -2127,7 +2127,7 @@ class Settings(pg_api.Settings):
 
 	def update(self, d):
 		kvl = [list(x) for x in dict(d).items()]
-		self.cache.update(self.database.sys.setting_update(kvl))
+		self.database.sys.setting_update(kvl)
 
 	def _notify(self, msg):
 		subs = getattr(self, '_subscriptions', {})
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index e0bcc0b..d99869e 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -130,6 +130,9 @@ SELECT statement FROM pg_catalog.pg_prepared_statements WHERE name = $1
 [setting_get]
 SELECT setting FROM pg_catalog.pg_settings WHERE name = $1
 
+[setting_get_custom::first]
+SELECT pg_catalog.current_setting($1, true)
+
 [setting_set::first]
 SELECT pg_catalog.set_config($1, $2, false)
 
-- 
2.43.0


From ac4c7f9437961b29e5b526bc3e34549a8e6c68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 048/153] fix: read settings by names of any case

with db.settings(timezone = 'mst'), the documented example, raised a
KeyError as the server lists the setting as TimeZone.
---
 postgresql/lib/libsys.sql | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index d99869e..ab537cf 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -128,7 +128,7 @@ SELECT TRUE FROM pg_catalog.pg_prepared_xacts WHERE gid::text = $1
 SELECT statement FROM pg_catalog.pg_prepared_statements WHERE name = $1
 
 [setting_get]
-SELECT setting FROM pg_catalog.pg_settings WHERE name = $1
+SELECT setting FROM pg_catalog.pg_settings WHERE lower(name) = lower($1)
 
 [setting_get_custom::first]
 SELECT pg_catalog.current_setting($1, true)
@@ -143,7 +143,12 @@ SELECT count(*) FROM pg_catalog.pg_settings
 SELECT name, setting FROM pg_catalog.pg_settings WHERE name = $1
 
 [setting_mget]
-SELECT name, setting FROM pg_catalog.pg_settings WHERE name = ANY ($1)
+SELECT k AS name, setting
+FROM pg_catalog.pg_settings, (
+	SELECT ($1::text[])[i] AS k
+	FROM pg_catalog.generate_series(1, array_upper($1::text[], 1)) g(i)
+) AS keys
+WHERE lower(name) = lower(k)
 
 [setting_keys]
 SELECT name FROM pg_catalog.pg_settings ORDER BY name
-- 
2.43.0


From 9a298abf75f9704ddb9bae7d8674ca212102a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 049/153] fix: call every subscriber of a setting when one of
 them unsubscribes

The list of subscribers was iterated while it changed: the one after a
subscriber that unsubscribes itself was not called.
---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8db0476..1220f18 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2135,10 +2135,10 @@ class Settings(pg_api.Settings):
 		key = d(msg.name)[0]
 		val = d(msg.value)[0]
 		try:
-			for x in subs.get(key, ()):
+			for x in list(subs.get(key, ())):
 				x(self.database, key, val)
 			if None in subs:
-				for x in subs[None]:
+				for x in list(subs[None]):
 					x(self.database, key, val)
 		finally:
 			self.cache[key] = val
-- 
2.43.0


From 1d19ac8882d9476a47c02e51371715ac7c1b812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 050/153] fix: settings.path can be empty and deleted

Reading an empty path raised ValueError, and deleting it AttributeError
as connectors have no path: a search_path given to a connector is a
setting of the session, which RESET restores.
---
 postgresql/driver/pq3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1220f18..dde64dd 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2062,16 +2062,16 @@ class Settings(pg_api.Settings):
 
 	def path():
 		def fget(self):
-			return pg_str.split_ident(self["search_path"])
+			search_path = self["search_path"]
+			if not search_path.strip():
+				return []
+			return pg_str.split_ident(search_path)
 		def fset(self, value):
 			self['search_path'] = ','.join([
 				'"%s"' %(x.replace('"', '""'),) for x in value
 			])
 		def fdel(self):
-			if self.database.connector.path is not None:
-				self.path = self.database.connector.path
-			else:
-				self.database.execute("RESET search_path")
+			self.database.execute("RESET search_path")
 		doc = 'structured search_path interface'
 		return locals()
 	path = property(**path())
-- 
2.43.0


From 0cd84395e2166044106c327702d7e54d89a6bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 051/153] fix: do not lose commits of DB-API connections used
 as context managers

Entering the context calls connect() again, which started a savepoint
in the transaction; commit() only released it and close() discarded
the work.
---
 postgresql/driver/dbapi20.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..4273e5a 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -355,6 +355,9 @@ class Connection(Connection):
 	del autocommit_set, autocommit_get, autocommit_del
 
 	def connect(self, *args, **kw):
+		if self.closed is False:
+			# Already connected; the transaction must not be replaced.
+			return
 		super().connect(*args, **kw)
 		self._xact = self.xact()
 		self._xact.start()
-- 
2.43.0


From 86ddb68a9b9c1311e682cee8b0d2e65f6a7291b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 052/153] fix: begin a transaction after a refused DB-API
 commit()

When a COMMIT failed, due to a deferred constraint for instance, no new
transaction was started and later work was committed immediately.
---
 postgresql/driver/dbapi20.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 4273e5a..d27c4ab 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -386,9 +386,13 @@ class Connection(Connection):
 				},
 				creator = self
 			)
-		self._xact.commit()
-		self._xact = self.xact()
-		self._xact.start()
+		try:
+			self._xact.commit()
+		finally:
+			# A refused COMMIT ends the transaction as well.
+			if self._xact.state != 'open' and not self.closed:
+				self._xact = self.xact()
+				self._xact.start()
 
 	def rollback(self):
 		if self._xact is None:
-- 
2.43.0


From 3f807ed65862ca3db7e2a2922b000d08a5ab6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 053/153] fix: unescape %% in every unquoted part of a
 parameterized DB-API statement

Only the parts between quotes which contained a parameter themselves
were unescaped.
---
 postgresql/driver/dbapi20.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index d27c4ab..99ba433 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -216,6 +216,7 @@ class Cursor(object):
 		kmap = {}
 		transformer = tuple
 		rparts = []
+		plain = []
 		for part in parts:
 			if part.__class__ is ().__class__:
 				# skip quoted portions
@@ -244,8 +245,14 @@ class Cursor(object):
 						rparts.append(part % kmap)
 				else:
 					# no parameters identified in string
+					plain.append(len(rparts))
 					rparts.append(part)
 
+		if keys or count:
+			# The escapes are recognized in the whole statement.
+			for i in plain:
+				rparts[i] = rparts[i].replace('%%', '%')
+
 		if keys:
 			if count:
 				raise TypeError(
-- 
2.43.0


From 570ac3cdbf36e57f4af39e0581db2caac5c07700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 054/153] fix: DB-API cursors fetch from and describe the last
 query only

After a statement without a result, or executemany(), rows of earlier
queries could be fetched; callproc() and executemany() left the
description of an earlier query.
---
 postgresql/driver/dbapi20.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 99ba433..c5463d1 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -179,9 +179,20 @@ class Cursor(object):
 				'$' + str(x) for x in range(1, len(args) + 1)
 			])
 		))
-		self.__portals.insert(0, Portal(p.chunks(*args)))
+		c = p.chunks(*args)
+		self._describe(p)
+		self.__portals.insert(0, Portal(c))
 		return args
 
+	def _describe(self, ps):
+		# name, relationId, columnNumber, typeId, typlen, typmod, format
+		self.rowcount = -1
+		self.description = tuple([
+			(self.database.typio.decode(x[0]), dbapi_type(x[3]),
+			None, None, None, None, None)
+			for x in ps._output
+		])
+
 	def fetchone(self):
 		try:
 			return next(self._portal)
@@ -278,22 +289,15 @@ class Cursor(object):
 		ps = self.database.prepare(sql)
 		c = ps.chunks(*pxf(parameters))
 		if ps._output is not None and len(ps._output) > 0:
-			# name, relationId, columnNumber, typeId, typlen, typmod, format
-			self.rowcount = -1
-			self.description = tuple([
-				(self.database.typio.decode(x[0]), dbapi_type(x[3]),
-				None, None, None, None, None)
-				for x in ps._output
-			])
+			self._describe(ps)
 			self.__portals.insert(0, Portal(c))
 		else:
 			self.rowcount = c.count()
 			if self.rowcount is None:
 				self.rowcount = -1
 			self.description = None
-			# execute bumps any current portal
-			if self.__portals:
-				del self._portal
+			# There is nothing to fetch, earlier results included.
+			del self.__portals[:]
 		return self
 
 	def executemany(self, statement, parameters):
@@ -308,6 +312,8 @@ class Cursor(object):
 		else:
 			ps.load_rows(parameters)
 		self.rowcount = -1
+		self.description = None
+		del self.__portals[:]
 		return self
 
 	def close(self):
-- 
2.43.0


From ad9726c299d548b6dfb46ad7e3af80d1b628bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 055/153] fix: execute any statement that gives rows in DB-API
 auto-commit mode

INSERT ... RETURNING, SHOW, EXPLAIN and the like raised a SyntaxError as
chunks are read from a declared cursor outside of a transaction block.
---
 postgresql/driver/dbapi20.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index c5463d1..5d6cb99 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -179,11 +179,17 @@ class Cursor(object):
 				'$' + str(x) for x in range(1, len(args) + 1)
 			])
 		))
-		c = p.chunks(*args)
+		c = self._chunks(p, args)
 		self._describe(p)
 		self.__portals.insert(0, Portal(c))
 		return args
 
+	def _chunks(self, ps, parameters):
+		if self.database.autocommit and ps._output:
+			# Only SELECTs can be read in chunks outside of a transaction.
+			return iter((ps(*parameters),))
+		return ps.chunks(*parameters)
+
 	def _describe(self, ps):
 		# name, relationId, columnNumber, typeId, typlen, typmod, format
 		self.rowcount = -1
@@ -287,7 +293,7 @@ class Cursor(object):
 				)
 			)
 		ps = self.database.prepare(sql)
-		c = ps.chunks(*pxf(parameters))
+		c = self._chunks(ps, pxf(parameters))
 		if ps._output is not None and len(ps._output) > 0:
 			self._describe(ps)
 			self.__portals.insert(0, Portal(c))
-- 
2.43.0


From f457cc122a4f030634e734449170919116d4fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 056/153] fix: DB-API cursors refuse fetching after their
 connection was closed

Rows which had been buffered were still given.
---
 postgresql/driver/dbapi20.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 5d6cb99..cf32960 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -142,6 +142,10 @@ class Cursor(object):
 				raise Error("cursor is closed",
 					source = 'CLIENT', creator = self.database
 				)
+			if self.database.closed:
+				raise Error("connection is closed",
+					source = 'CLIENT', creator = self.database
+				)
 			try:
 				p = self.__portals[0]
 			except IndexError:
-- 
2.43.0


From eadb31cf61e851012e7efee2d30b5fe9a35645ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 057/153] fix: recognise quotations in SQL text as the server
 does

---
 postgresql/string.py | 65 ++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 53799d3..207c628 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -49,13 +49,18 @@ def quote_ident_if_needed(text):
 	"""
 	return quote_ident(text) if needs_quoting(text) else text
 
-quote_re = re.compile(r"""(?xu)
-	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-|	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
-|	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
-|	(\$(?:[^0-9$]\w*)?\$).*?(?:\1|$)   (?# Dollar quotes $$str$$)
+quote_re = re.compile(r"""(?x)
+	([Ee]'|'|"|\$(?:[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff]*)?\$)
+|	[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9$\x80-\U0010ffff]*  (?# Words have no quotes)
 """)
 
+# The content of a quotation, without its end.
+quoted_re = {
+	"E'" : re.compile(r"(?s)(?:''|\\.|[^'\\])*"), # Backslash escapes E'str'
+	"'" : re.compile(r"(?:''|[^'])*"),           # Regular literals 'str'
+	'"' : re.compile(r'(?:""|[^"])*'),           # Identifiers "str"
+}
+
 def split(text):
 	"""
 	split the string up by into non-quoted and quoted portions. Zero and even
@@ -76,39 +81,35 @@ def split(text):
 	to identify the best course of action for the given split.
 	"""
 	lastend = 0
-	re = quote_re
-	scan = re.scanner(text)
-	match = scan.search()
+	match = quote_re.search(text)
 	while match is not None:
+		quote = match.group(1)
+		if quote is None:
+			# just a word
+			match = quote_re.search(text, match.end())
+			continue
 		# text preceding the quotation
 		yield text[lastend:match.start()]
-		# the dollar quote, if any
-		dq = match.groups()[0]
-		if dq is not None:
-			endoff = len(dq)
-			quote = dq
+		start = match.end()
+		content = quoted_re.get(quote.upper())
+		if content is None:
+			# dollar quote
 			end = quote
+			endoff = text.find(end, start)
 		else:
-			endoff = 1
-			q = text[match.start()]
-			if q == 'E':
-				quote = "E'"
-				end = "'"
-			else:
-				end = quote = q
-
-		# If the end is not the expected quote, it consumed
-		# the end. Be sure to check that the match's end - end offset
-		# is *not* the start, ie an empty quotation at the end of the string.
-		if text[match.end()-endoff:match.end()] != end \
-		or match.end() - endoff == match.start():
-			yield (quote, text[match.start()+len(quote):])
+			end = quote[-1]
+			endoff = content.match(text, start).end()
+			if not text.startswith(end, endoff):
+				endoff = -1
+
+		if endoff == -1:
+			# not terminated
+			yield (quote, text[start:])
 			break
-		else:
-			yield (quote, text[match.start()+len(quote):match.end()-endoff])
+		yield (quote, text[start:endoff])
 
-		lastend = match.end()
-		match = scan.search()
+		lastend = endoff + len(end)
+		match = quote_re.search(text, lastend)
 	else:
 		# balanced quotes, yield the rest
 		yield text[lastend:]
@@ -127,7 +128,7 @@ def unsplit(splitted_iter):
 		try:
 			q, qtext = next(i)
 			s += q + qtext
-			if q == "E'":
+			if q in ("E'", "e'"):
 				endq = "'"
 			else:
 				endq = q
-- 
2.43.0


From 3a776b46915232625a8f55db7d329c0e067b93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 058/153] fix: split_using with a separator of several
 characters

---
 postgresql/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 207c628..b195210 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -188,7 +188,7 @@ def split_using(text, quote, sep = '.', maxsplit = -1):
 				break
 
 			l.append(text[offset:nextsep])
-			offset = nextsep + 1
+			offset = nextsep + len(sep)
 	l.append(text[offset:])
 	return l
 
-- 
2.43.0


From 07d06c891feda1dbeb53bcb706fcbfc39a9117be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 059/153] fix: refuse quoted identifiers that are not
 terminated or go on

---
 postgresql/string.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index b195210..aa95b70 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -192,6 +192,8 @@ def split_using(text, quote, sep = '.', maxsplit = -1):
 	l.append(text[offset:])
 	return l
 
+quoted_ident_re = re.compile(r'"(?:""|[^"])*"')
+
 def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	"""
 	Split a series of identifiers using the specified separator.
@@ -200,7 +202,7 @@ def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	for x in split_using(text, quote, sep = sep, maxsplit = maxsplit):
 		x = x.strip()
 		if x.startswith('"'):
-			if not x.endswith('"'):
+			if not quoted_ident_re.fullmatch(x):
 				raise ValueError(
 					"unterminated identifier quotation", x
 				)
-- 
2.43.0


From ca60dc439e2334b599f264a598a82a20e08852b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 060/153] fix: quote identifiers that the server would fold

---
 postgresql/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index aa95b70..c3ebb4d 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -47,7 +47,7 @@ def quote_ident_if_needed(text):
 	If needed, replace every instance of '"' with '""' *and* place '"' on each end.
 	Otherwise, just return the text.
 	"""
-	return quote_ident(text) if needs_quoting(text) else text
+	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
 quote_re = re.compile(r"""(?x)
 	([Ee]'|'|"|\$(?:[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff]*)?\$)
-- 
2.43.0


From 514eaf9bae2cba0a0a4be8d7d35e0f65745de955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 061/153] fix: backslashes and line breaks in the values of
 configuration files

---
 postgresql/configfile.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..35e56c8 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -6,6 +6,7 @@ PostgreSQL configuration file parser and editor functions.
 """
 import sys
 import os
+import re
 from . import string as pg_str
 from . import api as pg_api
 
@@ -42,10 +43,16 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 
 		inquotes = False
 		escaped = False
+		backslash = False
 		val_len = 0
 		for i in range(preval_len, len(val)):
 			c = val[i]
-			if c == quote:
+			if backslash:
+				# Whatever it is, it's escaped.
+				backslash = False
+			elif c == '\\' and inquotes:
+				backslash = True
+			elif c == quote:
 				if inquotes is False:
 					inquotes = True
 				else:
@@ -68,6 +75,25 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 			slice(len(key) + 1 + preval_len, len(key) + 1 + preval_len + val_len)
 		)
 
+# Escapes in quoted values, as the server reads them.
+escape_re = re.compile(r"(?s)\\([0-7]{1,3}|.)|''")
+escapes = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
+
+def unescape(match):
+	c = match.group(1)
+	if c is None:
+		return "'"
+	if c.isdigit() and c not in '89':
+		return chr(int(c, 8) & 0xFF)
+	return escapes.get(c, c)
+
+def quote_value(val):
+	"""
+	Quote the value so that the server reads it back as it is.
+	"""
+	val = val.replace('\\', '\\\\').replace("'", "''")
+	return "'" + val.replace('\n', '\\n').replace('\r', '\\r') + "'"
+
 def unquote(s, quote = quote):
 	"""
 	Unquote the string `s` if quoted.
@@ -75,7 +101,7 @@ def unquote(s, quote = quote):
 	s = s.strip()
 	if not s.startswith(quote):
 		return s
-	return s[1:-1].replace(quote*2, quote)
+	return escape_re.sub(unescape, s[1:-1])
 
 def write_config(map, writer, keys = None):
 	"""
@@ -126,7 +152,7 @@ def alter_config(map, fo, keys = None):
 			if val is not None:
 				if not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
-				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
+				lines.append("%s = %s" %(key, quote_value(val)))
 
 	# Multiple lines may have the key, so make a decision based on the value.
 	for ck in candidates.keys():
@@ -195,7 +221,7 @@ def alter_config(map, fo, keys = None):
 			# way to set something without delving into setting types.
 			lines[line_num] = \
 				bol + l[sk.start:sv.start] + \
-				"'%s'" %(to_set_val.replace("'", "''"),) + post_val
+				quote_value(to_set_val) + post_val
 	return lines
 
 def read_config(iter, d = None, selector = None):
-- 
2.43.0


From 0d088de213fa4971cd28c4c3616cada04bea5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 062/153] fix: recognise customized options in configuration
 files

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 35e56c8..73a3c83 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -26,7 +26,7 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 
 		key_len = 0
 		for c in key[prekey_len:]:
-			if not (c.isalpha() or c.isdigit() or c in '_'):
+			if not (c.isalpha() or c.isdigit() or c in '_.$'):
 				break
 			key_len += 1
 
-- 
2.43.0


From 38cf88c42bb9df9fcdae2435afe067db47c1d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 063/153] fix: recognise settings without an equals sign in
 configuration files

---
 postgresql/configfile.py | 47 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 73a3c83..7385cb9 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -12,29 +12,38 @@ from . import api as pg_api
 
 quote = "'"
 comment = '#'
+# Not settings.
+directives = ('include', 'include_dir', 'include_if_exists')
 
 def parse_line(line, equality = '=', comment = comment, quote = quote):
-	keyval = line.split(equality, 1)
-	if len(keyval) == 2:
-		key, val = keyval
-
-		prekey_len = 0
-		for c in key:
-			if not c.isspace() and c not in comment:
-				break
-			prekey_len += 1
-
-		key_len = 0
-		for c in key[prekey_len:]:
-			if not (c.isalpha() or c.isdigit() or c in '_.$'):
-				break
-			key_len += 1
-
+	prekey_len = 0
+	for c in line:
+		if not c.isspace() and c not in comment:
+			break
+		prekey_len += 1
+
+	key_len = 0
+	for c in line[prekey_len:]:
+		if not (c.isalpha() or c.isdigit() or c in '_.$'):
+			break
+		key_len += 1
+
+	key, val = line[:prekey_len + key_len], line[prekey_len + key_len:]
+	before, eq, after = val.partition(equality)
+	if eq and not before.strip():
+		val_start = len(key) + len(before) + len(eq)
+		val = after
+	elif key_len and (val[:1].isspace() or val.startswith(quote)) and comment not in key \
+	and val.strip() and not val.lstrip().startswith(comment) \
+	and not key.strip().lower() in directives:
+		# The equality is optional.
+		val_start = len(key)
+	else:
 		# If non-whitespace exists after the key,
 		# it's a complex comment, so just bail out.
-		if key[prekey_len + key_len:].strip():
-			return
+		val_start = None
 
+	if val_start is not None:
 		preval_len = 0
 		for c in val:
 			if not c.isspace() or c in '\n\r':
@@ -72,7 +81,7 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 			# The key slice
 			slice(prekey_len, key_len + prekey_len),
 			# The value slice
-			slice(len(key) + 1 + preval_len, len(key) + 1 + preval_len + val_len)
+			slice(val_start + preval_len, val_start + preval_len + val_len)
 		)
 
 # Escapes in quoted values, as the server reads them.
-- 
2.43.0


From 94166d60965ff07bee69afe7a44f903ceaac39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 064/153] fix: add settings to an empty configuration file

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 7385cb9..220825f 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -159,7 +159,7 @@ def alter_config(map, fo, keys = None):
 			val = map[key]
 			# Can't comment without an uncommented candidate.
 			if val is not None:
-				if not lines[-1].endswith(os.linesep):
+				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
 				lines.append("%s = %s" %(key, quote_value(val)))
 
-- 
2.43.0


From 53ab7b6ab7ade0a85b43d5d1eb2ed404d23fe26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 065/153] fix: find settings in configuration files regardless
 of case

---
 postgresql/configfile.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 220825f..784ff11 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -242,6 +242,9 @@ def read_config(iter, d = None, selector = None):
 			key = line[kv[0]]
 			if comment not in line[:kv[0].start] and \
 			(selector is None or selector(key)):
+				# The names' case is insignificant.
+				for k in [x for x in d if x.lower() == key.lower()]:
+					del d[k]
 				d[key] = unquote(line[kv[1]])
 	return d
 
@@ -282,11 +285,10 @@ class ConfigFile(pg_api.Settings):
 		self._save()
 
 	def __getitem__(self, k):
-		with self._open(self.path) as cfo:
-			return read_config(
-				cfo,
-				selector = k.__eq__
-			)[k]
+		v = self.get(k)
+		if v is None:
+			raise KeyError(k)
+		return v
 
 	def __setitem__(self, k, v):
 		self.update({k : v})
@@ -317,8 +319,8 @@ class ConfigFile(pg_api.Settings):
 		return exc is None
 
 	def get(self, k, alt = None):
-		with self._open(self.path) as cf:
-			return read_config(cf, selector = k.__eq__).get(k, alt)
+		v = self.getset((k,))[k]
+		return alt if v is None else v
 
 	def keys(self):
 		return read_config(self._open(self.path)).keys()
@@ -343,12 +345,6 @@ class ConfigFile(pg_api.Settings):
 		Get all the settings in the list of keys.
 		Returns a dictionary of those keys.
 		"""
-		keys = set(keys)
 		with self._open(self.path) as cfo:
-			cfg = read_config(
-				cfo,
-				selector = keys.__contains__
-			)
-			for x in (keys - set(cfg.keys())):
-				cfg[x] = None
-			return cfg
+			cfg = {k.lower() : v for k, v in read_config(cfo).items()}
+		return {k : cfg.get(k.lower()) for k in keys}
-- 
2.43.0


From 773ac4ca499de8ac13f9bbdb609480580c46e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 066/153] fix: deleting settings of a configuration file

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 784ff11..3cea67f 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -282,7 +282,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		v = self.get(k)
-- 
2.43.0


From 9bb3e41a0911bbf4bd645b385bf2d837133cd1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 067/153] fix: settings of a configuration file as a context
 manager

---
 postgresql/configfile.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 3cea67f..7145114 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -265,7 +265,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -295,6 +295,7 @@ class ConfigFile(pg_api.Settings):
 
 	def __call__(self, **kw):
 		self._store.insert(0, kw)
+		return self
 
 	def __context__(self):
 		return self
@@ -312,10 +313,8 @@ class ConfigFile(pg_api.Settings):
 		self._restore.append(res)
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
-		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
+		restored = self._restore.pop()
+		self.update(restored)
 		return exc is None
 
 	def get(self, k, alt = None):
-- 
2.43.0


From fcc76d97b373ca8be2190d2afff340b8fec94cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 068/153] fix: iterating over the settings of a configuration
 file

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 7145114..53d8aa9 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -301,7 +301,7 @@ class ConfigFile(pg_api.Settings):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
 
 	def __len__(self):
 		return len(list(self.keys()))
-- 
2.43.0


From 6de2a2e2402a204a9a0abc7b53dadf26a0f42be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 069/153] fix: pg_dotconf --file

---
 postgresql/bin/pg_dotconf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 31306e9..5e9f1c5 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -36,11 +36,7 @@ def command(args):
 	settings = {}
 	for sfp in co.settings:
 		with open(sfp) as sf:
-			for line in sf:
-				pl = configfile.parse_line(line)
-				if pl is not None:
-					if comment not in line[pl[0].start]:
-						settings[line[pl[0]]] = unquote(line[pl[1]])
+			configfile.read_config(sf, d = settings)
 
 	prev = None
 	for p in ca[1:]:
-- 
2.43.0


From 8d34ef3f1fa47397261b21cb1af7fde53bf730f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 070/153] fix: the version of the package, which pg_dotconf
 imports

---
 postgresql/__init__.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/postgresql/__init__.py b/postgresql/__init__.py
index 60ce8e5..a4691be 100644
--- a/postgresql/__init__.py
+++ b/postgresql/__init__.py
@@ -10,10 +10,7 @@ See <http://postgresql.org> for more information about PostgreSQL and <http://py
 for information about Python.
 """
 __all__ = [
-	'__author__',
-	'__date__',
 	'__version__',
-	'__docformat__',
 	'version',
 	'version_info',
 	'open',
@@ -27,8 +24,7 @@ version_info = () # overridden by subsequent import from .project.
 
 # Optional.
 try:
-	from .project import version_info, version, \
-		author as __author__, date as __date__
+	from .project import version_info, version
 	__version__ = version
 except ImportError:
 	pass
-- 
2.43.0


From c8c292cd4f702eb0608b8f1c9bb51e7beff8d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 071/153] fix: items of arrays at negative indexes and beyond
 the end

---
 postgresql/types/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 12b2543..fe51c37 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -530,8 +530,10 @@ class Array(object):
 		else:
 			# get a sub-array
 			l = len(self)
-			if item > l:
-				raise IndexError("index {0} is out of range".format(l))
+			if item < 0:
+				item = item + l
+			if not 0 <= item < l:
+				raise IndexError("index is out of range of {0}".format(l))
 			return self.__class__.from_elements(
 				self._elements[self._weight*item:self._weight*(item+1)],
 				lowerbounds = self.lowerbounds[1:],
-- 
2.43.0


From 5959b53ad18dbb23a7105cd57577a16e39fada98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 072/153] fix: refuse ragged nests of arrays

---
 postgresql/types/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index fe51c37..79f4564 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -261,10 +261,15 @@ class Array(object):
 		ndepth = depth + 1
 		if ndepth == len(dimensions):
 			# at the bottom
+			for x in hier:
+				if x.__class__ is list:
+					raise ValueError("nested list inconsistent with dimensions at depth " + str(ndepth))
 			r = hier
 		else:
 			# go deeper
 			for x in hier:
+				if x.__class__ is not list:
+					raise ValueError("element inconsistent with dimensions at depth " + str(ndepth))
 				r.extend(typ.unroll_nest(x, dimensions, ndepth))
 		return r
 
-- 
2.43.0


From 89ce1ba39398fe7becc2bbc7af7fa0f021d3fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 073/153] fix: upper bounds of arrays made from elements and
 lower bounds

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 79f4564..545294f 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -359,7 +359,7 @@ class Array(object):
 				upperbounds = ()
 				dimensions = ()
 			else:
-				upperbounds = (nelements,)
+				upperbounds = (lowerbounds[0] + nelements - 1,) if lowerbounds else (nelements,)
 				dimensions = (nelements,)
 
 		# consistency..
-- 
2.43.0


From 4f5dfb14a2713aff67cab50cd6955aa58e8664cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 074/153] fix: Array.sql_get_element with an excess of
 subscripts

---
 postgresql/types/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 545294f..d499ee8 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -470,6 +470,8 @@ class Array(object):
 		Like `get_element`, but with SQL indirection semantics. Notably, returns
 		`None` on IndexError.
 		"""
+		if self.dimensions and len(address) != self.ndims:
+			raise ValueError("given axis sequence is inconsistent with number of dimensions")
 		try:
 			a = [a - lb for (a, lb) in zip(address, self.lowerbounds)]
 			# get_element accepts negatives, so check the converted sequence.
-- 
2.43.0


From addc1405f6c270eff30419a3bae213aa97caff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 075/153] fix: Row.get at the lowest index

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index d499ee8..8f8cd5e 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -584,7 +584,7 @@ class Row(tuple):
 	def get(self, i, gi = tuple.__getitem__, len = len):
 		if type(i) is int:
 			l = len(self)
-			if -l < i < l:
+			if -l <= i < l:
 				return gi(self, i)
 		else:
 			idx = self.keymap.get(i)
-- 
2.43.0


From 76ac56df4baafef17a12c816ba22351e9889ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 076/153] fix: mappings of rows whose columns have equal names

---
 postgresql/types/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 8f8cd5e..ebdb1b6 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -562,10 +562,10 @@ class Row(tuple):
 	"Name addressable items tuple; mapping and sequence"
 	@classmethod
 	def from_mapping(typ, keymap, map, get1 = get1):
-		iter = [
-			map.get(k) for k,_ in sorted(keymap.items(), key = get1)
-		]
-		r = typ(iter)
+		seq = [None] * (max(keymap.values(), default = -1) + 1)
+		for k, i in keymap.items():
+			seq[i] = map.get(k)
+		r = typ(seq)
 		r.keymap = keymap
 		return r
 
@@ -599,7 +599,7 @@ class Row(tuple):
 		return iter(self)
 
 	def items(self):
-		return zip(iter(self.column_names), iter(self))
+		return ((k, self[k]) for k in self.column_names)
 
 	def index_from_key(self, key):
 		return self.keymap.get(key)
-- 
2.43.0


From 01764b9727fa1cec055587d091f4d5bbfa8c9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 077/153] fix: PGREQUIRESSL=1 gives the sslmode "require"

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5540976..9904948 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -189,7 +189,7 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	reqssl = modifier('REQUIRESSL')
 	if reqssl in environ:
 		if environ[reqssl].strip() == '1':
-			yield ('sslmode',), ('require', reqssl + '=1')
+			yield ('sslmode',), 'require'
 
 	for k, v in default_envvar_map.items():
 		k = modifier(k)
-- 
2.43.0


From 41c037f10eedd71f2c0ebe8c429522f6b78ca085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 078/153] fix: collect the settings given by environment
 variables

---
 postgresql/clientparameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 9904948..0a1f510 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -201,9 +201,9 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	envvar_settings_map = ((
 		(modifier(k), v) for k,v in default_envvar_settings_map.items()
 	))
-	settings = [
-		(('settings', v,), environ[k]) for k, v in envvar_settings_map if k in environ
-	]
+	for k, v in envvar_settings_map:
+		if k in environ:
+			yield (('settings', v,), environ[k])
 
 	# PGSYSCONFDIR based
 	if pg_sysconfdir_envvar in environ:
-- 
2.43.0


From 62f6d08ecfdbbc3e5a934b30f1a66fc3b07cfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 079/153] fix: keep the spaces around the fields of password
 file lines

---
 postgresql/pgpassfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index ee0ae73..70d0ccf 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -7,8 +7,9 @@ Parse pgpass files and subsequently lookup a password.
 import os.path
 
 def split(line, len = len):
-	line = line.strip()
-	if not line:
+	# Spaces are part of the fields.
+	line = line.rstrip('\r\n')
+	if not line.strip():
 		return None
 	r = []
 	continuation = False
-- 
2.43.0


From 1cf2d7d7529a6401e70b4a7d10dbe2ad741fbcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 080/153] fix: look up passwords of connections over local
 sockets

---
 postgresql/pgpassfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index 70d0ccf..d1bb48c 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -66,6 +66,8 @@ def lookup_pgpass(d, passfile, exists = os.path.exists):
 	# using the config's criteria.
 	if exists(passfile):
 		return lookup_password_file(passfile, (
-			str(d['user']), str(d['host']), str(d['port']),
+			str(d['user']),
+			# Local sockets are listed as "localhost".
+			str(d.get('host') or 'localhost'), str(d.get('port') or 5432),
 			str(d.get('database', d['user']))
 		))
-- 
2.43.0


From 4c97fa8b397710de7a42ecf95dccdc76e1b6b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 081/153] fix: show the given title when prompting for a
 password

---
 postgresql/clientparameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 0a1f510..9629e0d 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -391,11 +391,11 @@ def resolve_password(parameters, getpass = getpass, prompt_title = ''):
 	"""
 	prompt_for_password = parameters.pop('prompt_password', False)
 	pgpassfile = parameters.pop('pgpassfile', None)
-	prompt_title = parameters.pop('prompt_title', None)
+	default_title = parameters.pop('prompt_title', None)
 	if prompt_for_password is True:
 		# it's a prompt
 		if sys.stdin.isatty():
-			prompt = prompt_title or parameters.pop('prompt_title', '')
+			prompt = prompt_title or default_title or ''
 			prompt += '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
 			parameters['password'] = getpass("Password for " + prompt +": ")
 		else:
-- 
2.43.0


From be3b3388cd4f5e90bd245c76a149714fbf36732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 082/153] fix: refuse settings options without a value as usage
 errors

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 9629e0d..5577d2e 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -281,7 +281,7 @@ def append_settings(option, opt_str, value, parser):
 	"""
 	kv = value.split('=', 1)
 	if len(kv) != 2:
-		raise OptionValueError("invalid setting argument, %r" %(value,))
+		raise optparse.OptionValueError("invalid setting argument, %r" %(value,))
 	parser.values.db_client_parameters.append(
 		((option.dest, kv[0]), kv[1])
 	)
-- 
2.43.0


From 09b6e859090aa90d5f6cbcb2fc765e4155fc6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 083/153] fix: translate denormalized parameters whose keys are
 tuples

---
 postgresql/clientparameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5577d2e..6f18a39 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -548,10 +548,10 @@ def normalize_parameter(kv):
 	"""
 	(k, v) = kv
 	if k[0] == 'requiressl' and v in ('1', True):
-		k[0] = 'sslmode'
+		k = ('sslmode',)
 		v = 'require'
 	elif k[0] == 'dbname':
-		k[0] = 'database'
+		k = ('database',)
 	elif k[0] == 'sslmode':
 		v = v.lower()
 	return (tuple(k),v)
-- 
2.43.0


From 8ec485f68e294b45f35f6c84a71c944736dd07db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 084/153] fix: let a local socket option replace the default
 address

---
 postgresql/clientparameters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 6f18a39..12bfa3d 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -629,6 +629,13 @@ def collect(
 		d_parameters.append(cop)
 
 	cpd = normalize(extrapolate(chain(*d_parameters)))
+	if cop and 'unix' in cpd:
+		# A local socket given as an option replaces the collected address.
+		given = normalize(extrapolate(cop))
+		if 'unix' in given:
+			for k in ('host', 'port'):
+				if k not in given:
+					cpd.pop(k, None)
 	if prompt_title is not None:
 		resolve_password(cpd, prompt_title = prompt_title)
 	return cpd
-- 
2.43.0


From ba9a9140aa42533ff18e30aba56cf081feb6adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 085/153] fix: escape the path components of IRIs

---
 postgresql/iri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7a90aee..6851f9c 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -55,10 +55,10 @@ def structure(d, fieldproc = ri.unescape):
 	if path:
 		# Only state the database field's existence if the first path is non-empty.
 		if path[0]:
-			cpd['database'] = path[0]
+			cpd['database'] = fieldproc(path[0])
 		path = path[1:]
 		if path:
-			cpd['path'] = path
+			cpd['path'] = [fieldproc(x) for x in path]
 
 	settings = {}
 	if query:
@@ -158,7 +158,7 @@ def construct(x, obscure_password = False):
 			None if 'port' not in x else str(x['port'])
 		)),
 		None if not path else '/'.join([
-			ri.escape_path_re.sub(path_comp, '/')
+			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
 		(ri.construct_query(driver_params) if driver_params else None)
-- 
2.43.0


From b99042bc2ab1c44313846aa78a003fc29c335adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 086/153] fix: keep the database of IRIs apart from the path

---
 postgresql/iri.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 6851f9c..dfe7532 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -133,8 +133,11 @@ def construct(x, obscure_password = False):
 	path = []
 	if 'database' in x:
 		path.append(x['database'])
-	if 'path' in x:
-		path.extend(x['path'] or ())
+	if x.get('path'):
+		if not path:
+			# The first component is always the database.
+			path.append('')
+		path.extend(x['path'])
 
 	password = x.get('password')
 	if obscure_password and password is not None:
-- 
2.43.0


From 7877b78b2a0eeee0f8cdcbc4b5edc7a8d3192cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 087/153] fix: keep the "ipv" parameter in IRIs

---
 postgresql/iri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index dfe7532..e36d92d 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -146,7 +146,7 @@ def construct(x, obscure_password = False):
 		'[' + k + ']' : str(v) for k,v in x.items()
 		if k not in (
 			'user', 'password', 'port', 'database', 'ssl',
-			'path', 'host', 'unix', 'ipv','settings'
+			'path', 'host', 'unix', 'settings'
 		)
 	}.items())
 	driver_params.sort(key=get0)
-- 
2.43.0


From 19705f4a7590fb32f1ff2997dd496719ee5b9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 088/153] fix: decode the percent escapes of characters beyond
 ASCII

---
 postgresql/resolved/riparse.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/resolved/riparse.py b/postgresql/resolved/riparse.py
index f91a261..2d51213 100644
--- a/postgresql/resolved/riparse.py
+++ b/postgresql/resolved/riparse.py
@@ -81,6 +81,17 @@ def unescape(x, mkval = chr):
 		else:
 			nstr += x[pos:newpos]
 
+		escaped = percent_escapes_re.match(x, newpos) if mkval is chr else None
+		if escaped is not None:
+			# Characters are escaped as the bytes of their UTF-8 form.
+			raw = bytes.fromhex(escaped.group(0).replace('%', ''))
+			try:
+				nstr += raw.decode('utf-8')
+			except UnicodeDecodeError:
+				nstr += raw.decode('latin-1')
+			pos = escaped.end()
+			continue
+
 		val = percent_escapes.get(x[newpos+1:newpos+3])
 		if val is not None:
 			nstr += mkval(val)
-- 
2.43.0


From 549eedc75f799418f57b35714e4917bfd385b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 089/153] fix: escape the addresses of IRIs

---
 postgresql/iri.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index e36d92d..72e8a17 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -25,6 +25,8 @@ del itemgetter
 
 import re
 escape_path_re = re.compile('[%s]' %(re.escape(ri.unescaped + ','),))
+escape_address_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@/?#[]'),))
+escape_unix_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@:?#[]'),))
 
 def structure(d, fieldproc = ri.unescape):
 	"""
@@ -46,9 +48,9 @@ def structure(d, fieldproc = ri.unescape):
 		if host.startswith('[') and host.endswith(']'):
 			host = host[1:-1]
 			if host.startswith('unix:'):
-				cpd['unix'] = host[len('unix:'):].replace(':','/')
+				cpd['unix'] = fieldproc(host[len('unix:'):].replace(':','/'))
 			else:
-				cpd['host'] = host
+				cpd['host'] = fieldproc(host)
 		else:
 			cpd['host'] = fieldproc(host)
 
@@ -119,10 +121,10 @@ def construct(x, obscure_password = False):
 
 	port = None
 	if 'unix' in x:
-		host = '[unix:' + x['unix'].replace('/',':') + ']'
+		host = '[unix:' + escape_unix_re.sub(ri.re_pct_encode, x['unix']).replace('/',':') + ']'
 		# ignore port.. it's a mis-config.
 	elif 'host' in x:
-		host = x['host']
+		host = escape_address_re.sub(ri.re_pct_encode, x['host'])
 		if ':' in host:
 			host = '[' + host + ']'
 		port = x.get('port')
@@ -130,6 +132,17 @@ def construct(x, obscure_password = False):
 		host = None
 		port = x.get('port')
 
+	password = x.get('password')
+	if obscure_password and password is not None:
+		password = '***'
+
+	# The host is already escaped.
+	netloc = ri.unsplit_netloc((x.get('user'), password, None, None))
+	if host is not None:
+		netloc = (netloc or '') + host
+		if port is not None:
+			netloc += ':' + escape_address_re.sub(ri.re_pct_encode, str(port))
+
 	path = []
 	if 'database' in x:
 		path.append(x['database'])
@@ -139,9 +152,6 @@ def construct(x, obscure_password = False):
 			path.append('')
 		path.extend(x['path'])
 
-	password = x.get('password')
-	if obscure_password and password is not None:
-		password = '***'
 	driver_params = list({
 		'[' + k + ']' : str(v) for k,v in x.items()
 		if k not in (
@@ -154,12 +164,7 @@ def construct(x, obscure_password = False):
 	return (
 		'pqs' if x.get('ssl', False) is True else 'pq',
 		# netloc: user:pass@host[:port]
-		ri.unsplit_netloc((
-			x.get('user'),
-			password,
-			host,
-			None if 'port' not in x else str(x['port'])
-		)),
+		netloc,
 		None if not path else '/'.join([
 			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
-- 
2.43.0


From 607a5f10624963dfc3f1df44d00c2a9ef73d8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 090/153] fix: escape brackets in the names of settings in IRIs

---
 postgresql/iri.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 72e8a17..1c1547f 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -26,6 +26,7 @@ del itemgetter
 import re
 escape_path_re = re.compile('[%s]' %(re.escape(ri.unescaped + ','),))
 escape_address_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@/?#[]'),))
+escape_setting_re = re.compile('[%s]' %(re.escape(ri.unescaped + '&=#[]'),))
 escape_unix_re = re.compile('[%s]' %(re.escape(ri.unescaped + '@:?#[]'),))
 
 def structure(d, fieldproc = ri.unescape):
@@ -161,6 +162,13 @@ def construct(x, obscure_password = False):
 	}.items())
 	driver_params.sort(key=get0)
 
+	queries = []
+	if driver_params:
+		queries.append(ri.construct_query(driver_params))
+	if no_path_settings is not None:
+		# Brackets around the key identify driver parameters.
+		queries.append(ri.construct_query(no_path_settings, key_re = escape_setting_re))
+
 	return (
 		'pqs' if x.get('ssl', False) is True else 'pq',
 		# netloc: user:pass@host[:port]
@@ -169,12 +177,7 @@ def construct(x, obscure_password = False):
 			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
-		(ri.construct_query(driver_params) if driver_params else None)
-		if no_path_settings is None else (
-			ri.construct_query(
-				driver_params + no_path_settings
-			)
-		),
+		'&'.join(queries) if queries else None,
 		None if search_path is None else construct_path(search_path),
 	)
 
-- 
2.43.0


From ca6c7f72551f9cfbdc7987ba7ff623c8d09219e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:18 +0000
Subject: [PATCH 091/153] fix: serialize settings that are not strings

---
 postgresql/iri.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 1c1547f..54d0e91 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -112,7 +112,9 @@ def construct(x, obscure_password = False):
 			search_path = [(k,v) for k,v in siter if k == 'search_path']
 			search_path.append((None,None))
 			search_path = search_path[-1][1]
-		no_path_settings = [(k,v) for k,v in siter if k != 'search_path']
+		no_path_settings = [
+			(k, v if v is None else str(v)) for k,v in siter if k != 'search_path'
+		]
 		if not no_path_settings:
 			no_path_settings = None
 
-- 
2.43.0


From a84548006156960e32da36b6bd638025c844433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 092/153] fix: keep the schema, table, column, datatype and
 constraint of errors

---
 postgresql/driver/pq3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index dde64dd..9f8e0a0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -60,6 +60,12 @@ notice_field_to_name = {
 	message_types[b'F'[0]] : 'file',
 	message_types[b'L'[0]] : 'line',
 	message_types[b'R'[0]] : 'function',
+	message_types[b's'[0]] : 'schema',
+	message_types[b't'[0]] : 'table',
+	message_types[b'c'[0]] : 'column',
+	message_types[b'd'[0]] : 'datatype',
+	message_types[b'n'[0]] : 'constraint',
+	message_types[b'V'[0]] : 'nonlocalized_severity',
 }
 del message_types
 
-- 
2.43.0


From 404ba65167864a3983eeac0994580695b2f88e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:37 +0000
Subject: [PATCH 093/153] fix: recognize the severity of translated messages

---
 postgresql/driver/pq3.py | 4 +++-
 postgresql/exceptions.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 9f8e0a0..11a17f6 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -585,7 +585,9 @@ class TypeIO(pg_api.TypeIO):
 		m = fields.pop('message')
 		c = fields.pop('code')
 
-		if fields['severity'].upper() == 'WARNING':
+		# The severity proper may be a word of another language.
+		severity = fields.get('nonlocalized_severity', fields['severity'])
+		if severity.upper() == 'WARNING':
 			MessageType = self.lookup_warning(c)
 
 		message = MessageType(m, code = c, details = fields,
diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index 5d71d01..34b369f 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -100,7 +100,7 @@ class Error(Message, Exception):
 
 	@property
 	def fatal(self):
-		f = self.details.get('severity')
+		f = self.details.get('nonlocalized_severity', self.details.get('severity'))
 		return None if f is None else f in ('PANIC', 'FATAL')
 
 class DriverError(Error):
-- 
2.43.0


From 02c3ea75dbddf3fbbac42e24fe6ce6f794fa812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 094/153] fix: compare the contents of messages

---
 postgresql/protocol/element3.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..273fe27 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -241,7 +241,7 @@ class Complete(StringMessage):
 	Command completion message.
 	"""
 	type = message_types[b'C'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 	@classmethod
 	def parse(typ, data):
@@ -350,6 +350,9 @@ class Notice(Message, dict):
 	__slots__ = ()
 	__repr__ = dict_message_repr
 
+	def __eq__(self, ob):
+		return Message.__eq__(self, ob) and dict.__eq__(self, ob)
+
 	def serialize(self):
 		return b'\x00'.join([
 			k + v for k, v in self.items()
@@ -590,6 +593,9 @@ class Startup(Message, dict):
 	__slots__ = ()
 	__repr__ = dict_message_repr
 
+	def __eq__(self, ob):
+		return Message.__eq__(self, ob) and dict.__eq__(self, ob)
+
 	def serialize(self):
 		return self.packed_version + b''.join([
 			k + b'\x00' + v + b'\x00'
@@ -844,7 +850,7 @@ class Close(StringMessage):
 	Generic Close
 	"""
 	type = message_types[b'C'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 	def serialize(self):
 		return self.subtype + self.data + b'\x00'
@@ -864,14 +870,14 @@ class CloseStatement(Close):
 	Close the specified Statement
 	"""
 	subtype = message_types[b'S'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 class ClosePortal(Close):
 	"""
 	Close the specified Portal
 	"""
 	subtype = message_types[b'P'[0]]
-	__slots__ = ()
+	__slots__ = ('data',)
 
 class Function(Message):
 	"""
@@ -978,6 +984,6 @@ class CopyFail(StringMessage):
 
 class CopyDone(EmptyMessage):
 	type = message_types[b'c'[0]]
-	__slots__ = ('data',)
+	__slots__ = ()
 CopyDoneMessage = Message.__new__(CopyDone)
 CopyDone.SingleInstance = CopyDoneMessage
-- 
2.43.0


From f9ad25ba2e616c1ef9a6fc829387426ea54693da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 095/153] fix: terminate the fields of serialized notices and
 errors

---
 postgresql/protocol/element3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 273fe27..6f4720b 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -354,8 +354,8 @@ class Notice(Message, dict):
 		return Message.__eq__(self, ob) and dict.__eq__(self, ob)
 
 	def serialize(self):
-		return b'\x00'.join([
-			k + v for k, v in self.items()
+		return b''.join([
+			k + v + b'\x00' for k, v in self.items()
 			if k and v is not None
 		]) + b'\x00'
 
-- 
2.43.0


From a68ae3df9d177d51b8e2f0a9fb73f3b90d2263bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 096/153] fix: refuse malformed rows without the optimized
 parser

---
 postgresql/protocol/element3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 6f4720b..28aa703 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -493,6 +493,7 @@ class Tuple(TupleMessage):
 		atts = []
 		offset = 2
 		add = atts.append
+		dlen = len(data)
 
 		while natts > 0:
 			alo = offset
@@ -504,9 +505,13 @@ class Tuple(TupleMessage):
 				al = ulong_unpack(size)
 				ao = offset
 				offset = ao + al
+				if offset > dlen:
+					raise ValueError("attribute %d has invalid size %d" %(len(atts), al))
 				att = data[ao:offset]
 			add(att)
 			natts -= 1
+		if offset != dlen:
+			raise ValueError("invalid tuple(D) message, %d remaining bytes" %(dlen - offset,))
 		return T(atts)
 	try:
 		parse = parse_tuple_message
-- 
2.43.0


From d82e54eb542cdf02fd8d44cad7719df3ecd9b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 097/153] fix: refuse truncated messages

---
 postgresql/protocol/element3.py | 37 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 28aa703..bbd7cb4 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -117,6 +117,8 @@ class StringMessage(Message):
 	def parse(typ, data):
 		if not data.endswith(b'\x00'):
 			raise ValueError("string message not NUL-terminated")
+		if b'\x00' in data[:-1]:
+			raise ValueError("string message had data after its NUL")
 		return typ(data[:-1])
 
 class TupleMessage(tuple, Message):
@@ -234,7 +236,8 @@ class ShowOption(Message):
 
 	@classmethod
 	def parse(typ, data):
-		return typ(*(data.split(b'\x00', 2)[0:2]))
+		name, value, _ = data.split(b'\x00', 2)
+		return typ(name, value)
 
 class Complete(StringMessage):
 	"""
@@ -243,10 +246,6 @@ class Complete(StringMessage):
 	type = message_types[b'C'[0]]
 	__slots__ = ('data',)
 
-	@classmethod
-	def parse(typ, data):
-		return typ(data.rstrip(b'\x00'))
-
 	def extract_count(self):
 		"""
 		Extract the last set of digits as an integer.
@@ -361,6 +360,10 @@ class Notice(Message, dict):
 
 	@classmethod
 	def parse(typ, data, msgtypes = message_types):
+		if data != b'\x00' and (
+			data[:1] == b'\x00' or not data.endswith(b'\x00\x00') or b'\x00\x00' in data[:-1]
+		):
+			raise ValueError("message fields not terminated")
 		return typ([
 			(msgtypes[x[0]], x[1:])
 			# "if x" reduce empty fields
@@ -615,16 +618,11 @@ class Startup(Message, dict):
 	@classmethod
 	def parse(typ, data):
 		if data[0:4] != typ.packed_version:
-			raise ValueError("invalid version code {1}".format(repr(data[0:4])))
-		kw = dict()
-		key = None
-		for value in data[4:].split(b'\x00')[:-2]:
-			if key is None:
-				key = value
-				continue
-			kw[key] = value
-			key = None
-		return typ(kw)
+			raise ValueError("invalid version code {0}".format(repr(data[0:4])))
+		strings = data[4:].split(b'\x00')
+		if len(strings) % 2 or strings[-2:] != [b'', b''] or b'' in strings[:-2:2]:
+			raise ValueError("startup parameters not terminated")
+		return typ(zip(strings[:-2:2], strings[1:-2:2]))
 
 AuthRequest_OK = 0
 AuthRequest_Cleartext = 3
@@ -793,6 +791,8 @@ class Bind(Message):
 				ao = offset
 				offset = ao + al
 				att = data[ao:offset]
+				if len(att) != al:
+					raise ValueError("argument %d has invalid size %d" %(len(args), al))
 			args.append(att)
 			natts -= 1
 
@@ -926,10 +926,15 @@ class Function(Message):
 				ao = offset
 				offset = ao + al
 				att = data[ao:offset]
+				if len(att) != al:
+					raise ValueError("argument %d has invalid size %d" %(len(args), al))
 			args.append(att)
 			natts -= 1
 
-		return typ(oid, aformats, args, data[offset:])
+		rformat = data[offset:]
+		if len(rformat) != 2:
+			raise ValueError("invalid result format data size")
+		return typ(oid, aformats, args, rformat)
 
 class CopyBegin(Message):
 	type = None
-- 
2.43.0


From 17c315b9bf43dcc03022885957dc2d06f373e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 098/153] fix: negate the offsets of time with time zone

The offset on the wire is the distance west of UTC.
---
 postgresql/types/io/stdlib_datetime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..0659e47 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -186,9 +186,10 @@ def timetz_pack(x,
 	Create a ((seconds, microseconds), timezone) tuple from a `datetime.time`
 	instance.
 	"""
-	td = x.tzinfo.utcoffset(x)
+	td = x.utcoffset()
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	# PostgreSQL's offset is the distance *west* of UTC.
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +200,7 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From af1ba9406f8b6cf0dfd1ad0055fc738be47c7801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 099/153] fix: keep the seconds of time zone offsets

---
 postgresql/python/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/datetime.py b/postgresql/python/datetime.py
index 5844e33..529ce53 100644
--- a/postgresql/python/datetime.py
+++ b/postgresql/python/datetime.py
@@ -16,7 +16,7 @@ class FixedOffset(datetime.tzinfo):
 		self._tzname = tzname
 		self._offset = offset_in_seconds
 		self._offset_in_mins = offset_in_seconds // 60
-		self._td_offset = datetime.timedelta(0, self._offset_in_mins * 60)
+		self._td_offset = datetime.timedelta(0, offset_in_seconds)
 		self._dst = datetime.timedelta(0)
 
 	def utcoffset(self, offset_from):
-- 
2.43.0


From f245df461113f4f7f35ad16dcc69ebe73c0d5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 100/153] fix: preserve the prefix length of inet values

---
 postgresql/types/io/pg_network.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index a74d5e1..234843f 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -8,17 +8,24 @@ oid_to_type = {
 	CIDROID: ipaddress._BaseNetwork,
 }
 
-def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_address):
+def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_interface):
 	a = Constructor(ob)
-	return pack((a.version, None, a.packed))
+	return pack((a.version, a.network.prefixlen, a.packed))
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
 	return pack((a.version, a.prefixlen, a.network_address.packed))
 
-def inet_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_address):
+def inet_unpack(data,
+	unpack = lib.net_unpack,
+	Constructor = ipaddress.ip_address,
+	Interface = ipaddress.ip_interface,
+):
 	version, mask, data = unpack(data)
-	return Constructor(data)
+	a = Constructor(data)
+	if mask == a.max_prefixlen:
+		return a
+	return Interface((data, mask))
 
 def cidr_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_network):
 	version, mask, data = unpack(data)
-- 
2.43.0


From bf72113e6cfaa9e3a9213f5e239e2b9131ca56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 101/153] fix: support the special values of numeric

---
 postgresql/types/io/stdlib_decimal.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..7df6d3a 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -28,6 +28,12 @@ oid_to_type = {
 #  2. digits, sequence of int()'s
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
+# The signs of the special values, as signed shorts.
+numeric_special = {
+	'NaN' : 0xC000 - 0x10000,
+	'Infinity' : 0xD000 - 0x10000,
+	'-Infinity' : 0xF000 - 0x10000,
+}
 
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
@@ -38,9 +44,12 @@ def numeric_pack(x,
 ):
 	if not isinstance(x, Decimal):
 		x = Decimal(x)
+	if not x.is_finite():
+		if x.is_snan():
+			raise ValueError("numeric does not support signaling NaNs")
+		special = 'NaN' if x.is_nan() else str(x)
+		return pack(((0, 0, numeric_special[special], 0), ()))
 	x = x.as_tuple()
-	if x.exponent == 'F':
-		raise ValueError("numeric does not support infinite values")
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -145,9 +154,14 @@ def numeric_convert_digits(d, str = str, int = int):
 numeric_signs = {
 	numeric_negative : 1,
 }
+special_numerics = {
+	sign : Decimal(name) for name, sign in numeric_special.items()
+}
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] in special_numerics:
+		return special_numerics[header[2]]
 	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
-- 
2.43.0


From f1db3afe0b31c1c03b79551bbc7cd4a2271b24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 102/153] fix: send parameters without binary support as text

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 11a17f6..081129c 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1606,7 +1606,7 @@ class Statement(pg_api.Statement):
 			pack = (typio.resolve(x) or (None,None))[0]
 			packs.append(pack or typio.encode)
 			formats.append(
-				strfmt if x is None else binfmt
+				strfmt if pack is None else binfmt
 			)
 		self._input_io = tuple(packs)
 		self._input_formats = formats
-- 
2.43.0


From 99266ae68b8a9a15e8889b3060b940526995026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 103/153] fix: refuse integers for bytea

---
 postgresql/types/io/builtins.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/builtins.py b/postgresql/types/io/builtins.py
index 0b180df..a34f166 100644
--- a/postgresql/types/io/builtins.py
+++ b/postgresql/types/io/builtins.py
@@ -12,9 +12,13 @@ int2_pack, int2_unpack = lib.short_pack, lib.short_unpack
 int4_pack, int4_unpack = lib.long_pack, lib.long_unpack
 int8_pack, int8_unpack = lib.longlong_pack, lib.longlong_unpack
 
-bytea_pack = bytes
+def bytea_pack(x, bytes = bytes):
+	# bytes(n) would be n zeros.
+	if isinstance(x, int):
+		raise TypeError("cannot convert an integer to bytea")
+	return bytes(x)
 bytea_unpack = bytes
-char_pack = bytes
+char_pack = bytea_pack
 char_unpack = bytes
 
 oid_to_io = {
-- 
2.43.0


From e26d9495acd1c125539ff339d6b4cd103ad16115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 104/153] fix: refuse hardware addresses with excess digits

---
 postgresql/types/io/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..79547a7 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -328,7 +328,7 @@ def macaddr_pack(data, bytes = bytes):
 		mac_parts = [data[:2], data[2:4], data[4:6], data[6:8], data[8:10], data[10:]]
 	else:
 		raise ValueError('data string cannot be parsed to bytes')
-	if len(mac_parts) != 6 and len(mac_parts[-1]) != 2:
+	if len(mac_parts) != 6 or len(mac_parts[-1]) > 2:
 		raise ValueError('data string cannot be parsed to bytes')
 	return bytes([int(p, 16) for p in mac_parts])
 
-- 
2.43.0


From 6e67643199837c4d61acf8542b67a038f2fb4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 105/153] fix: provide the Python types of system identifiers,
 UUIDs, and records

---
 postgresql/driver/pq3.py           | 2 +-
 postgresql/types/io/pg_system.py   | 8 ++++----
 postgresql/types/io/stdlib_uuid.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 081129c..3c06f1d 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -503,7 +503,7 @@ class TypeIO(pg_api.TypeIO):
 
 			return process_tuple(column_unpack, data, raise_unpack_tuple_error)
 
-		return (None, _unpack_record)
+		return (None, _unpack_record, tuple)
 
 	def raise_client_error(self, error_message, cause = None, creator = None):
 		m = {
diff --git a/postgresql/types/io/pg_system.py b/postgresql/types/io/pg_system.py
index 70ce964..efc6503 100644
--- a/postgresql/types/io/pg_system.py
+++ b/postgresql/types/io/pg_system.py
@@ -2,9 +2,9 @@ from ...types import OIDOID, XIDOID, CIDOID, TIDOID
 from . import lib
 
 oid_to_io = {
-	OIDOID : (lib.oid_pack, lib.oid_unpack),
-	XIDOID : (lib.xid_pack, lib.xid_unpack),
-	CIDOID : (lib.cid_pack, lib.cid_unpack),
-	TIDOID : (lib.tid_pack, lib.tid_unpack),
+	OIDOID : (lib.oid_pack, lib.oid_unpack, int),
+	XIDOID : (lib.xid_pack, lib.xid_unpack, int),
+	CIDOID : (lib.cid_pack, lib.cid_unpack, int),
+	TIDOID : (lib.tid_pack, lib.tid_unpack, tuple),
 	#ACLITEMOID : (aclitem_pack, aclitem_unpack),
 }
diff --git a/postgresql/types/io/stdlib_uuid.py b/postgresql/types/io/stdlib_uuid.py
index 3fc33b9..6b8879a 100644
--- a/postgresql/types/io/stdlib_uuid.py
+++ b/postgresql/types/io/stdlib_uuid.py
@@ -10,5 +10,5 @@ def uuid_unpack(x, UUID = uuid.UUID):
 	return UUID(bytes=x)
 
 oid_to_io = {
-	UUIDOID : (uuid_pack, uuid_unpack),
+	UUIDOID : (uuid_pack, uuid_unpack, uuid.UUID),
 }
-- 
2.43.0


From 0041025c5000007b38bdb067311fb41c4c989ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 106/153] fix: use text for containers of types without binary
 support

The binary elements of arrays and records were decoded as text.
---
 postgresql/driver/pq3.py  | 42 +++++++++++++++++++++++++++++----------
 postgresql/lib/libsys.sql | 10 +++++++++-
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3c06f1d..441d372 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -127,19 +127,22 @@ class TypeIO(pg_api.TypeIO):
 	"""
 	_e_factors = ('database',)
 	strio = (None, None, str)
+	# Types whose binary format is the same as their text format.
+	textio = (None, None, str)
 
 	def __init__(self, database):
 		self.database = database
 		self.encoding = None
 		strio = self.strio
+		textio = self.textio
 		self._cache = {
 			# Encoded character strings
 			pg_types.ACLITEMOID : strio, # No binary functions.
-			pg_types.NAMEOID : strio,
-			pg_types.BPCHAROID : strio,
-			pg_types.VARCHAROID : strio,
-			pg_types.CSTRINGOID : strio,
-			pg_types.TEXTOID : strio,
+			pg_types.NAMEOID : textio,
+			pg_types.BPCHAROID : textio,
+			pg_types.VARCHAROID : textio,
+			pg_types.CSTRINGOID : textio,
+			pg_types.TEXTOID : textio,
 			pg_types.REGTYPEOID : strio,
 			pg_types.REGPROCOID : strio,
 			pg_types.REGPROCEDUREOID : strio,
@@ -265,7 +268,7 @@ class TypeIO(pg_api.TypeIO):
 			ti = self.lookup_type_info(typid)
 			if ti is not None:
 				typnamespace, typname, typtype, typlen, typelem, typrelid, \
-					ae_typid, ae_hasbin_input, ae_hasbin_output = ti
+					ae_typid, ae_hasbin_input, ae_hasbin_output, is_text = ti
 				self.typinfo[typid] = (
 					typnamespace, typname, typrelid, int(typelem) if ae_typid else None
 				)
@@ -278,6 +281,7 @@ class TypeIO(pg_api.TypeIO):
 					# are needed to build the packing pair.
 					attmap = {}
 					cio = []
+					hasbin = [True, True]
 					typids = []
 					attnames = []
 					i = 0
@@ -294,6 +298,8 @@ class TypeIO(pg_api.TypeIO):
 							fieldtypid, list(from_resolution_of) + [typid]
 						)
 						cio.append((te[0] or self.encode, te[1] or self.decode))
+						if te is not self.textio:
+							hasbin = [b and f is not None for b, f in zip(hasbin, te)]
 						i += 1
 					self._cache[typid] = typio = self.record_io_factory(
 						cio, typids, attmap, list(
@@ -302,6 +308,7 @@ class TypeIO(pg_api.TypeIO):
 						typrelid,
 						quote_ident(typnamespace) + '.' + \
 						quote_ident(typname),
+						*hasbin
 					)
 				elif ae_typid is not None:
 					# resolve the element type and I/O pair
@@ -309,6 +316,9 @@ class TypeIO(pg_api.TypeIO):
 						int(typelem),
 						from_resolution_of = list(from_resolution_of) + [typid]
 					) or (None, None)
+					if te is not self.textio:
+						ae_hasbin_input = ae_hasbin_input and te[0] is not None
+						ae_hasbin_output = ae_hasbin_output and te[1] is not None
 					typio = self.array_io_factory(
 						te[0] or self.encode,
 						te[1] or self.decode,
@@ -330,7 +340,7 @@ class TypeIO(pg_api.TypeIO):
 						typio = self.anon_record_io_factory()
 
 					if not typio:
-						typio = self.strio
+						typio = self.textio if is_text else self.strio
 
 					self._cache[typid] = typio
 			else:
@@ -404,7 +414,7 @@ class TypeIO(pg_api.TypeIO):
 			# signals string formatting
 			unpack_an_array = None
 
-		return (pack_an_array, unpack_an_array, pg_types.Array)
+		return (pack_an_array, unpack_an_array, pg_types.Array if hasbin_output else str)
 
 	def RowTypeFactory(self, attribute_map = {}, _Row = pg_types.Row.from_sequence, composite_relid = None):
 		return partial(_Row, attribute_map)
@@ -414,6 +424,7 @@ class TypeIO(pg_api.TypeIO):
 	##
 	def record_io_factory(self,
 		column_io, typids, attmap, typnames, attnames, composite_relid, composite_name,
+		hasbin_input = True, hasbin_output = True,
 		get0 = get0,
 		get1 = get1,
 		fmt_errmsg = "failed to {0} attribute {1}, {2}::{3}, of composite {4} from wire data".format
@@ -425,6 +436,7 @@ class TypeIO(pg_api.TypeIO):
 		# attnames: sequence of attribute names in order.
 		# composite_relid: oid of the composite relation.
 		# composite_name: the name of the composite type.
+		# hasbin_input, hasbin_output: whether all the columns have binary I/O.
 
 		fpack = tuple(map(get0, column_io))
 		funpack = tuple(map(get1, column_io))
@@ -477,7 +489,11 @@ class TypeIO(pg_api.TypeIO):
 					process_tuple(fpack, tuple(data), raise_pack_tuple_error)
 				))
 			)
-		return (pack_a_record, unpack_a_record, tuple)
+		return (
+			pack_a_record if hasbin_input else None,
+			unpack_a_record if hasbin_output else None,
+			tuple if hasbin_output else str,
+		)
 
 	def anon_record_io_factory(self):
 		def raise_unpack_tuple_error(cause, procs, tup, itemnum):
@@ -493,11 +509,17 @@ class TypeIO(pg_api.TypeIO):
 				(b'P', str(itemnum),)
 			)), cause = cause)
 
+		def unsupported(data):
+			raise TypeError("type has no binary support")
+
 		def _unpack_record(data, unpack = io_lib.record_unpack, process_tuple = process_tuple):
 			record = list(unpack(data))
 			coloids = tuple(x[0] for x in record)
 			colio = map(self.resolve, coloids)
-			column_unpack = tuple(c[1] or self.decode for c in colio)
+			column_unpack = tuple(
+				c[1] or (self.decode if c is self.textio else unsupported)
+				for c in colio
+			)
 
 			data = tuple(x[1] for x in record)
 
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index ab537cf..3a59436 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -13,7 +13,15 @@ SELECT
  bt.typrelid,
  ae.oid AS ae_typid,
  ae.typreceive::oid != 0 AS ae_hasbin_input,
- ae.typsend::oid != 0 AS ae_hasbin_output
+ ae.typsend::oid != 0 AS ae_hasbin_output,
+ -- Whether the binary format is the same as the text format.
+ EXISTS (
+  SELECT 1 FROM pg_catalog.pg_proc p
+  WHERE p.oid = bt.typsend::oid AND p.prosrc IN (
+   'textsend', 'varcharsend', 'bpcharsend', 'namesend', 'cstring_send',
+   'unknownsend', 'enum_send', 'json_send'
+  )
+ ) AS is_text
 FROM pg_catalog.pg_type bt
  LEFT JOIN pg_type ae
   ON (
-- 
2.43.0


From 1b9908471d550403491f9f8ace07609689b170c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:06 +0000
Subject: [PATCH 107/153] fix: accept notices and errors without the final
 terminator

---
 postgresql/protocol/element3.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index bbd7cb4..bf96ab9 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -360,9 +360,7 @@ class Notice(Message, dict):
 
 	@classmethod
 	def parse(typ, data, msgtypes = message_types):
-		if data != b'\x00' and (
-			data[:1] == b'\x00' or not data.endswith(b'\x00\x00') or b'\x00\x00' in data[:-1]
-		):
+		if not data.endswith(b'\x00'):
 			raise ValueError("message fields not terminated")
 		return typ([
 			(msgtypes[x[0]], x[1:])
-- 
2.43.0


From 9029f4af6c15986bfb4d996e84fe9f054d53fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 108/153] fix: allow anything in the preface of a library

---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 1307a3b..3115e45 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -218,7 +218,7 @@ class ILF(SymbolCollection):
 				blocks.append((curid, curblock))
 				curid = line
 				curblock = []
-			elif line.startswith('*[') and ']' in line:
+			elif curid is not None and line.startswith('*[') and ']' in line:
 				ref, rest = line.split(']', 1)
 				# strip the leading '*['
 				ref = ref[2:]
-- 
2.43.0


From bff8bbc98b17d8d2b497b7dd7a02989781884668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 109/153] fix: retain constant symbols that are NULL

---
 postgresql/lib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 3115e45..bd051e5 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -358,8 +358,8 @@ class Binding(object):
 		db = d['__database__']
 		lib = d['__symbol_library__']
 
-		bs = s.get(name)
-		if bs is None:
+		bs = s.get(name, s)
+		if bs is s:
 			# No symbol cached with that name.
 			# Everything is crammed in here because
 			# we do *not* want methods on this object.
-- 
2.43.0


From 9534794636819d2374773a467d439bc7d463834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 110/153] fix: resolve constants and procedures when the
 library is bound

---
 postgresql/lib/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index bd051e5..9789c65 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -171,8 +171,9 @@ class SymbolCollection(Library):
 			if typ == 'preload':
 				self.preload.add(name)
 				typ = None
-			elif typ == 'proc':
-				pass
+			elif typ in ('const', 'proc'):
+				# resolved when the library is bound.
+				self.preload.add(name)
 			SYM = Symbol(self, query,
 				name = name,
 				method = exe,
-- 
2.43.0


From 291894daa0fbd59cf3e71e926fd3e868ac9b95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 111/153] fix: report the name of conflicting library bindings

---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 9789c65..6cb2c6d 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -428,7 +428,7 @@ class Category(pg_api.Category):
 			B = Binding(database, l)
 			for n in names:
 				if hasattr(database, n):
-					raise AttributeError("attribute already exists: " + name)
+					raise AttributeError("attribute already exists: " + n)
 				setattr(database, n, B)
 
 def find_libsql(libname, paths, prefix = 'lib', suffix = '.sql'):
-- 
2.43.0


From e93441320b19c9742c49a91b7077a04f64ada523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 112/153] fix: support keyword arguments of procedures

---
 postgresql/driver/pq3.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 441d372..4852fab 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1963,23 +1963,24 @@ class StoredProcedure(pg_api.StoredProcedure):
 
 	def __call__(self, *args, **kw):
 		if kw:
-			input = []
-			argiter = iter(args)
+			argc = len(args) + len(kw)
 			try:
-				word_idx = [(kw[k], self._input_attmap[k]) for k in kw]
+				words = {self._input_attmap[k]: kw[k] for k in kw}
 			except KeyError as k:
 				raise TypeError("%s got unexpected keyword argument %r" %(
-						self.name, k.message
+						self.name, k.args[0]
 					)
 				)
-			word_idx.sort(key = get1)
-			current_word = word_idx.pop(0)
-			for x in range(argc):
-				if x == current_word[1]:
-					input.append(current_word[0])
-					current_word = word_idx.pop(0)
-				else:
-					input.append(argiter.next())
+			if argc != self._input_count or max(words) >= argc:
+				raise TypeError("%s takes %d arguments, given %d" %(
+						self.name, self._input_count, argc
+					)
+				)
+			argiter = iter(args)
+			input = [
+				words[x] if x in words else next(argiter)
+				for x in range(argc)
+			]
 		else:
 			input = args
 
@@ -2012,12 +2013,20 @@ class StoredProcedure(pg_api.StoredProcedure):
 
 		self._input_attmap = {}
 		argnames = proctup.get('proargnames') or ()
+		# The names include those of the output parameters.
+		argmodes = proctup.get('proargmodes')
+		if argmodes is not None:
+			argnames = [
+				an for an, mode in zip(argnames, argmodes)
+				if mode in (b'i', b'b', b'v')
+			]
 		for x in range(len(argnames)):
 			an = argnames[x]
-			if an is not None:
+			if an:
 				self._input_attmap[an] = x
 
 		proargs = proctup['proargtypes']
+		self._input_count = len(proargs)
 		for x in proargs:
 			# get metadata filled out.
 			database.typio.resolve(x)
-- 
2.43.0


From 35a2daa6bb93d0de5f78e54f9d2bc0913305f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 113/153] fix: support variadic procedures

---
 postgresql/driver/pq3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 4852fab..2e53306 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2031,12 +2031,16 @@ class StoredProcedure(pg_api.StoredProcedure):
 			# get metadata filled out.
 			database.typio.resolve(x)
 
+		variadic = bool(proctup.get('provariadic'))
 		self.statement = database.prepare(
 			"SELECT * FROM %s(%s) AS func%s" %(
 				proctup['_proid'],
 				# ($1::type, $2::type, ... $n::type)
 				', '.join([
-					 '$%d::%s' %(x + 1, database.typio.sql_type_from_oid(proargs[x]))
+					 '%s$%d::%s' %(
+						'VARIADIC ' if variadic and x + 1 == len(proargs) else '',
+						x + 1, database.typio.sql_type_from_oid(proargs[x])
+					 )
 					 for x in range(0, len(proargs))
 				]),
 				# Description for anonymous record returns
-- 
2.43.0


From b3833c200b6929a3c51dbd608035760570dbcd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:14 +0000
Subject: [PATCH 114/153] fix: give all columns of procedures returning domains
 of composites

---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 2e53306..75734b5 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2050,6 +2050,11 @@ class StoredProcedure(pg_api.StoredProcedure):
 		)
 		self.srf = bool(proctup.get("proretset"))
 		self.composite = proctup["composite"]
+		if not self.composite:
+			# Domains of composites are composites as well.
+			base = database.typio.lookup_domain_basetype(proctup["prorettype"])
+			if base:
+				self.composite = database.typio.lookup_type_info(base)["typtype"] == b'c'
 
 class SettingsCM(object):
 	def __init__(self, database, settings_to_set):
-- 
2.43.0


From e0a64b084c771e9039358f75035ad12e17fbb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 115/153] fix: support procedure parameters named self

---
 postgresql/driver/pq3.py   | 4 +++-
 postgresql/lib/__init__.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 75734b5..a500974 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1961,7 +1961,9 @@ class StoredProcedure(pg_api.StoredProcedure):
 			self.procedure_id, self.statement.string
 		)
 
-	def __call__(self, *args, **kw):
+	def __call__(*args, **kw):
+		# Parameters of procedures may be named "self" as well.
+		self, *args = args
 		if kw:
 			argc = len(args) + len(kw)
 			try:
diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 6cb2c6d..7448bc2 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -294,7 +294,8 @@ class BoundSymbol(object):
 				self.method = getattr(ps, m)
 			self.object = ps
 
-	def __call__(self, *args, **kw):
+	def __call__(*args, **kw):
+		self, *args = args
 		return self.method(*args, **kw)
 
 class BoundReference(object):
-- 
2.43.0


From 59af1e9608f05ad14b5990034aead52f5589d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 116/153] fix: start clusters with settings

---
 postgresql/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 122103e..50d566c 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -336,8 +336,9 @@ class Cluster(pg_api.Cluster):
 			return
 		cmd = (self.daemon_path, '-D', self.data_directory)
 		if settings is not None:
-			for k,v in dict(settings).items():
-				cmd.append('--{k}={v}'.format(k=k,v=v))
+			cmd += tuple([
+				'--{k}={v}'.format(k=k,v=v) for k,v in dict(settings).items()
+			])
 
 		p = sp.Popen(
 			cmd,
-- 
2.43.0


From 1ee3ebe1a973b203c991bc87fc5108b82583e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 117/153] fix: disregard pid files that do not identify a
 server

---
 postgresql/cluster.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 50d566c..fc81d52 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -133,10 +133,16 @@ class Cluster(pg_api.Cluster):
 		try:
 			path = os.path.join(self.data_directory, self.DEFAULT_PID_FILENAME)
 			with open(path) as f:
-				return int(f.readline())
+				pid = int(f.readline())
+		except ValueError:
+			# not written yet
+			return None
 		except IOError as e:
-			if e.errno in (errno.EIO, errno.ENOENT):
+			if e.errno in (errno.EIO, errno.ENOENT, errno.ENOTDIR):
 				return None
+			raise
+		# negative if it is held by a standalone backend, not a server
+		return pid if pid > 0 else None
 
 	@property
 	def pid(self):
-- 
2.43.0


From 85a55c767c3029eca34797d56a5a09418e5af954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 118/153] fix: signal the running server of a cluster

---
 postgresql/cluster.py | 52 ++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index fc81d52..4f668e7 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -147,14 +147,23 @@ class Cluster(pg_api.Cluster):
 	@property
 	def pid(self):
 		"""
-		If we have the subprocess, use the pid on the object.
+		The pid of the server process. `None` if it is not running.
+
+		The pid file may have been left by a server that does not exist anymore.
 		"""
+		# Collects the daemon's exit code when it is done.
+		d = self.daemon_process
+		daemon = d.pid if d is not None and d.poll() is None else None
 		pid = self.get_pid_from_file()
-		if pid is None:
-			d = self.daemon_process
-			if d is not None:
-				return d.pid
-		return pid
+		if pid is not None and pid != daemon:
+			try:
+				pg_kill(pid, 0)
+			except OSError as e:
+				# EPERM is a process of another user.
+				if e.errno not in (errno.ESRCH, errno.EPERM):
+					raise
+				pid = None
+		return daemon if pid is None else pid
 
 	@property
 	def settings(self):
@@ -449,28 +458,7 @@ class Cluster(pg_api.Cluster):
 
 		This does *not* mean the cluster is accepting connections.
 		"""
-		if self.daemon_process is not None:
-			r = self.daemon_process.poll()
-			if r is not None:
-				pid = self.get_pid_from_file()
-				if pid is not None:
-					# daemon process does not exist, but there's a pidfile.
-					self.daemon_process = None
-					return self.running()
-				return False
-			else:
-				return True
-		else:
-			pid = self.get_pid_from_file()
-			if pid is None:
-				return False
-			try:
-				pg_kill(pid, signal.SIG_DFL)
-			except OSError as e:
-				if e.errno != errno.ESRCH:
-					raise
-				return False
-			return True
+		return self.pid is not None
 
 	def connector(self, **kw):
 		"""
@@ -631,14 +619,12 @@ class Cluster(pg_api.Cluster):
 		"""
 		start = time.time()
 		while self.running() is True:
-			# pickup the exit code.
-			if self.daemon_process is not None:
-				self.last_exit_code = self.daemon_process.poll()
-			else:
-				self.last_exit_code = pg_kill(self.get_pid_from_file(), 0)
 			if time.time() - start >= timeout:
 				raise ClusterTimeoutError(
 					'timeout on shutdown',
 					creator = self,
 				)
 			time.sleep(delay)
+		# pickup the exit code.
+		if self.daemon_process is not None:
+			self.last_exit_code = self.daemon_process.returncode
-- 
2.43.0


From d6bd8e999e982e8851b0097a7b538a9d82e89d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 119/153] fix: report the pid of running clusters

---
 postgresql/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 4f668e7..c31c25f 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -117,7 +117,7 @@ class Cluster(pg_api.Cluster):
 		state = self.state
 		yield (None, '[' + state + ']')
 		if state == 'running':
-			yield ('pid', self.state)
+			yield ('pid', self.pid)
 
 	@property
 	def daemon_path(self):
-- 
2.43.0


From 4701396b432fb8fb16981bb3bb15b94aa743c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 120/153] fix: answer ready_for_connections with booleans

---
 postgresql/cluster.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index c31c25f..0647621 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -521,9 +521,19 @@ class Cluster(pg_api.Cluster):
 		If the daemon is running, and is not in startup mode.
 
 		This only works for clusters configured for TCP/IP connections.
+
+		`None` if it is not running at all.
+		"""
+		r = self._ping()
+		return r if r is None or r is True else False
+
+	def _ping(self):
+		"""
+		`True` if the server is ready, `None` if it is not running, and the
+		reason for it not being ready otherwise.
 		"""
 		if not self.running():
-			return False
+			return None
 		e = None
 		host, port = self.address()
 		connection = self.driver.fit(
@@ -587,7 +597,7 @@ class Cluster(pg_api.Cluster):
 						"postgres daemon has not been started",
 						creator = self
 					)
-			r = self.ready_for_connections()
+			r = self._ping()
 
 			checkpoint = time.time()
 			if r is True:
@@ -603,7 +613,7 @@ class Cluster(pg_api.Cluster):
 					'timeout on startup',
 					creator = self
 				)
-				if r not in (True,False):
+				if r is not None:
 					raise e from r
 				raise e
 			time.sleep(delay)
-- 
2.43.0


From a0cbc165d102270fe693f484fb4e064878f835ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 121/153] fix: drop clusters containing links to directories

---
 postgresql/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 0647621..bbdecb4 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -340,7 +340,12 @@ class Cluster(pg_api.Cluster):
 			for name in files:
 				os.remove(os.path.join(root, name))
 			for name in dirs:
-				os.rmdir(os.path.join(root, name))	
+				path = os.path.join(root, name)
+				# Directories may be linked: tablespaces, WAL.
+				if os.path.islink(path):
+					os.remove(path)
+				else:
+					os.rmdir(path)
 		os.rmdir(self.data_directory)
 
 	def start(self, logfile = None, settings = None):
-- 
2.43.0


From 4d4653a6607fb616f645521724004270087c1494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 122/153] fix: leave clusters running that were running when
 entered

---
 postgresql/cluster.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index bbdecb4..bc36310 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -190,6 +190,7 @@ class Cluster(pg_api.Cluster):
 		)
 		self.daemon_process = None
 		self.daemon_command = None
+		self._entered = []
 
 	def __repr__(self, format = "{mod}.{name}({ins!r}, {dir!r})".format):
 		return format(
@@ -203,16 +204,20 @@ class Cluster(pg_api.Cluster):
 		"""
 		Start the cluster and wait for it to startup.
 		"""
+		started = not self.running()
 		self.start()
 		self.wait_until_started()
+		self._entered.append(started)
 		return self
 
 	def __exit__(self, typ, val, tb):
 		"""
-		Stop the cluster and wait for it to shutdown.
+		Stop the cluster and wait for it to shutdown, if it was started by the
+		corresponding enter.
 		"""
-		self.stop()
-		self.wait_until_stopped()
+		if self._entered.pop():
+			self.stop()
+			self.wait_until_stopped()
 
 	def init(self, password = None, timeout = None, **kw):
 		"""
-- 
2.43.0


From 694a8e2b20d02fc623bb2ab24a82dd44f75a2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 123/153] fix: terminate the connections of temporary clusters

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index a19a845..cd4179a 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -65,6 +65,7 @@ class Temporal(object):
 	def destroy(self):
 		# Don't destroy if it's not the initializing process.
 		if os.getpid() == self._init_pid_:
+			cluster = self.cluster
 			# Kill all the open connections.
 			try:
 				c = cluster.connection(user = 'test', database = 'template1',)
@@ -76,7 +77,6 @@ class Temporal(object):
 			except Exception:
 				# Doesn't matter much if it fails.
 				pass
-			cluster = self.cluster
 			self.cluster = None
 			self._init_pid_ = None
 			if cluster is not None:
-- 
2.43.0


From fa793df92e983d9c7935b9911a825ef375395414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 124/153] fix: restore the new builtin

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index cd4179a..4ceb240 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -44,7 +44,7 @@ class Temporal(object):
 		'settings',
 		'prepare',
 		'sqlexec',
-		'newdb',
+		'new',
 	}
 
 	def __init__(self):
-- 
2.43.0


From 600a131bcc33b95414cf2ce5ca75f15486d4c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:34 +0000
Subject: [PATCH 125/153] fix: report the termination of unconfigured clusters

---
 postgresql/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index bc36310..291f4fe 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -545,7 +545,11 @@ class Cluster(pg_api.Cluster):
 		if not self.running():
 			return None
 		e = None
-		host, port = self.address()
+		try:
+			host, port = self.address()
+		except FileNotFoundError as err:
+			# not configured, the server cannot be ready
+			return err
 		connection = self.driver.fit(
 			user = ' -*- ping -*- ',
 			host = host, port = port,
-- 
2.43.0


From cd64f80abc1e1dc6e8378ed9c3dde4e2d047ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:25 +0000
Subject: [PATCH 126/153] fix: check the readiness of clusters with default
 addresses

---
 postgresql/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 291f4fe..b402ff4 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -552,7 +552,7 @@ class Cluster(pg_api.Cluster):
 			return err
 		connection = self.driver.fit(
 			user = ' -*- ping -*- ',
-			host = host, port = port,
+			host = host or 'localhost', port = port or 5432,
 			database = 'template1',
 			sslmode = 'disable',
 		)()
-- 
2.43.0


From 24becf3814bb986cabe3de5f3186376a63486016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:43 +0000
Subject: [PATCH 127/153] fix: allow spaces in the listen_addresses of clusters

---
 postgresql/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index b402ff4..4cd4c82 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -513,7 +513,9 @@ class Cluster(pg_api.Cluster):
 		if d.get('listen_addresses') is not None:
 			# Prefer localhost over other addresses.
 			# More likely to get a successful connection.
-			addrs = d.get('listen_addresses').lower().split(',')
+			addrs = [
+				x.strip() for x in d.get('listen_addresses').lower().split(',')
+			]
 			if 'localhost' in addrs or '*' in addrs:
 				host = 'localhost'
 			elif '127.0.0.1' in addrs:
-- 
2.43.0


From 463005999db879588bedd5d7e868414a10dd626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 128/153] fix: bind libraries of procedures that do not exist
 yet

---
 postgresql/lib/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 7448bc2..654eeca 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -171,9 +171,12 @@ class SymbolCollection(Library):
 			if typ == 'preload':
 				self.preload.add(name)
 				typ = None
-			elif typ in ('const', 'proc'):
+			elif typ == 'const':
 				# resolved when the library is bound.
 				self.preload.add(name)
+			elif typ == 'proc':
+				# The procedure may not exist yet.
+				pass
 			SYM = Symbol(self, query,
 				name = name,
 				method = exe,
-- 
2.43.0


From 91e7b41720b0028f51004db7130fb186d28319c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 129/153] fix: only terminate backends

---
 postgresql/lib/libsys.sql | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index 3a59436..36915e4 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -239,6 +239,8 @@ FROM
 	pg_catalog.pg_stat_activity
 WHERE
 	pid != pg_catalog.pg_backend_pid()
+	-- Processes that are not backends have none.
+	AND datid IS NOT NULL
 
 [cancel_backends:transient:column]
 -- Cancel all except mine.
-- 
2.43.0


From 3a7395fdd023f6b1b7f6b9fb60adb5ea9fb79bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 130/153] fix: bind libraries before their constants can be
 evaluated

---
 postgresql/lib/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 654eeca..3c7fa36 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -171,9 +171,6 @@ class SymbolCollection(Library):
 			if typ == 'preload':
 				self.preload.add(name)
 				typ = None
-			elif typ == 'const':
-				# resolved when the library is bound.
-				self.preload.add(name)
 			elif typ == 'proc':
 				# The procedure may not exist yet.
 				pass
-- 
2.43.0


From 3838b833e0c518a5e8d343ef45fd0bbf49575778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:46 +0000
Subject: [PATCH 131/153] fix: use distinct sandbox schemas for all temporary
 contexts

---
 postgresql/temporal.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 4ceb240..bda9420 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -35,6 +35,7 @@ class Temporal(object):
 
 	_init_pid_ = None
 	_local_id_ = 0
+	_sandbox_count_ = 0
 	builtins_keys = {
 		'connector',
 		'db',
@@ -176,7 +177,9 @@ class Temporal(object):
 			c.connect()
 
 		extras = []
-		sbid = self.format_sandbox_id(os.getpid(), self.sandbox_id + 1)
+		# Never used twice: exits by interrupts leave the schema.
+		self.__class__._sandbox_count_ += 1
+		sbid = self.format_sandbox_id(os.getpid(), self._sandbox_count_)
 
 		def new_pg_tmp_connection(l = extras, clone = c.clone, sbid = sbid):
 			# Used to create a new connection that will be closed
@@ -203,15 +206,15 @@ class Temporal(object):
 				k : builtins.__dict__[k] for k in self.builtins_keys
 				if k in builtins.__dict__
 			}
-			self.builtins_stack.append((current, []))
+			self.builtins_stack.append((current, [], None))
 
 		# Store and push.
-		self.builtins_stack.append((local_builtins, extras))
+		self.builtins_stack.append((local_builtins, extras, sbid))
 		builtins.__dict__.update(local_builtins)
 		self.sandbox_id += 1
 
-	def pop(self, exc, drop_schema = ('DROP SCHEMA {0} CASCADE').format):
-		local_builtins, extras = self.builtins_stack.pop()
+	def pop(self, exc, drop_schema = ('DROP SCHEMA IF EXISTS {0} CASCADE').format):
+		local_builtins, extras, sbid = self.builtins_stack.pop()
 		self.sandbox_id -= 1
 
 		# restore __builtins__
@@ -245,14 +248,14 @@ class Temporal(object):
 				# Use a new connection so that the state of
 				# the context connection will not have to be
 				# contended with.
-				c.execute(drop_schema(self.format_sandbox_id(os.getpid(), self.sandbox_id + 1)))
+				c.execute(drop_schema(sbid))
 		else:
 			# interrupt exception; avoid waiting for close
 			pass
 
 	def _init_c(self, cxn):
 		cxn.connect()
-		sb = self.format_sandbox_id(os.getpid(), self.sandbox_id)
+		sb = self.builtins_stack[-1][2]
 		cxn.execute('CREATE SCHEMA ' + sb)
 		cxn.settings['search_path'] = ','.join((sb, cxn.settings['search_path']))
 
-- 
2.43.0


From 4a754f300881aa9b5d4c0c2f306b51e1fb9b881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:58 +0000
Subject: [PATCH 132/153] fix: restore the builtins set before temporary
 contexts

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index bda9420..c0baed2 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -221,7 +221,7 @@ class Temporal(object):
 		if len(self.builtins_stack) > 1:
 			builtins.__dict__.update(self.builtins_stack[-1][0])
 		else:
-			previous = self.builtins_stack.popleft()
+			previous = self.builtins_stack.popleft()[0]
 			for x in self.builtins_keys:
 				if x in previous:
 					builtins.__dict__[x] = previous[x]
-- 
2.43.0


From 88cc42bea0d9ac5f29d80a2aeac9ed23c71c5141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:58 +0000
Subject: [PATCH 133/153] fix: restore builtins when the entry of a temporary
 context is interrupted

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index c0baed2..89a3c59 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -266,7 +266,7 @@ class Temporal(object):
 		self.push()
 		try:
 			self._init_c(builtins.db)
-		except Exception as e:
+		except BaseException as e:
 			# failed to initialize sandbox schema; pop it.
 			self.pop(e)
 			raise
-- 
2.43.0


From 0c8965108287089e5d9773d1bc9b07db683a9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:23 +0000
Subject: [PATCH 134/153] fix: finish the running operation before looking at
 the transaction state

Where an operation had been left by an exception, chunks() and
Transaction.start() went by the state before it: after an abandoned COMMIT
they used a portal or SAVEPOINT outside of a transaction block.
---
 postgresql/driver/pq3.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a500974..0e9d112 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1691,6 +1691,9 @@ class Statement(pg_api.Statement):
 		if self._output is None:
 			# It's *probably* a COPY.
 			return SingleXactCopy(self, parameters)
+		# The state is not known while an operation is running;
+		# it may end the transaction.
+		self.database._pq_finish()
 		if self.database.pq.state == b'I':
 			# Currently, *not* in a Transaction block, so
 			# DECLARE the statement WITH HOLD in order to allow
@@ -2311,6 +2314,8 @@ class Transaction(pg_api.Transaction):
 			))
 			self.database.typio.raise_client_error(em, creator = self)
 
+		# The state is not known while an operation is running.
+		self.database._pq_finish()
 		if self.database.pq.state == b'I':
 			self.type = 'block'
 			q = self._start_xact_string(
@@ -2743,12 +2748,16 @@ class Connection(pg_api.Connection):
 
 		super().connect()
 
-	def _pq_push(self, xact, controller = None):
+	# Finish the running protocol transaction, if any.
+	def _pq_finish(self):
 		x = self.pq.xact
 		if x is not None:
 			self.pq.complete()
 			if x.fatal is not None:
 				self.typio.raise_error(x.error_message)
+
+	def _pq_push(self, xact, controller = None):
+		self._pq_finish()
 		if controller is not None:
 			self._controller = controller
 		self.pq.push(xact)
-- 
2.43.0


From bcee94b2350d759d65bea6c03975d9a44e4e9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:10 +0000
Subject: [PATCH 135/153] fix: keep the requested chunk when the next() of a
 stream is interrupted

The request had been dispatched; the next attempt dispatched another one and
the rows of the first one were lost.
---
 postgresql/driver/pq3.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 0e9d112..25cc6cc 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1017,6 +1017,8 @@ class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
 	# only tuple streams
 	_process_method = '_process_tuple_chunk'
+	# request for the next chunk; only if __next__() was interrupted after it
+	_more = None
 
 	def _e_metas(self):
 		yield ('chunksize', self.chunksize)
@@ -1065,11 +1067,21 @@ class MultiXactStream(Chunks):
 		]
 		if len(chunk) == self.chunksize:
 			# there may be more, dispatch the request for the next chunk
-			more = self._ins(self._command)
-			self.database._pq_push(more, self)
+			more = self._more
+			if more is None:
+				more = self._ins(self._command)
+				try:
+					self.database._pq_push(more, self)
+				except BaseException:
+					if self.database.pq.xact is more:
+						# Interrupted, but dispatched: its rows would be lost
+						# if the next attempt requested the chunk again.
+						self._more = more
+					raise
 			# Not earlier: _pq_push() may raise the error of another operation,
 			# and the chunk has to be available to the next attempt then.
 			self._xact = more
+			self._more = None
 		else:
 			# it's done.
 			self._xact = None
-- 
2.43.0


From aacd61c4e9ffdd6ed05680f8a5cfdab593cd8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:53 +0000
Subject: [PATCH 136/153] fix: bits of bit strings can be accessed by position
 and iterated

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 018b762..d30e37d 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -63,7 +63,7 @@ class Varbit(object):
 			raise IndexError("bit index %d out of range" %(bitoffset,))
 
 		byte, bitofbyte = divmod(idx, 8)
-		if ord(self.data[byte]) & (1 << (7 - bitofbyte)):
+		if self.data[byte] & (1 << (7 - bitofbyte)):
 			return OneBit
 		else:
 			return ZeroBit
-- 
2.43.0


From 4f931b0433fd107ba04c7668f5bfc2a4c8ba6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:53 +0000
Subject: [PATCH 137/153] fix: the truth of bit strings is that of their bits

---
 postgresql/types/bitwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index d30e37d..1f84381 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -74,7 +74,7 @@ class Varbit(object):
 		else:
 			return self.getbit(item)
 
-	def __nonzero__(self):
+	def __bool__(self):
 		for x in self.data:
 			if x != 0:
 				return True
@@ -89,7 +89,7 @@ class Bit(Varbit):
 
 		raise ValueError('unknown bit value %r, 0 or 1' %(ob,))
 
-	def __nonzero__(self):
+	def __bool__(self):
 		return self is OneBit
 
 	def __str__(self):
-- 
2.43.0


From 2d0ce667a576db609078a0c27bb8b543f5cb5a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:53 +0000
Subject: [PATCH 138/153] fix: comparing a bit string with other objects does
 not raise

---
 postgresql/types/bitwise.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 1f84381..485dfc7 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -41,8 +41,12 @@ class Varbit(object):
 		)
 
 	def __eq__(self, ob):
-		if not isinstance(ob, type(self)):
-			ob = type(self)(ob)
+		if not isinstance(ob, Varbit):
+			try:
+				ob = type(self)(ob)
+			except (TypeError, ValueError, AttributeError):
+				# Not a bit string.
+				return NotImplemented
 		return ob.bits == self.bits and ob.data == self.data
 
 	def __len__(self):
-- 
2.43.0


From 51e6af711f6cfbc793190c92120366f22874a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:53 +0000
Subject: [PATCH 139/153] fix: slices of a single bit

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 485dfc7..5c25b18 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -74,7 +74,7 @@ class Varbit(object):
 
 	def __getitem__(self, item):
 		if isinstance(item, slice):
-			return type(self)(str(self)[item])
+			return Varbit(str(self)[item])
 		else:
 			return self.getbit(item)
 
-- 
2.43.0


From ead0213235dfd8ab771e94efd6850b83440495e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:53 +0000
Subject: [PATCH 140/153] fix: division of points

---
 postgresql/types/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index ba996e5..1e96594 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -39,7 +39,7 @@ class Point(tuple):
 		ry = (self[0] * wy) + (self[1] * wx)
 		return type(self)((rx, ry))
 
-	def __div__(self, ob):
+	def __truediv__(self, ob):
 		sx, sy = self
 		wx, wy = ob
 		div = (wx * wx) + (wy * wy)
-- 
2.43.0


From 5f9e7da9806a685da8bdf69df5b97221f6b9eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:53 +0000
Subject: [PATCH 141/153] fix: direction of vertical and horizontal line
 segments

---
 postgresql/types/geometry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index 1e96594..9843b1f 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -93,10 +93,16 @@ class Lseg(tuple):
 		)
 
 	def parallel(self, ob):
-		return self.slope == type(self)(ob).slope
+		sx, sy = self[1] - self[0]
+		ob = type(self)(ob)
+		ox, oy = ob[1] - ob[0]
+		return sx * oy == sy * ox
 
 	def perpendicular(self, ob):
-		return (self.slope / type(self)(ob).slope) == -1.0
+		sx, sy = self[1] - self[0]
+		ob = type(self)(ob)
+		ox, oy = ob[1] - ob[0]
+		return sx * ox + sy * oy == 0
 
 class Box(tuple):
 	"""
-- 
2.43.0


From c226303ede44d3c8acd8d50193c046e4e8b4e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:26 +0000
Subject: [PATCH 142/153] fix: the sign of the division of points

---
 postgresql/types/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index 9843b1f..d552a4e 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -44,7 +44,7 @@ class Point(tuple):
 		wx, wy = ob
 		div = (wx * wx) + (wy * wy)
 		rx = ((sx * wx) + (sy * wy)) / div
-		ry = ((wx * sy) + (wy * sx)) / div
+		ry = ((wx * sy) - (wy * sx)) / div
 		return type(self)((rx, ry))
 
 	def distance(self, ob, sqrt = math.sqrt):
-- 
2.43.0


From 58115321d5e2aa8436c040cc5767a0d208e243fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:26 +0000
Subject: [PATCH 143/153] fix: the representation of line segments evaluates to
 them

---
 postgresql/types/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index d552a4e..e057644 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -77,7 +77,7 @@ class Lseg(tuple):
 
 	def __repr__(self):
 		# Avoid the point representation
-		return '%s.%s(%s, %s)' %(
+		return '%s.%s((%s, %s))' %(
 			type(self).__module__,
 			type(self).__name__,
 			tuple.__repr__(self[0]),
-- 
2.43.0


From 9349c490a430e2219a7d3726ca022c9174a1a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:26 +0000
Subject: [PATCH 144/153] fix: refuse text of bit strings with other characters
 than 0 and 1

---
 postgresql/types/bitwise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 5c25b18..5b42372 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -17,6 +17,8 @@ class Varbit(object):
 		if isinstance(data, bytes):
 			return typ.from_bits(len(data) * 8, data)
 		# str(), eg '00101100'
+		if data.strip('01'):
+			raise ValueError('invalid bit string %r' %(data,))
 		bits = len(data)
 		nbytes, remain = divmod(bits, 8)
 		bdata = [bytes((int(data[x:x+8], 2),)) for x in range(0, bits - remain, 8)]
-- 
2.43.0


From f6bedae4b1c26b4af64bb12dcb0b7368f2fd4f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:21 +0000
Subject: [PATCH 145/153] fix: sql_column_types of a result without rows is
 None, as the other descriptions are

---
 postgresql/driver/pq3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 25cc6cc..013bedc 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -865,10 +865,12 @@ class Output(object):
 
 	@property
 	def sql_column_types(self):
-		return [
-			self.database.typio.sql_type_from_oid(x)
-			for x in self.pg_column_types
-		]
+		if self._output is not None:
+			return [
+				self.database.typio.sql_type_from_oid(x)
+				for x in self.pg_column_types
+			]
+		# `None` if _output does not exist; not row data
 
 	def command(self):
 		"""
-- 
2.43.0


From 8ee2a12ca53a493836273e7d08034705aea6acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:25 +0000
Subject: [PATCH 146/153] fix: ignore what packagers append to the version of
 the server

---
 postgresql/versionstring.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 04c065a..61838fa 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -7,13 +7,16 @@ PostgreSQL version string parsing.
 >>> postgresql.versionstring.split('8.0.1')
 (8, 0, 1, None, None)
 """
+import re
 
 def split(vstr: str) -> tuple:
 	"""
 	Split a PostgreSQL version string into a tuple.
 	(major, minor, patch, ..., state_class, state_level)
+
+	What packagers append to the version, "16.3 (Debian 16.3-1)", is ignored.
 	"""
-	v = vstr.strip().split('.')
+	v = re.match('[0-9A-Za-z.]*', vstr.strip()).group().split('.')
 
 	# Get rid of the numbers around the state_class (beta,a,dev,alpha, etc)
 	state_class = v[-1].strip('0123456789')
-- 
2.43.0


From dbee0e17739eda82e14a19660309e2ef58535bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:25 +0000
Subject: [PATCH 147/153] fix: installations whose packager appended to the
 version

---
 postgresql/installation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 5856816..16ab957 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -209,7 +209,7 @@ class Installation(pg_api.Installation):
 		"""
 		self.info = info
 		self.version = self.info["version"]
-		self.type, vs = self.version.split()
+		self.type, vs = self.version.split(None, 1)
 		self.version_info = versionstring.normalize(versionstring.split(vs))
 		self.configure_options = dict(
 			parse_configure_options(self.info.get('configure', ''))
-- 
2.43.0


From 613af4b59ab83b66dfde43e6f44caecb2c493579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:25 +0000
Subject: [PATCH 148/153] fix: versions of more than three numbers

---
 postgresql/versionstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 61838fa..44f6188 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -36,7 +36,7 @@ def split(vstr: str) -> tuple:
 		state_class = None
 		vlist = [int(x or '0') for x in v]
 		# pad the difference with `None` objects, and +2 for the state_*.
-		vlist += [None] * ((3 - len(vlist)) + 2)
+		vlist += [None] * (max(3 - len(vlist), 0) + 2)
 	return tuple(vlist)
 
 def unsplit(vtup: tuple) -> str:
-- 
2.43.0


From 4d360d0e2ebb6f7450c56f3a0c953c32e4f5c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:25 +0000
Subject: [PATCH 149/153] fix: unsplit versions whose state has no level

---
 postgresql/versionstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 44f6188..6716dbb 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -45,7 +45,8 @@ def unsplit(vtup: tuple) -> str:
 	"""
 	svtup = [str(x) for x in vtup[:-2] if x is not None]
 	state_class, state_level = vtup[-2:]
-	return '.'.join(svtup) + ('' if state_class is None else state_class + str(state_level))
+	return '.'.join(svtup) + ('' if state_class is None else
+		state_class + ('' if state_level is None else str(state_level)))
 
 def normalize(split_version: tuple) -> tuple:
 	"""
-- 
2.43.0


From 6765b2494916e35ad02a5c3610256db7f10504fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:07 +0000
Subject: [PATCH 150/153] fix: read scripts in the encoding that they declare

---
 postgresql/python/command.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index d88b154..c750ff8 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -53,6 +53,7 @@ import types
 import optparse
 import subprocess
 import contextlib
+import tokenize
 
 from gettext import gettext as _
 from traceback import print_exception
@@ -98,7 +99,7 @@ class file_loader(object):
 	def _read(self):
 		if hasattr(self, '_source'):
 			return self._source
-		f = open(self.filepath)
+		f = tokenize.open(self.filepath)
 		try:
 			return f.read()
 		finally:
@@ -448,7 +449,7 @@ class Execution(object):
 		# If there are args, but no main, run the first arg.
 		elif args:
 			fp = self.args[0]
-			f = open(fp)
+			f = tokenize.open(fp)
 			try:
 				l = file_loader(fp, fileobj = f)
 			finally:
-- 
2.43.0


From f05e185fb320e9c1793c9042649194c377b9a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:07 +0000
Subject: [PATCH 151/153] fix: -m of a package runs its main module

---
 postgresql/python/command.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index c750ff8..194b5e4 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -445,6 +445,16 @@ class Execution(object):
 						ltitle, path
 					)
 				)
+			if rloader is module_loader and l.is_package(path):
+				# As Python does, run the package's main module.
+				path = path + '.__main__'
+				l = rloader(path)
+				if l is None:
+					raise ImportError(
+						"%s %r is a package and cannot be executed" %(
+							ltitle, path[:-len('.__main__')]
+						)
+					)
 			self.main = (path, l)
 		# If there are args, but no main, run the first arg.
 		elif args:
-- 
2.43.0


From 5a86415ae69792f819560ed8f11b15627c255eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:07 +0000
Subject: [PATCH 152/153] fix: relative imports of modules ran with -m

---
 postgresql/python/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index 194b5e4..1d13e14 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -483,6 +483,9 @@ class Execution(object):
 		mod.__package__ = None
 		self.module__main__ = mod
 		path = getattr(self.main[1], 'fullname', None)
+		if path is None:
+			# `fullname` is that of the removed pkgutil.ImpLoader
+			path = getattr(self.main[1], 'name', None)
 		if path is not None:
 			mod.__package__ = '.'.join(path.split('.')[:-1])
 
-- 
2.43.0


From ccdbdb331d9c3c6c402b32fabb0aaa2a33c44447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:07 +0000
Subject: [PATCH 153/153] fix: scripts can import the modules beside them

---
 postgresql/python/command.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index 1d13e14..716597a 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -554,6 +554,9 @@ class Execution(object):
 			)(path)
 			sys.argv = list(self.args)
 			sys.argv.insert(0, self.module__main__.__file__)
+			if isinstance(loader, file_loader) and path != '<stdin>':
+				# Modules beside the script.
+				sys.path.insert(0, os.path.dirname(os.path.realpath(path)))
 			try:
 				code = loader.get_code(path)
 			except:
@@ -603,13 +606,14 @@ class Execution(object):
 			sys.modules.get('__main__'),
 			sys.argv,
 			os.environ.copy(),
+			sys.path[:],
 		)
 		try:
 			return self._call(*args, **kw)
 		finally:
 			sys.modules['__context__'], \
 			sys.modules['__main__'], \
-			sys.argv, os.environ = storage
+			sys.argv, os.environ, sys.path[:] = storage
 
 	def get_main_source(self):
 		"""
-- 
2.43.0

