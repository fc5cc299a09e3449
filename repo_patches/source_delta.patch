From 95f4ad2c88f0d86533b3c2e15339bb3004e2e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:08 +0000
Subject: [PATCH 01/80] fix: send all opening fragments when they do not fit in
 the creationXml

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..575ab82 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -565,6 +565,10 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # send any remaining fragments that could not fit in the creationXml
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive())
-- 
2.43.0


From b8c7b18f4e5ce9a21eae924b78a5fff37049d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 02/80] fix: leave room in the creationXml for the extra Create
 elements

---
 src/pypsrp/powershell.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 575ab82..173f3af 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -555,7 +555,16 @@ class RunspacePool(object):
             application_arguments,
         )
         msgs = [session_capability, init_runspace_pool]
-        fragments = self._fragmenter.fragment_multiple(msgs, self.id)
+
+        # The Create envelope contains more elements than the Send envelope
+        # used to calculate the max payload size (streams, idle timeout and
+        # other options) so leave some room for them in the creationXml.
+        max_size = self._fragmenter.max_size
+        self._fragmenter.max_size = max_size - 256
+        try:
+            fragments = self._fragmenter.fragment_multiple(msgs, self.id)
+        finally:
+            self._fragmenter.max_size = max_size
 
         open_content = ET.Element("creationXml", xmlns="http://schemas.microsoft.com/powershell")
         open_content.text = base64.b64encode(fragments.pop(0)).decode("utf-8")
-- 
2.43.0


From 54d8b62093be98df47d1729436ff64cf5e9464b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:08 +0000
Subject: [PATCH 03/80] fix: do not fail when a poll on the runspace pool times
 out without data

---
 src/pypsrp/powershell.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 173f3af..693f102 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -749,7 +749,15 @@ class RunspacePool(object):
             if pipeline is not None:
                 command_id = pipeline._command_id
 
-        response = self.shell.receive("stdout", command_id=command_id, timeout=timeout)[2]["stdout"]
+        try:
+            response = self.shell.receive("stdout", command_id=command_id, timeout=timeout)[2]["stdout"]
+        except WSManFaultError as err:
+            # an operation timeout means there was no data available in time,
+            # it is not a failure and the caller needs to try again
+            if err.code != 2150858793:
+                raise
+            return []
+
         return self._parse_responses(response, pipeline)
 
     def _parse_responses(
-- 
2.43.0


From 35924ed23d13bc5dfef7702a894f734f1703023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:41 +0000
Subject: [PATCH 04/80] fix: address the discovered shell when closing a
 Runspace Pool before connecting to it

---
 src/pypsrp/powershell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 693f102..0748a3b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -494,6 +494,8 @@ class RunspacePool(object):
             pool.id = shell_id
             pool.shell.id = shell_id
             pool.shell.opened = True
+            pool.shell._selector_set = SelectorSet()
+            pool.shell._selector_set.add_option("ShellId", shell_id)
             pool._new_client = True
 
             # Seems like the server sends all pools not just disconnected but
-- 
2.43.0


From 77e909064255a9fda09c57fb520b827af29b143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:53 +0000
Subject: [PATCH 05/80] fix: only mark running pipelines as disconnected

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 0748a3b..e1a3759 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -380,7 +380,8 @@ class RunspacePool(object):
         self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
         self.state = RunspacePoolState.DISCONNECTED
         for pipeline in self.pipelines.values():
-            pipeline.state = PSInvocationState.DISCONNECTED
+            if pipeline.state == PSInvocationState.RUNNING:
+                pipeline.state = PSInvocationState.DISCONNECTED
 
     def get_available_runspaces(self) -> int:
         """
-- 
2.43.0


From a6a82c4dd496f0ac28ad291a2252671728262d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:02 +0000
Subject: [PATCH 06/80] fix: stop a pipeline with the command id of the server

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index e1a3759..3faa024 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1535,7 +1535,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or str(self.id).upper())
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From 274d2ef58011c44f4d167a062416c0435fe2ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:10 +0000
Subject: [PATCH 07/80] fix: connect to a pipeline with the command id of the
 server

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 3faa024..178bfe3 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1181,7 +1181,7 @@ class PowerShell(object):
             )
         rsp = NAMESPACES["rsp"]
 
-        connect = ET.Element("{%s}Connect" % rsp, CommandId=self.id)
+        connect = ET.Element("{%s}Connect" % rsp, CommandId=self._command_id or self.id)
 
         self.runspace_pool.connection.connect(
             self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
-- 
2.43.0


From ef86ef16432a92b57174325cadb8e4d4a0398339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:19 +0000
Subject: [PATCH 08/80] fix: reset had_errors when a pipeline is invoked again

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 178bfe3..b7831e7 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1272,6 +1272,7 @@ class PowerShell(object):
             pipeline,
             self.is_nested,
         )
+        self.had_errors = False
         self._invoke(create_pipeline)
 
         # finally send the input if any was specified
-- 
2.43.0


From 2704276d61055deead172c81534e23117fb69c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:28 +0000
Subject: [PATCH 09/80] fix: do not change the maximum runspaces when querying
 the available runspaces

---
 src/pypsrp/powershell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index b7831e7..1644773 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -392,7 +392,6 @@ class RunspacePool(object):
         """
 
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From aab8880e0f0ee4aa99e47aef4d638e5cb8a8f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:08 +0000
Subject: [PATCH 10/80] fix: do not let a refused or late answer disturb
 another request

---
 src/pypsrp/powershell.py | 84 ++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 51 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1644773..8e072ba 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -212,23 +212,14 @@ class RunspacePool(object):
         elif min_runspaces == self._min_runspaces:
             return
 
-        def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set minimum runspaces")
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         set_min_runspace = SetMinRunspaces(min_runspaces=min_runspaces, ci=ci)
         data = self._fragmenter.fragment(set_min_runspace, self.id)[0]
-        self.shell.send("stdin", data)
-
-        while not isinstance(self.ci_table[ci], bool):
-            self._receive()
+        if not self._send_ci_request(ci, data):
+            raise InvalidPSRPOperation("Failed to set minimum runspaces")
         self._min_runspaces = min_runspaces
-        del self.ci_table[ci]
 
     @property
     def max_runspaces(self) -> int:
@@ -253,23 +244,14 @@ class RunspacePool(object):
         elif max_runspaces == self._max_runspaces:
             return
 
-        def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set maximum runspaces")
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         set_max_runspace = SetMaxRunspaces(max_runspaces=max_runspaces, ci=ci)
         data = self._fragmenter.fragment(set_max_runspace, self.id)[0]
-        self.shell.send("stdin", data)
-
-        while not isinstance(self.ci_table[ci], bool):
-            self._receive()
+        if not self._send_ci_request(ci, data):
+            raise InvalidPSRPOperation("Failed to set maximum runspaces")
         self._max_runspaces = max_runspaces
-        del self.ci_table[ci]
 
     def __enter__(self) -> "RunspacePool":
         self.open()
@@ -390,26 +372,12 @@ class RunspacePool(object):
 
         :return: The number of available runspaces in the pool
         """
-
-        def response_handler(response):
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         get_runspaces = GetAvailableRunspaces(ci=ci)
         data = self._fragmenter.fragment(get_runspaces, self.id)[0]
-        self.shell.send("stdin", data)
-
-        avail_runspaces = None
-        while avail_runspaces is None:
-            self._receive()
-            if isinstance(self.ci_table[ci], int):
-                avail_runspaces = self.ci_table[ci]
-
-        del self.ci_table[ci]
-        return avail_runspaces
+        return self._send_ci_request(ci, data)
 
     def get_command_metadata(
         self,
@@ -647,22 +615,13 @@ class RunspacePool(object):
                 "actual: %s" % self.protocol_version
             )
 
-        def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to reset runspace state")
-            return response
-
         ci = self._ci_counter
         self._ci_counter += 1
-        self.ci_table[ci] = response_handler
 
         reset_state = ResetRunspaceState(ci=ci)
         data = self._fragmenter.fragment(reset_state, self.id)[0]
-        self.shell.send("stdin", data)
-
-        while not isinstance(self.ci_table[ci], bool):
-            self._receive()
-        del self.ci_table[ci]
+        if not self._send_ci_request(ci, data):
+            raise InvalidPSRPOperation("Failed to reset runspace state")
 
     def serialize(
         self,
@@ -724,6 +683,28 @@ class RunspacePool(object):
 
         return True
 
+    def _send_ci_request(
+        self,
+        ci: int,
+        data: bytes,
+    ) -> typing.Any:
+        """
+        Sends a request with a call id and waits for the response with that
+        same id.
+
+        :param ci: The call id of the request
+        :param data: The fragment that contains the request
+        :return: The response value
+        """
+        self.ci_table[ci] = None
+        try:
+            self.shell.send("stdin", data)
+            while self.ci_table[ci] is None:
+                self._receive()
+            return self.ci_table[ci]
+        finally:
+            del self.ci_table[ci]
+
     def _receive(
         self,
         id: typing.Optional[str] = None,
@@ -889,9 +870,10 @@ class RunspacePool(object):
 
         ci = msg.ci
         response = msg.response
-        ci_handler = self.ci_table[ci]
-        response = ci_handler(response)
-        self.ci_table[ci] = response
+        if ci in self.ci_table:
+            self.ci_table[ci] = response
+        else:
+            log.warning("Received a response for the unknown call id %s" % ci)
         return response
 
     def _process_runspacepool_host_call(
-- 
2.43.0


From abbdb0ee33328d6cb542a1828d816b3d7f095d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:20 +0000
Subject: [PATCH 11/80] fix: resume waiting for the session key after a failed
 key exchange

---
 src/pypsrp/powershell.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 8e072ba..6b767cd 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -560,11 +560,21 @@ class RunspacePool(object):
         happen.
         """
         log.info("Starting key exchange with remote host")
-        if self._key_exchanged or self._exchange_key is not None:
-            # key is already exchanged or we are still in the processes of
-            # exchanging it, no need to run again
+        if self._key_exchanged:
+            # key is already exchanged, no need to run again
             return
 
+        if self._exchange_key is None:
+            self._send_public_key()
+
+        start = time.time()
+        while not self._key_exchanged:
+            elapsed = int((time.time() - start) * 1000)
+            if elapsed > self.session_key_timeout_ms:
+                raise InvalidPSRPOperation("Timeout while waiting for key exchange")
+            self._receive()
+
+    def _send_public_key(self) -> None:
         # Generate a unique RSA key pair for use in this Pool only
         self._exchange_key = rsa.generate_private_key(
             public_exponent=65537,
@@ -586,13 +596,6 @@ class RunspacePool(object):
         for fragment in fragments:
             self.shell.send("stdin", fragment)
 
-        start = time.time()
-        while not self._key_exchanged:
-            elapsed = int((time.time() - start) * 1000)
-            if elapsed > self.session_key_timeout_ms:
-                raise InvalidPSRPOperation("Timeout while waiting for key exchange")
-            self._receive()
-
     def reset_runspace_state(self) -> None:
         """
         Resets the variable table for the runspace to the default state.
-- 
2.43.0


From 2720aa650f7ada961b630681024b91fb994bfcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:31 +0000
Subject: [PATCH 12/80] fix: answer the public key request of the server

---
 src/pypsrp/powershell.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 6b767cd..8edf8b3 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -758,7 +758,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: self._process_public_key_request,
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
@@ -909,6 +909,14 @@ class RunspacePool(object):
     ) -> None:
         self._application_private_data = typing.cast(ApplicationPrivateData, message.data)
 
+    def _process_public_key_request(
+        self,
+        message: Message,
+    ) -> None:
+        # do not wait for the session key, it can be in the same response
+        if not self._key_exchanged and self._exchange_key is None:
+            self._send_public_key()
+
     def _process_encrypted_session_key(
         self,
         message: Message,
-- 
2.43.0


From 82a926a2215cfba83b2199ab46372576ae57828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:53 +0000
Subject: [PATCH 13/80] fix: send the public key again when sending it failed

---
 src/pypsrp/powershell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 8edf8b3..580b428 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -576,11 +576,11 @@ class RunspacePool(object):
 
     def _send_public_key(self) -> None:
         # Generate a unique RSA key pair for use in this Pool only
-        self._exchange_key = rsa.generate_private_key(
+        exchange_key = rsa.generate_private_key(
             public_exponent=65537,
             key_size=2048,
         )
-        public_numbers = self._exchange_key.public_key().public_numbers()
+        public_numbers = exchange_key.public_key().public_numbers()
         exponent = struct.pack("<I", public_numbers.e)
         modulus = b""
         for i in range(0, 256):
@@ -595,6 +595,7 @@ class RunspacePool(object):
         fragments = self._fragmenter.fragment(msg, self.id)
         for fragment in fragments:
             self.shell.send("stdin", fragment)
+        self._exchange_key = exchange_key
 
     def reset_runspace_state(self) -> None:
         """
-- 
2.43.0


From 71b4bc3ff367ffc0f42aa26ea26f782dd4a8b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:45 +0000
Subject: [PATCH 14/80] fix: allow nested pipelines when a connected pipeline
 is invoked again

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 580b428..1eeafbe 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1266,6 +1266,7 @@ class PowerShell(object):
             self.is_nested,
         )
         self.had_errors = False
+        self._from_disconnect = False
         self._invoke(create_pipeline)
 
         # finally send the input if any was specified
-- 
2.43.0


From e56f0a62afdfdfffc0626caa952264b57811772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:24 +0000
Subject: [PATCH 15/80] fix: send integers that do not fit in 32 bits as Int64

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..71a71b0 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -377,7 +377,7 @@ class Serializer(object):
 
         value_type = type(value)
         if value_type == int:
-            return "I32"
+            return "I32" if -(2**31) <= value < 2**31 else "I64"
         elif value_type == bool:
             return "B"
         elif value_type == float:
-- 
2.43.0


From 26b89f131c50aeadbc8952ca21506cc1f4cebf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:35 +0000
Subject: [PATCH 16/80] fix: escape lone surrogates and non-characters in
 strings

---
 src/pypsrp/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 71a71b0..cbc65ee 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -60,9 +60,9 @@ class Serializer(object):
         self.tn: typing.Dict = {}
 
         self.cipher: typing.Any = None
-        # Finds C0, C1 and surrogate pairs in a unicode string for us to
-        # encode according to the PSRP rules
-        self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
+        # Finds C0, C1, surrogates and characters that are not valid in XML in a
+        # unicode string for us to encode according to the PSRP rules
+        self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\ud800-\udfff\ufffe\uffff\U00010000-\U0010ffff]")
 
         # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
         # so we can replace the UTF-16 string representation with the actual
@@ -570,7 +570,7 @@ class Serializer(object):
 
         def rplcr(matchobj):
             surrogate_char = matchobj.group(0)
-            byte_char = to_bytes(surrogate_char, encoding="utf-16-be")
+            byte_char = surrogate_char.encode("utf-16-be", errors="surrogatepass")
             hex_char = to_unicode(binascii.hexlify(byte_char)).upper()
             hex_split = [hex_char[i : i + 4] for i in range(0, len(hex_char), 4)]
 
-- 
2.43.0


From ae330054e089d69a68ef3823e37fa138b75ae597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:44 +0000
Subject: [PATCH 17/80] fix: only decode complete _xHHHH_ sequences in strings

---
 src/pypsrp/serializer.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index cbc65ee..06fbb6b 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -64,10 +64,8 @@ class Serializer(object):
         # unicode string for us to encode according to the PSRP rules
         self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\ud800-\udfff\ufffe\uffff\U00010000-\U0010ffff]")
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # Finds the UTF-16 code units that were encoded in a string
+        self._deserial_str = re.compile("_x([0-9A-Fa-f]{4})_")
 
     def serialize(
         self,
@@ -767,24 +765,14 @@ class Serializer(object):
             return ""
 
         def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
-        unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+            return chr(int(matchobj.group(1), 16))
+
+        unicode_value = re.sub(self._deserial_str, rplcr, to_unicode(value))
+
+        # each match is a UTF-16 code unit, going through the UTF-16 bytes joins
+        # the surrogate pairs into the character they represent
+        unicode_bytes = unicode_value.encode("utf-16-be", errors="surrogatepass")
+        return unicode_bytes.decode("utf-16-be", errors="surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From c1995911b524791aaeccc1e38b59eca997577a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:52 +0000
Subject: [PATCH 18/80] fix: encode and decode property and type names like
 other strings

---
 src/pypsrp/serializer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 06fbb6b..5060514 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -91,7 +91,7 @@ class Serializer(object):
 
         if isinstance(value, ET.Element):
             if metadata is not None and metadata.name is not None:
-                value.attrib["N"] = metadata.name
+                value.attrib["N"] = self._serialize_string(metadata.name)
 
             if parent is not None:
                 parent.append(value)
@@ -156,7 +156,7 @@ class Serializer(object):
                 element = element_value
 
         if metadata.name is not None:
-            element.attrib["N"] = metadata.name
+            element.attrib["N"] = self._serialize_string(metadata.name)
 
         if parent is not None:
             parent.append(element)
@@ -673,18 +673,18 @@ class Serializer(object):
         for obj_property in element:
             if obj_property.tag == "TN":
                 for obj_type in obj_property:
-                    obj.types.append(obj_type.text)
+                    obj.types.append(self._deserialize_string(obj_type.text))
                 self.tn[obj_property.attrib["RefId"]] = obj.types
             elif obj_property.tag == "TNRef":
                 obj.types = self.tn[obj_property.attrib["RefId"]]
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
-                    key = adapted_property.attrib["N"]
+                    key = self._deserialize_string(adapted_property.attrib["N"])
                     value = self.deserialize(adapted_property, clear=False)
                     obj.adapted_properties[key] = value
             elif obj_property.tag == "MS":
                 for extended_property in obj_property:
-                    key = extended_property.attrib["N"]
+                    key = self._deserialize_string(extended_property.attrib["N"])
                     value = self.deserialize(extended_property, clear=False)
                     obj.extended_properties[key] = value
             elif obj_property.tag == "ToString":
@@ -805,7 +805,7 @@ class Serializer(object):
         self,
         element: ET.Element,
     ) -> typing.List[str]:
-        obj_types = [e.text or "" for e in element.findall("TN/T")]
+        obj_types = [self._deserialize_string(e.text) for e in element.findall("TN/T")]
 
         if len(obj_types) > 0:
             ref_id = element.find("TN").attrib["RefId"]  # type: ignore[union-attr] # Mandated by the spec
@@ -832,7 +832,7 @@ class Serializer(object):
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-                ET.SubElement(tn, "T").text = type_name
+                ET.SubElement(tn, "T").text = self._serialize_string(type_name)
         else:
             ET.SubElement(parent, "TNRef", RefId=str(ref_id))
 
@@ -848,7 +848,7 @@ class Serializer(object):
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
                     if key is not None:
-                        sub_element.attrib["N"] = key
+                        sub_element.attrib["N"] = self._serialize_string(key)
                     return
 
         if meta is None:
-- 
2.43.0


From d923b50dca5eef0d406c05bd329e38f0be01860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:28 +0000
Subject: [PATCH 19/80] fix: serialize DateTime values

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 5060514..448afd0 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -112,7 +112,7 @@ class Serializer(object):
             "ToString": lambda d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
-            "DT": lambda m, d: None,
+            "DT": lambda m, d: str(d),
             "TS": lambda m, d: str(d),
             "By": lambda m, d: str(d),
             "SB": lambda m, d: str(d),
-- 
2.43.0


From 09cfe04ff6eb211000077b9e18c771d99b4c0ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:41 +0000
Subject: [PATCH 20/80] fix: deserialize an empty byte array

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 448afd0..c01fe93 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -210,7 +210,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From 54cb0ea99ace41dd0599689bc9ab7305eecb7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:53 +0000
Subject: [PATCH 21/80] fix: send floats in a form the server can read

---
 src/pypsrp/serializer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index c01fe93..26d679d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -122,8 +122,8 @@ class Serializer(object):
             "I32": lambda m, d: str(d),
             "U64": lambda m, d: str(d),
             "I64": lambda m, d: str(d),
-            "Sg": lambda m, d: str(d),
-            "Db": lambda m, d: str(d),
+            "Sg": lambda m, d: self._serialize_float(d),
+            "Db": lambda m, d: self._serialize_float(d),
             "D": lambda m, d: str(d),
             "BA": lambda m, d: to_string(base64.b64encode(d)),
             "G": lambda m, d: str(d),
@@ -379,7 +379,8 @@ class Serializer(object):
         elif value_type == bool:
             return "B"
         elif value_type == float:
-            return "Sg"
+            # finite values that are too big for a Single need to be a Double
+            return "Db" if 3.4028235e38 < abs(value) < float("inf") else "Sg"
         elif value_type == str:
             return "S"
         elif value_type == bytes:
@@ -585,6 +586,13 @@ class Serializer(object):
 
         return string_value
 
+    def _serialize_float(
+        self,
+        value: typing.Any,
+    ) -> str:
+        # infinity is INF in the XML Schema types
+        return {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(str(value), str(value))
+
     def _serialize_secure_string(
         self,
         value: str,
-- 
2.43.0


From eb9527ce1523870b93a9e97176da72e4abe67969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:30 +0000
Subject: [PATCH 22/80] fix: deserialize primitive values that were extended
 with type names

---
 src/pypsrp/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 26d679d..117bfce 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -335,6 +335,9 @@ class Serializer(object):
                     metadata = obj_meta
                     if is_list:
                         metadata = ListMeta(list_value_meta=metadata)
+                    elif type(metadata) == ObjectMeta and metadata.object is None:
+                        # a primitive value that was extended by the server
+                        metadata = ObjectMeta("ObjDynamic", object=GenericComplexObject)
                     break
 
         # we were unable to find the complex object type so just return the
-- 
2.43.0


From e163aa4470f6f978caeabc8e377d80d581a62dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:15 +0000
Subject: [PATCH 23/80] fix: do not share the entry metadata between queue and
 stack entries

---
 src/pypsrp/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 117bfce..7b824bc 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -486,7 +486,7 @@ class Serializer(object):
         while True:
             try:
                 value = values.get(block=False)
-                self.serialize(value, metadata.list_value_meta, parent=que, clear=False)
+                self.serialize(value, copy(metadata.list_value_meta), parent=que, clear=False)
             except Empty:
                 break
 
@@ -504,7 +504,7 @@ class Serializer(object):
         while True:
             try:
                 value = values.pop()
-                self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
+                self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
             except IndexError:
                 break
 
-- 
2.43.0


From 4c8891ff807486e261bb8436757f36eb9fd8ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:46 +0000
Subject: [PATCH 24/80] fix: leave the queue or stack that is serialized as it
 was

---
 src/pypsrp/serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 7b824bc..9a0973d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -483,9 +483,12 @@ class Serializer(object):
         self._create_tn(obj, metadata.list_types)
 
         que = ET.SubElement(obj, "QUE")
+        # take the entries from a copy so the queue of the caller keeps them
+        remaining = copy(values)
+        remaining.queue = copy(values.queue)
         while True:
             try:
-                value = values.get(block=False)
+                value = remaining.get(block=False)
                 self.serialize(value, copy(metadata.list_value_meta), parent=que, clear=False)
             except Empty:
                 break
@@ -501,12 +504,8 @@ class Serializer(object):
         self._create_tn(obj, metadata.list_types)
 
         stk = ET.SubElement(obj, "STK")
-        while True:
-            try:
-                value = values.pop()
-                self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
-            except IndexError:
-                break
+        for value in reversed(values):
+            self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
 
         return obj
 
-- 
2.43.0


From e5ce8f9d1c2a89daa493b400dea46ff8c13166e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:26 +0000
Subject: [PATCH 25/80] fix: do not change the metadata given to the serializer

---
 src/pypsrp/host.py       | 3 +++
 src/pypsrp/serializer.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/host.py b/src/pypsrp/host.py
index 2c84bd4..14e8e97 100644
--- a/src/pypsrp/host.py
+++ b/src/pypsrp/host.py
@@ -98,6 +98,9 @@ class PSHost(object):
             response = func(runspace, pipeline, *args)
         elif mi < 27:
             func = getattr(self.ui, str(method_identifier))
+            if str(method_identifier) == "WriteProgress":
+                # the record is documented to be the XML of the object
+                args = [getattr(a, "_xml", a) for a in args]
             response = func(runspace, pipeline, *args)
         elif mi < 52:
             func = getattr(getattr(self.ui, "raw_ui", None), str(method_identifier))
diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 9a0973d..15ace82 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -98,7 +98,7 @@ class Serializer(object):
 
             return value
 
-        metadata = metadata or ObjectMeta()
+        metadata = copy(metadata) if metadata is not None else ObjectMeta()
         if metadata.tag == "*":
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
@@ -183,7 +183,7 @@ class Serializer(object):
             xml_string = ET.tostring(element, encoding="utf-8", method="xml")
             element_string = to_string(xml_string)
 
-        metadata = metadata or ObjectMeta()
+        metadata = copy(metadata) if metadata is not None else ObjectMeta()
         if metadata.tag == "*":
             metadata.tag = element.tag
 
-- 
2.43.0


From 290039867c5a2d8047fac2fc3406477d0d041810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:51 +0000
Subject: [PATCH 26/80] fix: build the statements of a pipeline without copying
 or changing the commands

---
 src/pypsrp/complex_objects.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..c259392 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -2,7 +2,6 @@
 # MIT License (see LICENSE or https://opensource.org/licenses/MIT)
 
 import typing
-from copy import deepcopy
 
 from pypsrp._utils import to_string, version_equal_or_newer
 
@@ -509,14 +508,10 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
         for command in self.commands:
-            # need to use deepcopy as the values can be appended to multiple
-            # parents and in lxml that removes it from the original parent,
-            # whereas this will create a copy of the statement for each parent
-            current_statement.append(deepcopy(command))
-            if command.end_of_statement:
+            current_statement.append(command)
+            # the last command is always the end of a statement
+            if command.end_of_statement or command is self.commands[-1]:
                 statements.append(current_statement)
                 current_statement = []
 
-- 
2.43.0


From 6e2720c51b80ef01d0a683b9179bc46ae7a07579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:00 +0000
Subject: [PATCH 27/80] fix: allow a stack to be serialized without its own
 metadata

---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 15ace82..7d6c416 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -501,6 +501,8 @@ class Serializer(object):
         values: typing.List,
     ) -> ET.Element:
         obj = ET.Element("Obj", RefId=self._get_obj_id())
+        if not isinstance(metadata, StackMeta):
+            metadata = StackMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
         stk = ET.SubElement(obj, "STK")
-- 
2.43.0


From fe5385e10133e6d7869c6f64d21a1d3c0850dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:08 +0000
Subject: [PATCH 28/80] fix: only reference a type list that has the same types

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 7d6c416..baaa74f 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -835,12 +835,12 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        tn_key = tuple(types)
+        ref_id = self.tn.get(tn_key, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[tn_key] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From 66c7c01b686d1b31816b110ba754fe3bd20ca8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:16 +0000
Subject: [PATCH 29/80] fix: send a repeated object inside of a container as a
 reference

---
 src/pypsrp/serializer.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index baaa74f..619fdad 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -148,7 +148,17 @@ class Serializer(object):
                 return None
             element = ET.Element("Nil")
         else:
-            element_value = pack_function(metadata, value)
+            element_value: typing.Any = None
+            if isinstance(value, ComplexObject):
+                # an object that is already in the document is only referenced
+                for ref, obj in self.obj.items():
+                    if obj is value:
+                        element_value = ET.Element("Ref", RefId=ref)
+                        break
+
+            if element_value is None:
+                element_value = pack_function(metadata, value)
+
             if isinstance(element_value, str):
                 element = ET.Element(metadata.tag)
                 element.text = element_value
@@ -855,14 +865,6 @@ class Serializer(object):
         key: typing.Optional[str] = None,
         meta: typing.Optional[ObjectMeta] = None,
     ) -> None:
-        if isinstance(obj, ComplexObject):
-            for ref, value in self.obj.items():
-                if value == obj:
-                    sub_element = ET.SubElement(parent, "Ref", RefId=ref)
-                    if key is not None:
-                        sub_element.attrib["N"] = self._serialize_string(key)
-                    return
-
         if meta is None:
             meta = ObjectMeta(name=key)
         self.serialize(obj, metadata=meta, parent=parent, clear=False)
-- 
2.43.0


From 8cb901ea1b4e349f74df4c1a723abd3941b177d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:24 +0000
Subject: [PATCH 30/80] fix: read arrays in arrays, enumerables and containers
 that contain themselves

---
 src/pypsrp/serializer.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 619fdad..2529862 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -344,7 +344,9 @@ class Serializer(object):
                 if obj_meta is not None:
                     metadata = obj_meta
                     if is_list:
-                        metadata = ListMeta(list_value_meta=metadata)
+                        # an array of any object says nothing about its entries
+                        is_any = metadata.tag == "ObjDynamic"
+                        metadata = ListMeta(list_value_meta=None if is_any else metadata)
                     elif type(metadata) == ObjectMeta and metadata.object is None:
                         # a primitive value that was extended by the server
                         metadata = ObjectMeta("ObjDynamic", object=GenericComplexObject)
@@ -725,7 +727,10 @@ class Serializer(object):
     ) -> typing.List:
         value_meta = getattr(metadata, "list_value_meta", None)
 
-        list_value = list(self._deserialize_list_values(element, "LST", value_meta=value_meta))
+        list_value: typing.List = []
+        self._register_obj(element, list_value)
+        for list_type in ["LST", "IE"]:
+            list_value.extend(self._deserialize_list_values(element, list_type, value_meta=value_meta))
 
         return list_value
 
@@ -734,6 +739,7 @@ class Serializer(object):
         element: ET.Element,
     ) -> Queue:
         queue: Queue = Queue()
+        self._register_obj(element, queue)
 
         for entry in self._deserialize_list_values(element, "QUE"):
             queue.put(entry)
@@ -745,7 +751,9 @@ class Serializer(object):
         element: ET.Element,
     ) -> typing.List:
         # no native Stack object in Python so just use a list
-        stack = list(self._deserialize_list_values(element, "STK"))
+        stack: typing.List = []
+        self._register_obj(element, stack)
+        stack.extend(self._deserialize_list_values(element, "STK"))
 
         return stack
 
@@ -767,7 +775,8 @@ class Serializer(object):
         self,
         element: ET.Element,
     ) -> typing.Dict:
-        dictionary = {}
+        dictionary: typing.Dict = {}
+        self._register_obj(element, dictionary)
         entries = element.findall("DCT/En")
         for entry in entries:
             key = entry.find("*[@N='Key']")
@@ -812,6 +821,15 @@ class Serializer(object):
 
         return decrypted_string
 
+    def _register_obj(
+        self,
+        element: ET.Element,
+        obj: typing.Any,
+    ) -> None:
+        # needs to be known before the entries are read, they can reference it
+        if element.tag == "Obj":
+            self.obj[element.attrib["RefId"]] = obj
+
     def _clear(self) -> None:
         self.obj_id = 0
         self.obj = {}
-- 
2.43.0


From a11d741fa776bbe2f253ca8441c66bfc5a099da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:18 +0000
Subject: [PATCH 31/80] fix: do not end the statement early when the last
 command is repeated

---
 src/pypsrp/complex_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index c259392..8c4c3e6 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -508,10 +508,10 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        for command in self.commands:
+        for i, command in enumerate(self.commands, start=1):
             current_statement.append(command)
             # the last command is always the end of a statement
-            if command.end_of_statement or command is self.commands[-1]:
+            if command.end_of_statement or i == len(self.commands):
                 statements.append(current_statement)
                 current_statement = []
 
-- 
2.43.0


From 5188bb1b33708be310cb9a918d524695b2966667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:26 +0000
Subject: [PATCH 32/80] fix: resolve references to objects and types that were
 not deserialized

---
 src/pypsrp/serializer.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 2529862..ee1b49d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -58,6 +58,7 @@ class Serializer(object):
         self.obj: typing.Dict = {}
         self.tn_id = 0
         self.tn: typing.Dict = {}
+        self._root: typing.Optional[ET.Element] = None
 
         self.cipher: typing.Any = None
         # Finds C0, C1, surrogates and characters that are not valid in XML in a
@@ -181,6 +182,7 @@ class Serializer(object):
     ) -> typing.Any:
         if clear:
             self._clear()
+            self._root = None
 
         if isinstance(element, str):
             element_string = element
@@ -193,6 +195,12 @@ class Serializer(object):
             xml_string = ET.tostring(element, encoding="utf-8", method="xml")
             element_string = to_string(xml_string)
 
+        if self._root is None:
+            self._root = element
+            # the first use of a type list may be in a part that is skipped
+            for tn in element.iter("TN"):
+                self.tn[tn.attrib["RefId"]] = [self._deserialize_string(e.text) for e in tn.findall("T")]
+
         metadata = copy(metadata) if metadata is not None else ObjectMeta()
         if metadata.tag == "*":
             metadata.tag = element.tag
@@ -229,7 +237,7 @@ class Serializer(object):
             "SBK": lambda d: self._deserialize_string(d.text),
             "SS": lambda d: self._deserialize_secure_string(d),
             # references an object already deserialized
-            "Ref": lambda d: self.obj[d.attrib["RefId"]],
+            "Ref": lambda d: self._deserialize_ref(d),
         }.get(element.tag)
 
         if unpack_function is not None:
@@ -656,7 +664,7 @@ class Serializer(object):
 
                 tags = [property_meta.tag]
                 # The below tags are actually seen as Obj in the parent element
-                if property_meta.tag in ["DCT", "LST", "IE", "QUE", "STK", "ObjDynamic"]:
+                if property_meta.tag in ["Obj", "DCT", "LST", "IE", "QUE", "STK", "ObjDynamic"]:
                     tags = ["Obj", "Ref"]
 
                 val = None
@@ -700,7 +708,7 @@ class Serializer(object):
                     obj.types.append(self._deserialize_string(obj_type.text))
                 self.tn[obj_property.attrib["RefId"]] = obj.types
             elif obj_property.tag == "TNRef":
-                obj.types = self.tn[obj_property.attrib["RefId"]]
+                obj.types = list(self.tn[obj_property.attrib["RefId"]])
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
                     key = self._deserialize_string(adapted_property.attrib["N"])
@@ -720,6 +728,19 @@ class Serializer(object):
 
         return obj
 
+    def _deserialize_ref(
+        self,
+        element: ET.Element,
+    ) -> typing.Any:
+        ref_id = element.attrib["RefId"]
+        if ref_id not in self.obj and self._root is not None:
+            # the object is in a part that was skipped
+            for obj in self._root.iter("Obj"):
+                if obj.attrib.get("RefId") == ref_id:
+                    return self.deserialize(obj, clear=False)
+
+        return self.obj[ref_id]
+
     def _deserialize_lst(
         self,
         element: ET.Element,
-- 
2.43.0


From 4fdb726086df5c6f6ff8da93b1fa4330c8528041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:35 +0000
Subject: [PATCH 33/80] fix: keep reference ids unique when embedding an
 already serialized value

---
 src/pypsrp/serializer.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index ee1b49d..cf916d8 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -8,7 +8,7 @@ import re
 import typing
 import uuid
 import xml.etree.ElementTree as ET
-from copy import copy
+from copy import copy, deepcopy
 from queue import Empty, Queue
 
 from cryptography.hazmat.primitives.padding import PKCS7
@@ -91,12 +91,16 @@ class Serializer(object):
             self._clear()
 
         if isinstance(value, ET.Element):
-            if metadata is not None and metadata.name is not None:
-                value.attrib["N"] = self._serialize_string(metadata.name)
-
             if parent is not None:
+                # the references of the value need to be unique in the document
+                # it is embedded in
+                value = self._renumber(deepcopy(value))
                 parent.append(value)
 
+            if metadata is not None and metadata.name is not None:
+                value = value if parent is not None else copy(value)
+                value.attrib["N"] = self._serialize_string(metadata.name)
+
             return value
 
         metadata = copy(metadata) if metadata is not None else ObjectMeta()
@@ -862,6 +866,26 @@ class Serializer(object):
         self.obj_id += 1
         return ref_id
 
+    def _renumber(
+        self,
+        element: ET.Element,
+    ) -> ET.Element:
+        ids: typing.Dict[str, typing.Dict[str, str]] = {"Obj": {}, "TN": {}}
+        for e in element.iter():
+            if e.tag == "Obj" and "RefId" in e.attrib:
+                ids["Obj"][e.attrib["RefId"]] = self._get_obj_id()
+            elif e.tag == "TN" and "RefId" in e.attrib:
+                ids["TN"][e.attrib["RefId"]] = str(self.tn_id)
+                self.tn_id += 1
+
+        for e in element.iter():
+            kind = {"Obj": "Obj", "Ref": "Obj", "TN": "TN", "TNRef": "TN"}.get(e.tag)
+            ref_id = e.attrib.get("RefId")
+            if kind is not None and ref_id in ids[kind]:
+                e.attrib["RefId"] = ids[kind][ref_id]
+
+        return element
+
     def _get_types_from_obj(
         self,
         element: ET.Element,
-- 
2.43.0


From c6ae91e4deb5adcc67f7a9ec2d4359d24da0e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:28 +0000
Subject: [PATCH 34/80] fix: do not write the name onto the serialized element
 of the caller

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index cf916d8..1c61eef 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -98,7 +98,7 @@ class Serializer(object):
                 parent.append(value)
 
             if metadata is not None and metadata.name is not None:
-                value = value if parent is not None else copy(value)
+                value = value if parent is not None else deepcopy(value)
                 value.attrib["N"] = self._serialize_string(metadata.name)
 
             return value
-- 
2.43.0


From f177dc4b196847af1d2c4ed9593993d43be9a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:51 +0000
Subject: [PATCH 35/80] fix: use the STA apartment state when it is asked for

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1eeafbe..267689f 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1247,7 +1247,8 @@ class PowerShell(object):
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
         no_input = input is None or not input
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        if apartment_state is None:
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From adb97fc9d8b099f8f581b7bd789b25f0289de4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:06 +0000
Subject: [PATCH 36/80] fix: raise the transport error when a failure reply is
 XML but not a SOAP fault

---
 src/pypsrp/wsman.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..e7a27ad 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -499,7 +499,9 @@ class WSMan(object):
         except WinRMTransportError as err:
             try:
                 # try and parse the XML and get the WSManFault
-                raise self._parse_wsman_fault(err.response_text)
+                if self._has_fault(ET.fromstring(err.response_text)):
+                    raise self._parse_wsman_fault(err.response_text)
+                raise err
             except ET.ParseError:
                 # no XML message is present so not a WSManFault error
                 log.error(
@@ -621,6 +623,10 @@ class WSMan(object):
     def close(self) -> None:
         self.transport.close()
 
+    @staticmethod
+    def _has_fault(xml: ET.Element) -> bool:
+        return xml.find("s:Body/s:Fault", namespaces=NAMESPACES) is not None
+
     @staticmethod
     def _parse_wsman_fault(xml_text: str) -> WSManFaultError:
         xml = ET.fromstring(xml_text)
-- 
2.43.0


From 8690bba9f0b0f866b7cc58d58c45d56b50382f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:16 +0000
Subject: [PATCH 37/80] fix: treat a SOAP fault as an error whatever the HTTP
 status

---
 src/pypsrp/wsman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index e7a27ad..3511088 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -519,6 +519,8 @@ class WSMan(object):
                 "Received related id does not match related "
                 "expected message id: Sent: %s, Received: %s" % (message_id, relates_to)
             )
+        if self._has_fault(response_xml):
+            raise self._parse_wsman_fault(to_unicode(response))
         return response_xml
 
     def _calc_envelope_size(
-- 
2.43.0


From 782caa350c07eef6a5b006ea5e243e5e0ceb7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:24 +0000
Subject: [PATCH 38/80] fix: refuse a reply that has no SOAP body

---
 src/pypsrp/wsman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 3511088..d0f218f 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -519,6 +519,8 @@ class WSMan(object):
                 "Received related id does not match related "
                 "expected message id: Sent: %s, Received: %s" % (message_id, relates_to)
             )
+        if response_xml.find("s:Body", namespaces=NAMESPACES) is None:
+            raise WinRMError("Received a response without a SOAP body to the message id %s" % message_id)
         if self._has_fault(response_xml):
             raise self._parse_wsman_fault(to_unicode(response))
         return response_xml
-- 
2.43.0


From af5409663de8791653c16aa692fb235d41f84b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:37 +0000
Subject: [PATCH 39/80] fix: keep the fault reason when the message element
 only holds whitespace

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index d0f218f..2e32a2f 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -664,7 +664,7 @@ class WSMan(object):
             if message_info is not None:
                 # message may still not be set, fall back to the existing
                 # reason value from the base soap Fault element
-                reason = message_info.text or reason
+                reason = (message_info.text or "").strip() or reason
 
             provider_info = wsman_fault.find("wsmanfault:Message/wsmanfault:ProviderFault", namespaces=NAMESPACES)
             if provider_info is not None:
-- 
2.43.0


From ec7993ceeffcdd2920a9ba2c39b2792c7fb36ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:49 +0000
Subject: [PATCH 40/80] fix: refuse a server configuration without a maximum
 envelope size

---
 src/pypsrp/wsman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 2e32a2f..c0faa92 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -435,7 +435,9 @@ class WSMan(object):
             config = self.get_server_config()
             max_size_kb_et = config.find("cfg:Config/cfg:MaxEnvelopeSizekb", namespaces=NAMESPACES)
             max_size_kb = max_size_kb_et.text if max_size_kb_et is not None else ""
-            max_payload_size = int(max_size_kb or "0") * 1024
+            if not max_size_kb:
+                raise WinRMError("The server configuration did not contain the MaxEnvelopeSizekb value")
+            max_payload_size = int(max_size_kb) * 1024
 
         max_envelope_size = self._calc_envelope_size(max_payload_size)
         self.max_envelope_size = max_payload_size
-- 
2.43.0


From 980e48c15f39b2208dc6f030864f7c89ee5d7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:21 +0000
Subject: [PATCH 41/80] fix: read a fault in a successful reply in the encoding
 of the reply

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index c0faa92..e0f1a64 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -524,7 +524,7 @@ class WSMan(object):
         if response_xml.find("s:Body", namespaces=NAMESPACES) is None:
             raise WinRMError("Received a response without a SOAP body to the message id %s" % message_id)
         if self._has_fault(response_xml):
-            raise self._parse_wsman_fault(to_unicode(response))
+            raise self._parse_wsman_fault(ET.tostring(response_xml, encoding="unicode"))
         return response_xml
 
     def _calc_envelope_size(
-- 
2.43.0


From fffcf5e66fd1b6cf318802d8ff71d42e85ad9252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:31:05 +0000
Subject: [PATCH 42/80] fix: authenticate afresh before sealing after any
 network failure

---
 src/pypsrp/wsman.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index e0f1a64..fee2391 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -898,15 +898,18 @@ class _TransportHTTP(object):
                     prep_request,
                     timeout=timeout,
                 )
-            except (requests.ReadTimeout, requests.ConnectTimeout) as e:
-                log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
-                if attempt == retries_on_read_timeout:
-                    raise
-
+            except requests.RequestException as e:
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
 
+                if not isinstance(e, (requests.ReadTimeout, requests.ConnectTimeout)):
+                    raise
+
+                log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
+                if attempt == retries_on_read_timeout:
+                    raise
+
                 attempt += 1
                 time.sleep(self.reconnection_backoff * (2**attempt - 1))
 
-- 
2.43.0


From df9942055758b04ecb2d079358160718ecc79bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:09 +0000
Subject: [PATCH 43/80] fix: seal messages with the context of the current
 connection only

---
 src/pypsrp/wsman.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index fee2391..82e8383 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -828,6 +828,8 @@ class _TransportHTTP(object):
         # self._test_messages = []
 
     def close(self) -> None:
+        # A later request uses a new connection which is authenticated afresh.
+        self.encryption = None
         if self.session:
             self.session.close()
 
@@ -898,7 +900,12 @@ class _TransportHTTP(object):
                     prep_request,
                     timeout=timeout,
                 )
-            except requests.RequestException as e:
+            except WinRMTransportError:
+                # The server may have asked to authenticate again for this request.
+                if self.encryption and self.encryption.context is not self.session.auth.contexts.get(hostname):  # type: ignore[union-attr] # This should not happen
+                    self.encryption = None
+                raise
+            except Exception as e:
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
-- 
2.43.0


From 25bb814d5af50a1fcd210c8455fa178175efb7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:57 +0000
Subject: [PATCH 44/80] fix: refuse to be redirected from HTTPS to HTTP

---
 src/pypsrp/wsman.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 82e8383..fcf32df 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -11,6 +11,7 @@ import typing
 import uuid
 import warnings
 import xml.etree.ElementTree as ET
+from urllib.parse import urljoin, urlparse
 
 import requests
 from requests.packages.urllib3.util.retry import Retry
@@ -1023,10 +1024,20 @@ class _TransportHTTP(object):
         if isinstance(self.cert_validation, bool) and self.cert_validation and settings["verify"] is not None:
             session.verify = settings["verify"]
 
+        # messages protected by TLS must not be sent again in clear
+        session.hooks["response"].append(self._refuse_downgrade)
+
         build_auth = getattr(self, "_build_auth_%s" % self.auth)
         build_auth(session)
         return session
 
+    @staticmethod
+    def _refuse_downgrade(response: requests.Response, **kwargs: typing.Any) -> None:
+        location = response.headers.get("location", "") if response.is_redirect else ""
+        target = urljoin(response.url, location)
+        if urlparse(response.url).scheme == "https" and urlparse(target).scheme != "https":
+            raise WinRMTransportError("http", response.status_code, "Refusing to be redirected to %s" % target)
+
     def _build_auth_basic(self, session: requests.Session) -> None:
         if self.username is None:
             raise ValueError("For basic auth, the username must be specified")
-- 
2.43.0


From 447e816bf0e6f439b418c70ff0f5ea22ac10e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:28 +0000
Subject: [PATCH 45/80] fix: find the parts of an encrypted message whatever
 the sealed data contains

---
 src/pypsrp/encryption.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/pypsrp/encryption.py b/src/pypsrp/encryption.py
index 1442a0a..a77e435 100644
--- a/src/pypsrp/encryption.py
+++ b/src/pypsrp/encryption.py
@@ -43,26 +43,31 @@ class WinRMEncryption(object):
         log.debug("Unwrapped message")
 
         # Talking to Exchange endpoints gives a non-compliant boundary that has a space between the -- {boundary}, not
-        # ideal but we just need to handle it.
-        parts = re.compile(to_bytes(r"--\s*%s\r\n" % re.escape(boundary))).split(message)
-        parts = list(filter(None, parts))
-
+        # ideal but we just need to handle it. The final boundary may also miss the end hyphens.
+        mark = rb"--\s*" + re.escape(to_bytes(boundary))
+        part = mark + rb"\r\n((?:[ \t]*[\w-]+:[^\r\n]*\r\n)+)" + mark
+        part += rb"\r\n[ \t]*(?i:Content-Type: application/octet-stream)\r\n"
+        start = re.compile(part)
+        delimiter = re.compile(part + rb"|" + mark + rb"(?:--)?\s*\Z")
+
+        offset = 0
+        complete = message
         message = b""
-        for i in range(0, len(parts), 2):
-            header = parts[i].strip()
-            payload = parts[i + 1]
-
-            expected_length = int(header.split(b"Length=")[1])
+        while match := start.match(complete, offset):
+            expected_length = int(match.group(1).split(b"Length=")[1])
 
-            # remove the end MIME block if it exists
-            payload = re.sub(to_bytes(r"--\s*%s--\r\n$") % to_bytes(boundary), b"", payload)
+            header_start = match.end() + 4
+            header_length = struct.unpack("<i", complete[match.end() : header_start])[0]
+            data_start = header_start + header_length
 
-            wrapped_data = payload.replace(b"\tContent-Type: application/octet-stream\r\n", b"")
-            header_length = struct.unpack("<i", wrapped_data[:4])[0]
-            header = wrapped_data[4 : 4 + header_length]
-            enc_wrapped_data = wrapped_data[4 + header_length :]
+            # The sealed data can contain anything, the boundary included, but it is not shorter than the plaintext.
+            end = delimiter.search(complete, data_start + expected_length) or delimiter.search(complete, data_start)
+            if header_length < 0 or not end:
+                raise WinRMError("The encrypted message from the server is incomplete")
+            offset = end.start()
 
-            unwrapped_data = self.context.unwrap_winrm(header, enc_wrapped_data)
+            header = complete[header_start:data_start]
+            unwrapped_data = self.context.unwrap_winrm(header, complete[data_start:offset])
 
             actual_length = len(unwrapped_data)
 
@@ -75,6 +80,9 @@ class WinRMEncryption(object):
                 )
             message += unwrapped_data
 
+        if complete and offset == 0:
+            raise WinRMError("The encrypted message from the server is malformed")
+
         return message
 
     def _wrap_message(self, message: bytes) -> bytes:
-- 
2.43.0


From d453c88e5061f2901471b07c97b904eeb35c1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:43:14 +0000
Subject: [PATCH 46/80] fix: parse the content type of an encrypted reply

---
 src/pypsrp/wsman.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index fcf32df..c658e81 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -5,12 +5,12 @@ from __future__ import annotations
 
 import ipaddress
 import logging
-import re
 import time
 import typing
 import uuid
 import warnings
 import xml.etree.ElementTree as ET
+from email.message import Message
 from urllib.parse import urljoin, urlparse
 
 import requests
@@ -931,10 +931,13 @@ class _TransportHTTP(object):
             timeout=timeout if timeout is not None else (self.connection_timeout, self.read_timeout),
         )
 
-        content_type = response.headers.get("content-type", "")
-        if content_type.startswith("multipart/encrypted;") or content_type.startswith("multipart/x-multi-encrypted;"):
-            boundary = re.search("boundary=[" '|\\"](.*)[' '|\\"]', response.headers["content-type"]).group(1)  # type: ignore[union-attr] # This should not happen
-            response_content = self.encryption.unwrap_message(response.content, to_unicode(boundary))  # type: ignore[union-attr] # This should not happen
+        content_type = Message()
+        content_type["Content-Type"] = response.headers.get("content-type", "")
+        if content_type.get_content_type() in ["multipart/encrypted", "multipart/x-multi-encrypted"]:
+            boundary = content_type.get_param("boundary")
+            if not self.encryption or not boundary:
+                raise WinRMError("Received an encrypted reply that cannot be decrypted")
+            response_content = self.encryption.unwrap_message(response.content, to_unicode(boundary))
             response_text = to_string(response_content)
         else:
             response_content = response.content
-- 
2.43.0


From 7637b07bcd4d37a6e94c98fe7af7c20051f66d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:50 +0000
Subject: [PATCH 47/80] fix: pick the authentication scheme from the schemes
 the server offers

---
 src/pypsrp/negotiate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 784226a..4454dc5 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -89,7 +89,10 @@ class HTTPNegotiateAuth(AuthBase):
 
     def response_hook(self, response, **kwargs):
         if response.status_code == 401:
-            matched_provider = self._check_auth_supported(response, ["Negotiate", "Kerberos", "NTLM"])
+            providers = ["Negotiate", "Kerberos", "NTLM"]
+            # a scheme which is tied to another provider than the requested one cannot be used, try it last
+            providers.sort(key=lambda p: p.lower() not in ["negotiate", self.auth_provider])
+            matched_provider = self._check_auth_supported(response, providers)
             kwargs["_pypsrp_auth_provider"] = matched_provider
 
             response = self.handle_401(response, **kwargs)
@@ -170,8 +173,13 @@ class HTTPNegotiateAuth(AuthBase):
 
     @staticmethod
     def _check_auth_supported(response, auth_providers):
+        if isinstance(auth_providers, str):
+            auth_providers = [auth_providers]
+
         auth_supported = response.headers.get("www-authenticate", "")
-        matched_providers = [p for p in auth_providers if p.upper() in auth_supported.upper()]
+        unquoted = re.sub(r'"(?:[^"\\]|\\.)*"', "", auth_supported)
+        schemes = [s.upper() for s in re.findall(r"(?:^|,)\s*([\w-]+)(?=[\s,]|$)", unquoted)]
+        matched_providers = [p for p in auth_providers if p.upper() in schemes]
         if not matched_providers:
             raise AuthenticationError(
                 "The server did not response with one of the following authentication methods "
-- 
2.43.0


From 47cc4cb3c4fc5d76d67832cae02d1953a7c1925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:59 +0000
Subject: [PATCH 48/80] fix: read the token of the authentication scheme in use

---
 src/pypsrp/negotiate.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 4454dc5..8691115 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -79,7 +79,7 @@ class HTTPNegotiateAuth(AuthBase):
         self.wrap_required = wrap_required
         self.contexts: typing.Dict[str, typing.Any] = {}
 
-        self._regex = re.compile(r"(Kerberos|Negotiate|NTLM)\s*([^,]*),?", re.I)
+        self._regex = re.compile(r"(?:^|,)\s*(Kerberos|Negotiate|NTLM)\s+([^\s,]+)", re.I)
 
     def __call__(self, request):
         request.headers["Connection"] = "Keep-Alive"
@@ -156,7 +156,7 @@ class HTTPNegotiateAuth(AuthBase):
             response = response.connection.send(request, **kwargs)
 
             # attempt to retrieve the auth token response
-            in_token = self._get_auth_token(response, self._regex)
+            in_token = self._get_auth_token(response, self._regex, response_auth_header)
 
             # break if there was no token received from the host and return the
             # last response
@@ -195,14 +195,16 @@ class HTTPNegotiateAuth(AuthBase):
         request.headers["Authorization"] = auth_header
 
     @staticmethod
-    def _get_auth_token(response, pattern):
+    def _get_auth_token(response, pattern, scheme=None):
         auth_header = response.headers.get("www-authenticate", "")
-        token_match = pattern.search(auth_header)
+        matches = list(pattern.finditer(auth_header))
 
-        if not token_match:
+        if not matches:
             return None
 
-        token = token_match.group(2)
+        # the server may list other schemes as well, their order does not matter
+        matches.sort(key=lambda m: scheme is not None and m.group(1).lower() != scheme.lower())
+        token = matches[0].group(2)
         return base64.b64decode(token)
 
     @staticmethod
-- 
2.43.0


From 9cd111a027f4da7a350988b49f21e5c9b3c8ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:49:07 +0000
Subject: [PATCH 49/80] fix: give no token to a security context that is
 complete

---
 src/pypsrp/negotiate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 8691115..42ee5ad 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -158,9 +158,9 @@ class HTTPNegotiateAuth(AuthBase):
             # attempt to retrieve the auth token response
             in_token = self._get_auth_token(response, self._regex, response_auth_header)
 
-            # break if there was no token received from the host and return the
-            # last response
-            if in_token in [None, b""]:
+            # break if there was no token received from the host, or none is
+            # expected, and return the last response
+            if context.complete or in_token in [None, b""]:
                 log.debug("Did not receive a http response with an auth response, stopping authentication process")
                 break
 
-- 
2.43.0


From 67abc97c698e2515d1753904b5ad91001a18c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:04 +0000
Subject: [PATCH 50/80] fix: treat a pool as not alive when the check timed out
 reading the reply

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 267689f..8b4c7ff 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -676,7 +676,12 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.ConnectionError,
+            requests.exceptions.Timeout,
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From 7f587d4cd74d1ba68d193c934ed4908457a6507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:12 +0000
Subject: [PATCH 51/80] fix: treat a pool as not alive when the reply does not
 describe it

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 8b4c7ff..8099a40 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -666,7 +666,8 @@ class RunspacePool(object):
             with _pool_manager.DisableNewConnectionsContext():
                 state = self.shell._get_shell(timeout=timeout)
 
-            is_closed = state.get("State", "") == "Disconnected"
+            # A reply without the shell does not tell that it is still there.
+            is_closed = not state or state.get("State", "") == "Disconnected"
         except WSManFaultError as exc:
             if exc.code in [
                 0x80338029,  # ERROR_WSMAN_OPERATION_TIMEDOUT
-- 
2.43.0


From 5ad8f82f468d58bffb9c393a264a03e4dd6ffc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:22 +0000
Subject: [PATCH 52/80] fix: do not connect to a proxy when new connections are
 disabled

---
 src/pypsrp/_pool_manager.py | 40 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 81c7516..b008cd4 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -50,7 +50,19 @@ class DisableNewConnectionsContext:
         return None
 
 
-class HTTPSAdapterWithKeyPassword(requests.adapters.HTTPAdapter):
+class _HTTPAdapter(requests.adapters.HTTPAdapter):
+    """HTTPAdapter that also gates the connections made through a proxy."""
+
+    def proxy_manager_for(self, *args: t.Any, **kwargs: t.Any) -> t.Any:
+        manager = super().proxy_manager_for(*args, **kwargs)
+        if not hasattr(manager, "_pypsrp_gated"):
+            manager._pypsrp_gated = True
+            _gate_connections(manager)
+
+        return manager
+
+
+class HTTPSAdapterWithKeyPassword(_HTTPAdapter):
 
     def __init__(
         self,
@@ -116,6 +128,19 @@ def _create_connection_pool(pool):
     pool.ConnectionCls = _wrap(pool.ConnectionCls, after=_create_new_connection_with_failure)
 
 
+def _gate_connections(manager: t.Any) -> None:
+    # pool_classes_by_scheme stores the urllib3 pool types used when creating
+    # the connection pool for http/https. We wrap the __init__ method so we can
+    # inject our custom ConnectionCls that wraps the connect method when
+    # created.
+    # Copy the dict so we only mutate this adapter's instance, not the
+    # module-level dict shared by all urllib3 PoolManager instances.
+    pool_classes = dict(manager.pool_classes_by_scheme)
+    for scheme, pool_cls in list(pool_classes.items()):
+        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
+    manager.pool_classes_by_scheme = pool_classes
+
+
 def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does not have typing stubs for urllib3
     *,
     max_retries: Retry,
@@ -129,17 +154,8 @@ def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does
             _pypsrp_key_password=key_password,
         )
     else:
-        adapter = requests.adapters.HTTPAdapter(max_retries=max_retries)
+        adapter = _HTTPAdapter(max_retries=max_retries)
 
-    # pool_classes_by_scheme stores the urllib3 pool types used when creating
-    # the connection pool for http/https. We wrap the __init__ method so we can
-    # inject our custom ConnectionCls that wraps the connect method when
-    # created.
-    # Copy the dict so we only mutate this adapter's instance, not the
-    # module-level dict shared by all urllib3 PoolManager instances.
-    pool_classes = dict(adapter.poolmanager.pool_classes_by_scheme)
-    for scheme, pool_cls in list(pool_classes.items()):
-        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
-    adapter.poolmanager.pool_classes_by_scheme = pool_classes
+    _gate_connections(adapter.poolmanager)
 
     return adapter
-- 
2.43.0


From 85761630006a56e85859fcff7e9034be1b9007d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:06:48 +0000
Subject: [PATCH 53/80] fix: keep the exit code of a process when a later
 response has none

---
 src/pypsrp/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a8f446e..a77f563 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -445,7 +445,7 @@ class Process(object):
         process.
         """
         try:
-            self.state, self.rc, buffer = self.shell.receive("stdout stderr", self.id, timeout=timeout)
+            self.state, rc, buffer = self.shell.receive("stdout stderr", self.id, timeout=timeout)
         except WSManFaultError as exc:
             # if a command exceeds the OperationTimeout set, we will get
             # a WSManFaultError with the code 2150858793. We ignore this
@@ -455,6 +455,8 @@ class Process(object):
             else:
                 raise exc
         else:
+            if rc is not None:
+                self.rc = rc
             self.stdout += buffer["stdout"]
             self.stderr += buffer["stderr"]
 
-- 
2.43.0


From 18c57fbfc32fda6133aa2720ba5ea6fd95a5779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:06:58 +0000
Subject: [PATCH 54/80] fix: start a re-used process afresh

---
 src/pypsrp/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a77f563..06daa7a 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -420,6 +420,10 @@ class Process(object):
         end_invoke to wait until the process is complete.
         """
         response = self.shell.command(self.executable, self.arguments, no_shell=self.no_shell)
+        self.state = CommandState.PENDING
+        self.rc = None
+        self.stdout = b""
+        self.stderr = b""
         command_id = response.find("rsp:CommandResponse/rsp:CommandId", namespaces=NAMESPACES)
         self.id = command_id.text if command_id is not None else None
 
-- 
2.43.0


From b17b335913f40c5d5b273527aa120014961ad6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:07:07 +0000
Subject: [PATCH 55/80] fix: leave the caller's base options alone when opening
 a shell

---
 src/pypsrp/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index 06daa7a..095cfd9 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -198,7 +198,9 @@ class WinRS(object):
 
         # inherit the base options if it was passed in, otherwise use an empty
         # option set
-        options = OptionSet() if base_options is None else base_options
+        options = OptionSet()
+        if base_options is not None:
+            options.values.extend(base_options.values)
         if self.no_profile:
             options.add_option("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"})
         if self.codepage is not None:
-- 
2.43.0


From 5d8fa9a302da777d651e880fa3ec90c4f54cd4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:07:16 +0000
Subject: [PATCH 56/80] fix: send a valid idle timeout when a closed shell is
 opened again

---
 src/pypsrp/shell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index 095cfd9..a483855 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -182,7 +182,11 @@ class WinRS(object):
                 ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)
 
         if self.idle_time_out is not None:
-            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = "PT%sS" % str(self.idle_time_out)
+            # after a previous open this is the duration text the server replied with
+            idle_time_out = str(self.idle_time_out)
+            if not idle_time_out.startswith("P"):
+                idle_time_out = "PT%sS" % idle_time_out
+            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = idle_time_out
 
         if self.lifetime is not None:
             ET.SubElement(shell, "{%s}Lifetime" % rsp).text = "PT%sS" % self.lifetime
-- 
2.43.0


From 409a71082d8256a3e6f33e55b2b437d02c6aacaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:07:24 +0000
Subject: [PATCH 57/80] fix: split process input that does not fit in one
 envelope

---
 src/pypsrp/shell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a483855..6959179 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -478,6 +478,11 @@ class Process(object):
         :param end: Whether this is the last input to send
         :return:
         """
+        # leave some room for the attributes that are only set on this request
+        size = max(1, self.shell.wsman.max_payload_size - 64)
+        while len(data) > size:
+            self.shell.send("stdin", data[:size], command_id=self.id, end=False)
+            data = data[size:]
         self.shell.send("stdin", data, command_id=self.id, end=end)
 
     def signal(self, code: str) -> None:
-- 
2.43.0


From d264774091807b60687e532ccd08ea7ccda42419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:23:58 +0000
Subject: [PATCH 58/80] fix: do not report a copy or fetch as done unless the
 pipeline completed

---
 src/pypsrp/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..f1f6bfa 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -15,6 +15,7 @@ import warnings
 import xml.etree.ElementTree as ET
 
 from pypsrp._utils import get_pwsh_script, to_bytes, to_unicode
+from pypsrp.complex_objects import PSInvocationState
 from pypsrp.exceptions import WinRMError
 from pypsrp.powershell import (
     DEFAULT_CONFIGURATION_NAME,
@@ -322,7 +323,7 @@ class Client(object):
 
 
 def _handle_powershell_error(powershell: PowerShell, message: str) -> None:
-    if message and powershell.had_errors:
-        errors = powershell.streams.error
+    errors = powershell.streams.error
+    if message and (powershell.had_errors or errors or powershell.state != PSInvocationState.COMPLETED):
         error = "\n".join([str(err) for err in errors])
         raise WinRMError("%s: %s" % (message, error))
-- 
2.43.0


From 98f69efdd7db7b4b768641434c636ce5b7801f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:07 +0000
Subject: [PATCH 59/80] fix: decode each error of the CLIXML on its own

---
 src/pypsrp/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index f1f6bfa..07b0489 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -315,9 +315,9 @@ class Client(object):
 
             errors: typing.List[str] = []
             for error in element.findall("{%s}S[@S='Error']" % namespace):
-                errors.append(error.text or "")
+                errors.append(Serializer()._deserialize_string(error.text or ""))
 
-            output = Serializer()._deserialize_string("".join(errors))
+            output = "".join(errors)
 
         return output
 
-- 
2.43.0


From ce0680e5782927443f03540ed9c12c35720a0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:17 +0000
Subject: [PATCH 60/80] fix: sanitise CLIXML that is a byte string or followed
 by more text

---
 src/pypsrp/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 07b0489..55a42a1 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -309,8 +309,11 @@ class Client(object):
         output = to_unicode(clixml)
         if output.startswith("#< CLIXML"):
             # Strip off the '#< CLIXML\r\n' by finding the 2nd index of '<'
-            output = output[clixml.index("<", 2) :]
-            element = ET.fromstring(output)
+            output = output[output.index("<", 2) :]
+            end = output.find("</Objs>")
+            end = end + len("</Objs>") if end != -1 else len(output)
+            remaining = output[end:]
+            element = ET.fromstring(output[:end])
             namespace = element.tag.replace("Objs", "")[1:-1]
 
             errors: typing.List[str] = []
@@ -318,6 +321,8 @@ class Client(object):
                 errors.append(Serializer()._deserialize_string(error.text or ""))
 
             output = "".join(errors)
+            if remaining.strip():
+                output += Client.sanitise_clixml(remaining.lstrip("\r\n"))
 
         return output
 
-- 
2.43.0


From 749d9849a9ad3db0078aa1f8096cebaa81350470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:27 +0000
Subject: [PATCH 61/80] fix: fetch a file the server sends in any number of
 parts

---
 src/pypsrp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 55a42a1..40c4c2d 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -273,7 +273,7 @@ class Client(object):
 
             temp_file, path = tempfile.mkstemp()
             try:
-                file_bytes = base64.b64decode(powershell.output[0])
+                file_bytes = b"".join(base64.b64decode(data) for data in powershell.output[:-1])
                 os.write(temp_file, file_bytes)
 
                 sha1 = hashlib.sha1()
-- 
2.43.0


From d2c551b693ca0496847ce2b1a7b79e4107f14b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:37 +0000
Subject: [PATCH 62/80] fix: write all of a fetched file before it replaces the
 destination

---
 src/pypsrp/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 40c4c2d..6067516 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -274,7 +274,8 @@ class Client(object):
             temp_file, path = tempfile.mkstemp()
             try:
                 file_bytes = b"".join(base64.b64decode(data) for data in powershell.output[:-1])
-                os.write(temp_file, file_bytes)
+                with os.fdopen(temp_file, "wb", closefd=False) as fd:
+                    fd.write(file_bytes)
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
-- 
2.43.0


From d9d203d5979a85d28eef9ac92dc2925650de8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:23 +0000
Subject: [PATCH 63/80] fix: replace the destination of a fetch in one step

---
 src/pypsrp/client.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 6067516..83a5c0a 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -271,26 +271,35 @@ class Client(object):
 
             expected_hash = powershell.output[-1]
 
-            temp_file, path = tempfile.mkstemp()
+            file_bytes = b"".join(base64.b64decode(data) for data in powershell.output[:-1])
+
+            sha1 = hashlib.sha1()
+            sha1.update(file_bytes)
+            actual_hash = sha1.hexdigest()
+
+            log.debug("Remote Hash: %s, Local Hash: %s" % (expected_hash, actual_hash))
+            if actual_hash != expected_hash:
+                raise WinRMError(
+                    "Failed to fetch file %s, hash mismatch\n"
+                    "Source: %s\nFetched: %s" % (src, expected_hash, actual_hash)
+                )
+
+            # a temporary file beside the destination can replace it in one step, anything that is not a plain file
+            # (a directory or device) can only be copied to
+            dest_path = os.path.realpath(dest)
+            replace = os.path.isfile(dest_path) or not os.path.exists(dest_path)
+            temp_file, path = tempfile.mkstemp(dir=os.path.dirname(dest_path) if replace else None)
             try:
-                file_bytes = b"".join(base64.b64decode(data) for data in powershell.output[:-1])
-                with os.fdopen(temp_file, "wb", closefd=False) as fd:
+                with os.fdopen(temp_file, "wb") as fd:
                     fd.write(file_bytes)
 
-                sha1 = hashlib.sha1()
-                sha1.update(file_bytes)
-                actual_hash = sha1.hexdigest()
-
-                log.debug("Remote Hash: %s, Local Hash: %s" % (expected_hash, actual_hash))
-                if actual_hash != expected_hash:
-                    raise WinRMError(
-                        "Failed to fetch file %s, hash mismatch\n"
-                        "Source: %s\nFetched: %s" % (src, expected_hash, actual_hash)
-                    )
-                shutil.copy(path, dest)
+                if replace:
+                    os.replace(path, dest_path)
+                else:
+                    shutil.copy(path, dest)
             finally:
-                os.close(temp_file)
-                os.remove(path)
+                if os.path.exists(path):
+                    os.remove(path)
 
     def close(self) -> None:
         self.wsman.close()
-- 
2.43.0


From b519b344114bb2a0e66a3a99b8bf72f3ee1cd969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:28:38 +0000
Subject: [PATCH 64/80] fix: remove the shell when entering a Runspace Pool
 context fails

---
 src/pypsrp/powershell.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 8099a40..a37c8ec 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -254,7 +254,17 @@ class RunspacePool(object):
         self._max_runspaces = max_runspaces
 
     def __enter__(self) -> "RunspacePool":
-        self.open()
+        before = self.state
+        try:
+            self.open()
+        except Exception:
+            # __exit__ is not called, do not leave the shell that was just created on the server
+            if before == RunspacePoolState.BEFORE_OPEN and self.state == RunspacePoolState.NEGOTIATION_SENT:
+                try:
+                    self.close()
+                except Exception as err:
+                    log.debug("Failed to close the Runspace Pool that could not be opened: %s" % err)
+            raise
         return self
 
     def __exit__(
-- 
2.43.0


From b69f833fc222d8ba10df0d6f0ddc5e615eea83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:26 +0000
Subject: [PATCH 65/80] fix: keep carriage returns in the text of a request

---
 src/pypsrp/wsman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index c658e81..1346a80 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -491,7 +491,8 @@ class WSMan(object):
         if resource is not None:
             body.append(resource)
 
-        xml = ET.tostring(envelope, encoding="utf-8", method="xml")
+        # an XML parser turns a literal carriage return into a line feed
+        xml = ET.tostring(envelope, encoding="utf-8", method="xml").replace(b"\r", b"&#13;")
 
         try:
             response = self.transport.send(
-- 
2.43.0


From 8eb515ee51f5d6f266ae035136620f760ade49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:45 +0000
Subject: [PATCH 66/80] fix: do not let the environment change the session
 after it was built

---
 src/pypsrp/wsman.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 1346a80..79d1de2 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -845,6 +845,9 @@ class _TransportHTTP(object):
         hostname = get_hostname(self.endpoint)
         if self.session is None:
             self.session = self._build_session()
+            # The environment has been merged with the explicit settings, looking at it again for each request would
+            # add a proxy that was disabled or credentials from a netrc file.
+            self.session.trust_env = False
 
         attempt = 0
         while True:
-- 
2.43.0


From aa668c63328b9ca3bb2975b3e7dfa13081e6d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:56 +0000
Subject: [PATCH 67/80] fix: use the client key password on connections through
 a proxy

---
 src/pypsrp/_pool_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index b008cd4..f97040c 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -88,6 +88,9 @@ class HTTPSAdapterWithKeyPassword(_HTTPAdapter):
             **pool_kwargs,
         )
 
+    def proxy_manager_for(self, proxy, **proxy_kwargs):
+        return super().proxy_manager_for(proxy, key_password=self.__key_password, **proxy_kwargs)
+
 
 def _wrap(
     func: t.Callable[..., T],
-- 
2.43.0


From e8d68fd01179eca97298bd8df32d61294e5d96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:10 +0000
Subject: [PATCH 68/80] fix: a pipeline whose stop request failed is still
 running

The state was left at Stopping, so that end_invoke returned what had been
received so far as if the pipeline was done, a second stop did nothing and the
pipeline could not be closed.
---
 src/pypsrp/powershell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a37c8ec..6ac89c3 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1547,7 +1547,11 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or str(self.id).upper())
+        try:
+            self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or str(self.id).upper())
+        except Exception:
+            self.state = PSInvocationState.RUNNING
+            raise
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From c141d4a9c4b48bdc9a928fb8637d6b2ce35d3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:20 +0000
Subject: [PATCH 69/80] fix: refuse fragments that are cut short

The missing bytes were silently left out of the message.
---
 src/pypsrp/powershell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 6ac89c3..d3602b3 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1826,6 +1826,8 @@ class Fragment(object):
 
         length = struct.unpack(">I", data[17:21])[0]
         fragment_data = data[21 : length + 21]
+        if len(fragment_data) != length:
+            raise FragmentError("Fragment data length: %d != Expected length: %d" % (len(fragment_data), length))
 
         fragment = Fragment(object_id, fragment_id, fragment_data, start, end)
         return fragment, data[21 + length :]
-- 
2.43.0


From ac06340bd895befafcdccd942843d94ae82634cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:32 +0000
Subject: [PATCH 70/80] fix: end the pipeline when its context is left by an
 error

Closing refuses a pipeline that is still running, which hid the error that
happened and left the pipeline running on the server.
---
 src/pypsrp/powershell.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index d3602b3..84e53a1 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1006,7 +1006,17 @@ class PowerShell(object):
         value: typing.Optional[BaseException],
         traceback: typing.Optional[types.TracebackType],
     ) -> None:
-        self.close()
+        if value is None:
+            self.close()
+            return
+
+        # Do not hide the error that is being raised with a failure to clean up.
+        try:
+            if self.state == PSInvocationState.RUNNING:
+                self.stop()
+            self.close()
+        except Exception as err:
+            log.debug("Failed to close the pipeline after an error: %s" % err)
 
     def add_argument(
         self,
-- 
2.43.0


From 67cb1a8d1d170eb43d91d7bc10a24484c013fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:20:17 +0000
Subject: [PATCH 71/80] fix: closing a closed pipeline again does nothing

The second TERMINATE signal is refused by the server as the command is gone,
which turned leaving a PowerShell context after close() into an error.
---
 src/pypsrp/powershell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 84e53a1..2aa4261 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -996,6 +996,7 @@ class PowerShell(object):
         # this is not necessarily the same ID as id, this relates to the WSMan
         # CommandID that is created and we need to reference in the WSMan msgs
         self._command_id: typing.Optional[str] = None
+        self._closed = False
 
     def __enter__(self) -> "PowerShell":
         return self
@@ -1175,7 +1176,11 @@ class PowerShell(object):
         elif self.state not in valid_states:
             raise InvalidPipelineStateError(self.state, valid_states, "close a PowerShell pipeline")
 
+        if self._closed:
+            return
+
         self.runspace_pool.shell.signal(SignalCode.TERMINATE, command_id=self._command_id or self.id)
+        self._closed = True
         self.runspace_pool.pipelines.pop(self.id, None)
 
     def connect(self):
@@ -1572,6 +1577,7 @@ class PowerShell(object):
         fragments = self.runspace_pool._fragmenter.fragment(msg, self.runspace_pool.id, self.id)
 
         self.runspace_pool.pipelines[self.id] = self
+        self._closed = False
 
         # send first fragment as Command message
         first_frag = base64.b64encode(fragments.pop(0)).decode("utf-8")
-- 
2.43.0


From 218cb92031bf1fa7bc2bc00c7e211bfe57ef1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:20:29 +0000
Subject: [PATCH 72/80] fix: use the pipeline id when the Command reply does
 not repeat it

The rest of the pipeline was sent to the Runspace Pool instead of the command.
---
 src/pypsrp/powershell.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 2aa4261..a87c7f2 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1583,8 +1583,7 @@ class PowerShell(object):
         first_frag = base64.b64encode(fragments.pop(0)).decode("utf-8")
         resp = self.runspace_pool.shell.command("", arguments=[first_frag], command_id=self.id)
         cmd_id = resp.find("rsp:CommandResponse/rsp:CommandId", NAMESPACES)
-        if cmd_id is not None:
-            self._command_id = cmd_id.text or ""
+        self._command_id = (cmd_id.text if cmd_id is not None else None) or self.id
         self.state = PSInvocationState.RUNNING
 
         # send the remaining fragments with the Send message
-- 
2.43.0


From 29d268e6b23468a4a1d4771b6d7df72366e1aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:21:34 +0000
Subject: [PATCH 73/80] fix: do not go on with a shell or command the reply did
 not identify

Later requests had no selector, or that of a shell opened before, or no command
id and could not reach what was created.
---
 src/pypsrp/shell.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index 6959179..d6f6be8 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -9,7 +9,7 @@ import types
 import typing
 import xml.etree.ElementTree as ET
 
-from pypsrp.exceptions import WSManFaultError
+from pypsrp.exceptions import WinRMError, WSManFaultError
 from pypsrp.wsman import NAMESPACES, OptionSet, SelectorSet, WSMan
 
 log = logging.getLogger(__name__)
@@ -384,6 +384,11 @@ class WinRS(object):
             self._selector_set = SelectorSet()
             for selector in selector_set:
                 self._selector_set.add_option(selector.attrib["Name"], selector.text or "")
+        elif self.id:
+            self._selector_set = SelectorSet()
+            self._selector_set.add_option("ShellId", self.id)
+        else:
+            raise WinRMError("The reply to the shell creation does not contain the shell id")
 
 
 class Process(object):
@@ -431,7 +436,9 @@ class Process(object):
         self.stdout = b""
         self.stderr = b""
         command_id = response.find("rsp:CommandResponse/rsp:CommandId", namespaces=NAMESPACES)
-        self.id = command_id.text if command_id is not None else None
+        if command_id is None or not command_id.text:
+            raise WinRMError("The reply to the command does not contain the command id")
+        self.id = command_id.text
 
     def end_invoke(self) -> None:
         """
-- 
2.43.0


From 52663ab175c88cc6dea412395f83720c900a5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:09 +0000
Subject: [PATCH 74/80] fix: show the message of an information record as its
 text

---
 src/pypsrp/messages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/messages.py b/src/pypsrp/messages.py
index 01a1648..61792d3 100644
--- a/src/pypsrp/messages.py
+++ b/src/pypsrp/messages.py
@@ -865,6 +865,10 @@ class InformationRecord(ComplexObject):
         self.managed_thread_id = managed_thread_id
         self.write_information_stream = write_information_stream
 
+    def __str__(self) -> str:
+        # the server does not send a ToString value for these records
+        return super(InformationRecord, self).__str__() if self._to_string is not None else str(self.message_data)
+
 
 class PipelineHostCall(RunspacePoolHostCall):
     MESSAGE_TYPE = MessageType.PIPELINE_HOST_CALL
-- 
2.43.0


From a84039ea04cd5d3478c8f7593dc40c9ca8f1e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:17 +0000
Subject: [PATCH 75/80] fix: keep the batch when a nested value of a known type
 lacks some of its parts

---
 src/pypsrp/serializer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 1c61eef..cb6efe4 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -248,7 +248,8 @@ class Serializer(object):
             return unpack_function(element)
 
         # not a primitive object, so try and decode the complex object
-        if type(metadata) == ObjectMeta and metadata.object is None:
+        from_types = type(metadata) == ObjectMeta and metadata.object is None
+        if from_types:
             structures = {
                 "Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo": ObjectMeta(
                     "Obj", object=CommandMetadataCount
@@ -370,7 +371,17 @@ class Serializer(object):
         if metadata is None:
             obj = element_string
         elif metadata.tag == "Obj":
-            obj = self._deserialize_obj(element, metadata)
+            try:
+                obj = self._deserialize_obj(element, metadata)
+            except SerializationError as err:
+                if clear or not from_types:
+                    raise
+
+                # only part of a bigger message and the type was a guess, the
+                # values of the object are still available as a generic one
+                log.warning("Failed to deserialize nested object, using a generic complex object: %s" % str(err))
+                metadata = ObjectMeta("ObjDynamic", object=GenericComplexObject)
+                obj = self._deserialize_dynamic_obj(element, metadata)
         elif metadata.tag == "ObjDynamic":
             obj = self._deserialize_dynamic_obj(element, metadata)
         elif metadata.tag == "LST":
-- 
2.43.0


From f13ea311b911536a7555c2df3537f14032080ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 76/80] fix: an Array that was received can be read and sent in
 any order

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 8c4c3e6..35bf9ba 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1459,7 +1459,7 @@ class Array(ComplexObject):
     def mae(self):
         # elements of the array are flattened into a list and ordered by first
         # listing the deepest elements
-        mae = self._get_list_entries(self._array)
+        mae = self._get_list_entries(self.array)
         return mae
 
     @mae.setter
-- 
2.43.0


From 45d9341b47c924a07d02d0ad0d27755904218ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 77/80] fix: an Array without elements can be sent and received

---
 src/pypsrp/complex_objects.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 35bf9ba..e71de9c 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1476,23 +1476,14 @@ class Array(ComplexObject):
         self._mal = value
 
     def _build_array(self, mae, mal):
-        values = []
+        entries = iter(mae)
 
-        length = mal.pop(-1)
-        while True:
-            entry = []
-            for i in range(0, length):
-                entry.append(mae.pop(0))
-            values.append(entry)
-            if len(mae) == 0:
-                break
+        def build(lengths):
+            if not lengths:
+                return next(entries)
+            return [build(lengths[1:]) for _ in range(lengths[0])]
 
-        if len(mal) == 0:
-            values = values[0]
-        elif len(mal) > 1:
-            values = self._build_array(values, mal)
-
-        return values
+        return build(mal)
 
     def _get_list_entries(self, list_value):
         values = []
@@ -1511,6 +1502,8 @@ class Array(ComplexObject):
         while True:
             if isinstance(current_entry, list):
                 count.append(len(current_entry))
+                if not current_entry:
+                    break
                 current_entry = current_entry[0]
             else:
                 break
-- 
2.43.0


From ff84f8c9805351b798e228292ce6250120e08f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 78/80] fix: pipeline input that is a single false value is
 announced to the server

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a87c7f2..46847a8 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1277,7 +1277,7 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
-        no_input = input is None or not input
+        no_input = input is None or (isinstance(input, list) and not input)
         if apartment_state is None:
             apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
-- 
2.43.0


From 0e8be77fec187f04445bd803084fb539aea8f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 79/80] fix: pipeline input from a generator can be empty or
 hold None

---
 src/pypsrp/powershell.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 46847a8..5f5bffe 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1311,18 +1311,21 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
-                if not isinstance(next_input, list):
-                    next_input = [next_input]
-
-                input_msgs: typing.List[ComplexObject] = [PipelineInput(data=d) for d in next_input]
-
-                try:
-                    next_input = next(input)
-                except StopIteration:
+            end = object()
+            next_input: typing.Any = next(input, end)
+            sending = True
+            while sending:
+                input_msgs: typing.List[ComplexObject] = []
+                if next_input is not end:
+                    if not isinstance(next_input, list):
+                        next_input = [next_input]
+
+                    input_msgs.extend([PipelineInput(data=d) for d in next_input])
+                    next_input = next(input, end)
+
+                if next_input is end:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
+                    sending = False
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
-- 
2.43.0


From 6458a13e616c40b9292346d7d12921bf4d5ec6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 80/80] fix: deserialize byte arrays that were extended with
 properties

---
 src/pypsrp/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index cb6efe4..0ab46fc 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -356,7 +356,10 @@ class Serializer(object):
                 obj_meta = structures.get(obj_type)
                 if obj_meta is not None:
                     metadata = obj_meta
-                    if is_list:
+                    if is_list and element.find("BA") is not None:
+                        # a byte array is a primitive value, it was extended by the server
+                        metadata = ObjectMeta("ObjDynamic", object=GenericComplexObject)
+                    elif is_list:
                         # an array of any object says nothing about its entries
                         is_any = metadata.tag == "ObjDynamic"
                         metadata = ListMeta(list_value_meta=None if is_any else metadata)
-- 
2.43.0

