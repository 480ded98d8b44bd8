From a1a2717a288ab09e3ebdf6d5bcbce5fa8f86f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 01/22] fix: server answers A1 for an unknown public key with
 NoSuchServer

The address type was read through Packet.__getattr__, which yields bytes, and compared with
an int, so the test was never true. The examples now ask for the key the server has.
---
 saltchannel/dev/example_session2.py   | 4 ++--
 saltchannel/dev/example_session2_a.py | 4 ++--
 saltchannel/v2/salt_server_session.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/saltchannel/dev/example_session2.py b/saltchannel/dev/example_session2.py
index f1b165c..faf6b3e 100644
--- a/saltchannel/dev/example_session2.py
+++ b/saltchannel/dev/example_session2.py
@@ -58,7 +58,7 @@ class ExampleSession(Session):
         cs = A1ClientSession(channel)
         cs.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
         cs.a1.data.AddressSize = 32
-        cs.a1.Address = b'\x08' * 32  # pubkey is filled with 0x08
+        cs.a1.Address = self.server_sig_keypair.pub  # must be an address the server serves
 
         print("\n ----------------------- client <--> server --------------------------\n")
         cs.do_a1a2_sync()
@@ -69,7 +69,7 @@ class ExampleSession(Session):
         print("An A1-A2 session; one 'prot' with P1='{}' and P2='{}'."
               .format(bytes(cs.a2.Prot[0].P1), bytes(cs.a2.Prot[0].P2)))
         print("The *pubkey* type of address (AddressType 1) is used in A1.")
-        print("As a simple example, the public key consists of 32 bytes, all set to 0x08.")
+        print("The public key is the signing public key of the server.")
 
         cnt_read = channel.counter_read  # it's possible with MitmChannel instances only!
         cnt_write = channel.counter_write  # it's possible with MitmChannel instances only!
diff --git a/saltchannel/dev/example_session2_a.py b/saltchannel/dev/example_session2_a.py
index 51c4c4f..5ac13f3 100644
--- a/saltchannel/dev/example_session2_a.py
+++ b/saltchannel/dev/example_session2_a.py
@@ -60,7 +60,7 @@ class ExampleSessionA(SessionA):
         cs = A1ClientSession(channel)
         cs.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
         cs.a1.data.AddressSize = 32
-        cs.a1.Address = b'\x08' * 32  # pubkey is filled with 0x08
+        cs.a1.Address = self.server_sig_keypair.pub  # must be an address the server serves
 
         print("\n ----------------------- client <--> server --------------------------\n")
         await cs.do_a1a2()
@@ -71,7 +71,7 @@ class ExampleSessionA(SessionA):
         print("An A1-A2 session; one 'prot' with P1='{}' and P2='{}'."
               .format(bytes(cs.a2.Prot[0].P1), bytes(cs.a2.Prot[0].P2)))
         print("The *pubkey* type of address (AddressType 1) is used in A1.")
-        print("As a simple example, the public key consists of 32 bytes, all set to 0x08.")
+        print("The public key is the signing public key of the server.")
 
         cnt_read = channel.counter_read  # it's possible with MitmChannel instances only!
         cnt_write = channel.counter_write  # it's possible with MitmChannel instances only!
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From f3684e39b2de46e969654532c79e8ee39569423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 02/22] fix: bad first time raises BadPeer instead of TypeError

---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..b370153 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, ", time)
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From 5230ebbebbb5b5cb33773f75a47d03aab36ea258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 03/22] fix: bad session key size raises ValueError instead of
 TypeError

---
 saltchannel/v2/encrypted_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..a86d1eb 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -44,7 +44,7 @@ class EncryptedChannelV2(ByteChannel):
         self.saltlib = SaltLib().getLib()  # refactor to self.salt ?
 
         if len(key) != self.saltlib.crypto_box_SECRETKEYBYTES:
-            raise ValueError("bad key size, should be " + self.saltlib.crypto_box_SECRETKEYBYTES)
+            raise ValueError("bad key size, should be ", self.saltlib.crypto_box_SECRETKEYBYTES)
 
         self.key = key
         self.channel = channel
-- 
2.43.0


From a54de493dedebbd537ff92c6d064b5d73b46e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 04/22] fix: truncated and empty packets are rejected with
 BadPeer

They were padded with zeros (M1..M4), accepted as a default packet (empty input), or made the
parser raise ValueError/AttributeError.
---
 saltchannel/a1a2/packets.py |  4 ++--
 saltchannel/util/packets.py |  5 +++--
 saltchannel/v2/packets.py   | 14 +++++++-------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..9b0bb3d 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,7 +35,7 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -132,7 +132,7 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..4b41bca 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -33,8 +33,9 @@ class SmartStructure(LittleEndianStructure):
         super().__init__(**values)
 
     def from_bytes(self, src):
-        if src:
-            memmove(addressof(self), src, min(len(src), sizeof(self)))
+        if len(src) < sizeof(self):
+            raise BadPeer("packet is too short: ", len(src))
+        memmove(addressof(self), src, sizeof(self))
 
     @property
     def size(self):
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..52f038a 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,7 +187,7 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -240,7 +240,7 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
@@ -319,7 +319,7 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-- 
2.43.0


From e19498260630fc8d255cf68e603afb9bebfbde34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 05/22] fix: truncated MultiAppPacket is rejected with BadPeer

A message cut short was delivered truncated, a missing length field raised ValueError.
---
 saltchannel/v2/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 52f038a..e35b495 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,8 +294,12 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if offset + sizeof(c_uint16) > len(src):
+                        raise BadPeer("MultiAppPacket is too short")
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if offset + length_field.value > len(src):
+                        raise BadPeer("MultiAppPacket is too short")
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
-- 
2.43.0


From d740e3f8e757affba2d58cf1d650ef3941bc755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 06/22] fix: A2 protocol strings are validated byte-wise

A trailing newline and non-ASCII letters were accepted, invalid UTF-8 raised UnicodeDecodeError.
---
 saltchannel/a1a2/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 9b0bb3d..6f9b440 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(br'^[-./\w]+\Z')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.match(bytes(self.P1)) and
+                                type(self).proto_re.match(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
-- 
2.43.0


From ad7a8d5b7508dc7222b865e7b8f32b1dbee74ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 07/22] fix: SaltLib.getLib() honours an explicit library type
 and tries every library

An explicit type returned None, and the search gave up at the first unavailable library.
---
 saltchannel/saltlib/saltlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..e2acf6a 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -41,10 +41,11 @@ class SaltLib(metaclass=Singleton):
             for t, api in sorted(SaltLib.lib_map.items()):
                 if api.isAvailable():
                     return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+            raise NoSuchLibException
+        api = SaltLib.lib_map[lib_type.value]
+        if not api.isAvailable():
+            raise NoSuchLibException
+        return api
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From 0d18d650e17dd5f6704246aa5619d1c4fd004c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 08/22] fix: native randombytes() passes a buffer to libsodium

randombytes(n) handed the length as the buffer address.
---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..8c60cd3 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes(buf, ctypes.c_ulonglong(n))
+        return buf.raw
\ No newline at end of file
-- 
2.43.0


From f97e30ba2bf50e3d152a6db82333da4e0cb0ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 09/22] fix: tunnel channels implement the ByteChannel
 interface

write() added bytes to a tuple (TypeError) and read()/write() were not coroutines.
---
 saltchannel/dev/tunnel.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index 002e3a6..e5fec41 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -14,11 +14,17 @@ class Tunnel:
     @staticmethod
     def _channel_factory(in_queue, out_queue):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
+                return self.read_sync()
+
+            async def write(self, msg, *args, is_last=False):
+                self.write_sync(msg, *args, is_last=is_last)
+
+            def read_sync(self):
                 return in_queue.popleft()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            def write_sync(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     out_queue.append(m)
         return _Channel()
 
@@ -32,10 +38,16 @@ class TunnelMP:
     @staticmethod
     def _channel_factory(endpoint):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
+                return self.read_sync()
+
+            async def write(self, msg, *args, is_last=False):
+                self.write_sync(msg, *args, is_last=is_last)
+
+            def read_sync(self):
                 return endpoint.recv_bytes()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            def write_sync(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     endpoint.send_bytes(m)
         return _Channel()
\ No newline at end of file
-- 
2.43.0


From 323178e1df82c3cac99333fe00cf9a4c5f01d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 10/22] fix: MultiAppPacket is not used for more than 65535
 messages

The 16-bit Count field wrapped and messages were lost.
---
 saltchannel/v2/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index e35b495..82147be 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -342,7 +342,7 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
-        return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
+        return False if len(msgs) < 2 or len(msgs) > MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
 
 # leave here for now
 class TTPacket(Packet):
-- 
2.43.0


From c8c2cdd0afa038c3cd8ab9e76b911c4d85b706ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 11/22] fix: M3 of a wrong size raises BadPeer instead of
 AssertionError

---
 saltchannel/v2/salt_client_session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..bcd8077 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -84,7 +84,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
+        if len(chunk) != 2+4+32+64:
+            raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
 
-- 
2.43.0


From 1361fce39f445780de595541e69b3a7806708cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 12/22] fix: an unusable encryption key from the peer raises
 BadPeer

A low-order key made libsodium fail, which surfaced as ValueError from handshake().
---
 saltchannel/v2/salt_client_session.py | 5 ++++-
 saltchannel/v2/salt_server_session.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index bcd8077..00ab5c0 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -110,7 +110,10 @@ class SaltClientSession(metaclass=util.Syncizer):
             raise saltchannel.exceptions.BadPeer("invalid signature")
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        except (ValueError, RuntimeError) as e:
+            raise saltchannel.exceptions.BadPeer("could not compute session key: ", e)
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index 5d4753e..57de34a 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -136,7 +136,10 @@ class SaltServerSession(metaclass=util.Syncizer):
         self.client_sig_key = self.m4.ClientSigKey
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        except (ValueError, RuntimeError) as e:
+            raise saltchannel.exceptions.BadPeer("could not compute session key: ", e)
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
-- 
2.43.0


From 8e2eb84984f42f46e7ac10d7c28c7416a308a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 13/22] fix: SaltClientSession.wanted_server_sig_key takes
 effect

It was neither sent in M1 nor compared with the key of M3, so a client that asked for a given
server completed the handshake with any server.
---
 saltchannel/v2/salt_client_session.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 00ab5c0..0a0fd5e 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,7 +56,11 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        if self.wanted_server_sig_key:
+            self.m1.data.Header.ServerSigKeyIncluded = 1
         self.m1.create_opt_fields()
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
 
@@ -88,6 +92,8 @@ class SaltClientSession(metaclass=util.Syncizer):
             raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("server is not the wanted one")
 
     async def do_m4(self):
         self.m4 = packets.M4Packet()
-- 
2.43.0


From 8fd757bf23d9b5421e362bbbf612bf1b7a2e0540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 14/22] fix: AsyncioChannel reports I/O errors as ComException

Like SocketChannel does: a closed connection or a bad size prefix leaked IncompleteReadError,
ValueError or OSError.
---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..89d22da 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except Exception as e:
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except Exception as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From 0fdaa7a62e8b1b5c2c71d2e988482cbc3179bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:25 +0000
Subject: [PATCH 15/22] fix: client sessions can be created in a thread without
 an event loop

---
 saltchannel/a1a2/a1_client_session.py | 4 ++--
 saltchannel/v2/salt_client_session.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/a1_client_session.py b/saltchannel/a1a2/a1_client_session.py
index 467c4c5..b81ca49 100644
--- a/saltchannel/a1a2/a1_client_session.py
+++ b/saltchannel/a1a2/a1_client_session.py
@@ -1,11 +1,11 @@
-import asyncio
+import saltchannel.util as util
 from . import packets
 
 
 class A1ClientSession:
     """"""
     def __init__(self, channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.channel = channel
         self.a1 = packets.A1Packet()
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 0a0fd5e..73e744a 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -15,7 +15,7 @@ class SaltClientSession(metaclass=util.Syncizer):
     Asyncio-based implementation
     """
     def __init__(self, sig_keypair, clear_channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.saltlib = SaltLib()
         self.sig_keypair = sig_keypair
-- 
2.43.0


From 9a1d3c23441b8f06b958cb49bda0b37196c83491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:09 +0000
Subject: [PATCH 16/22] fix: EncryptedChannelV2 gets blocking read_sync() and
 write_sync()

It inherited ByteChannel's empty placeholders: write_sync() silently dropped
the message and read_sync() returned None.
---
 saltchannel/v2/encrypted_channel_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index a86d1eb..96191d3 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -1,5 +1,6 @@
 from enum import Enum
 
+import saltchannel.util as util
 from ..saltlib import SaltLib
 from ..saltlib import BadEncryptedDataException, BadSignatureException
 from ..channel import ByteChannel
@@ -32,7 +33,7 @@ class Nonce:
         return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])
 
 
-class EncryptedChannelV2(ByteChannel):
+class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
     """An implementation of an encrypted channel using a shared symmetric session key.
     The read/write methods throws ComException for low-level IO errors
     and BadPeer if the data format is not OK or if the data is not
-- 
2.43.0


From 4ec8d8cfb6eb43cb7efdcb806e510b2e504be828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:22 +0000
Subject: [PATCH 17/22] fix: SaltLibPure imports the exceptions it raises

A forged signature or box raised NameError instead of BadSignatureException
or BadEncryptedDataException.
---
 saltchannel/saltlib/saltlib_pure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/saltchannel/saltlib/saltlib_pure.py b/saltchannel/saltlib/saltlib_pure.py
index 0297bf8..a1a74e4 100644
--- a/saltchannel/saltlib/saltlib_pure.py
+++ b/saltchannel/saltlib/saltlib_pure.py
@@ -5,6 +5,7 @@ from .pure_pynacl import tweetnacl
 from .pure_pynacl.tweetnacl import u8
 
 from .saltlib_base import SaltLibBase
+from .exceptions import BadEncryptedDataException, BadSignatureException
 
 class SaltLibPure(SaltLibBase):
 
-- 
2.43.0


From 4f2dcb0520daa64c49916470bc0030c4d3c8e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:22 +0000
Subject: [PATCH 18/22] fix: pure back-end keeps the plaintext of an opened box

crypto_secretbox_xsalsa20poly1305_tweet_open() replaced the whole output
buffer by 32 zero bytes; only the first 32 (the padding) are to be cleared.
---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index d5ba020..6bef58d 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -332,7 +332,7 @@ def crypto_secretbox_xsalsa20poly1305_tweet_open(m, c, d, n, k):
     crypto_stream_xsalsa20_tweet(x, 32, n, k)
     if crypto_onetimeauth_poly1305_tweet_verify(c[16:], c[32:], d - 32, x) != 0: return -1
     crypto_stream_xsalsa20_tweet_xor(m, c, d, n, k)
-    m[:] = 32*[u8()]
+    m[:32] = 32*[u8()]
     return 0
 
 
-- 
2.43.0


From 4b7ae9b46839bb2225d4f0cc887410ed9e43484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:22 +0000
Subject: [PATCH 19/22] fix: SaltLibPure can be instantiated

The class did not implement the abstract method randombytes().
---
 saltchannel/saltlib/saltlib_pure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_pure.py b/saltchannel/saltlib/saltlib_pure.py
index a1a74e4..81d243d 100644
--- a/saltchannel/saltlib/saltlib_pure.py
+++ b/saltchannel/saltlib/saltlib_pure.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import os
+
 from .pure_pynacl import TypeEnum, integer, Int, IntArray
 from .pure_pynacl import tweetnacl
 from .pure_pynacl.tweetnacl import u8
@@ -93,4 +95,7 @@ class SaltLibPure(SaltLibBase):
             raise ValueError("invalid parameter")
         h = IntArray(u8, size=64)
         tweetnacl.crypto_hash_sha512_tweet(h, list(m), len(m))
-        return bytes(h)
\ No newline at end of file
+        return bytes(h)
+
+    def randombytes(self, n):
+        return os.urandom(n)
-- 
2.43.0


From d98f3065b79e620c72a21d0032825a96ba1292e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:36 +0000
Subject: [PATCH 20/22] fix: pure back-end keeps the Salsa20 block counter in
 bytes

z[i] = u stored the un-truncated 32-bit sum, so a carry out of a counter byte was
added again on the next block: everything past the first 257 blocks (16,448
bytes) of a message was encrypted with a wrong key stream.
---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index 6bef58d..d1f0c37 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -199,7 +199,7 @@ def crypto_stream_salsa20_tweet_xor(c, m, b, n, k):
         u = u32(1)
         for i in range(8, 16):
             u += u32(z[i])
-            z[i] = u
+            z[i] = u8(u)
             u >>= 8
         b -= 64
         c_off += 64
-- 
2.43.0


From d55c4a1b4cef6f1c0877b21a9e0f5a0bc8556bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:20 +0000
Subject: [PATCH 21/22] fix: echo session: a client that disconnects ends the
 asyncio server session, and the connection is closed

---
 saltchannel/dev/simple_echo_session_a.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/saltchannel/dev/simple_echo_session_a.py b/saltchannel/dev/simple_echo_session_a.py
index 47d4410..253c031 100644
--- a/saltchannel/dev/simple_echo_session_a.py
+++ b/saltchannel/dev/simple_echo_session_a.py
@@ -14,16 +14,20 @@ class SimpleEchoSessionA(SessionA):
         addr = writer.get_extra_info('peername')
         logging.info("SRV accepted connection from: {:s}".format(str(addr)))
 
-        while not reader.at_eof():
-            data = await reader.read_msg()
-            if not data:
-                logging.info("SRV received empty msg = client requested session end")
-                break
-            logging.info("<-- SRV Received: '{:s}' from: {:s}".format(data.hex(), str(addr)))
-            writer.write_msg(data)
-            logging.info("--> SRV Send:     '{:s}'".format(data.hex()))
+        try:
+            while not reader.at_eof():
+                data = await reader.read_msg()
+                if not data:
+                    logging.info("SRV received empty msg = client requested session end")
+                    break
+                logging.info("<-- SRV Received: '{:s}' from: {:s}".format(data.hex(), str(addr)))
+                writer.write_msg(data)
+                logging.info("--> SRV Send:     '{:s}'".format(data.hex()))
+
+            await writer.drain()
+        except (EOFError, OSError, ValueError):
+            logging.info("SRV detected closed connection")
 
-        await writer.drain()
         logging.info("SRV closing connection")
         writer.close()
 
-- 
2.43.0


From bfd8c0f28bf6483ae89e03ec2ca629260c233522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:28 +0000
Subject: [PATCH 22/22] fix: sessions: channels created by the handshake use
 the session's event loop

---
 saltchannel/v2/salt_client_session.py | 4 ++--
 saltchannel/v2/salt_server_session.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 73e744a..41e26c2 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -120,8 +120,8 @@ class SaltClientSession(metaclass=util.Syncizer):
             self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
         except (ValueError, RuntimeError) as e:
             raise saltchannel.exceptions.BadPeer("could not compute session key: ", e)
-        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT)
-        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
+        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT, loop=self.loop)
+        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker, loop=self.loop)
 
     def validate(self):
         """Check if current instance's state is valid for handshake to start"""
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index 57de34a..ef56b72 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -140,8 +140,8 @@ class SaltServerSession(metaclass=util.Syncizer):
             self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
         except (ValueError, RuntimeError) as e:
             raise saltchannel.exceptions.BadPeer("could not compute session key: ", e)
-        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER)
-        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
+        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER, loop=self.loop)
+        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker, loop=self.loop)
 
     def validate_signature2(self):
         """Validates M4/Signature2."""
-- 
2.43.0

