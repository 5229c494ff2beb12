From 1f43dd432b1774097b00bb480bbd5be3df09fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 01/72] fix: decode and encode uint64 and acc64 points as
 unsigned

---
 sunspec/core/suns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/suns.py b/sunspec/core/suns.py
index 3204939..063be93 100644
--- a/sunspec/core/suns.py
+++ b/sunspec/core/suns.py
@@ -182,8 +182,8 @@ suns_point_type_info = {
     SUNS_TYPE_BITFIELD32: (2, suns_is_impl_bitfield32, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_IPADDR: (2, suns_is_impl_ipaddr, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_INT64: (4, suns_is_impl_int64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
+    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
+    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
     SUNS_TYPE_IPV6ADDR: (8, suns_is_impl_ipv6addr, util.data_to_ipv6addr, util.ipv6addr_to_data, suns_to_str, 0),
     SUNS_TYPE_FLOAT32: (2, suns_is_impl_float32, util.data_to_float, util.float_to_data32, suns_to_float, 0),
     SUNS_TYPE_STRING: (None, suns_is_impl_string, util.data_to_str, util.str_to_data, suns_to_str, ''),
-- 
2.43.0


From 607dd8a3537be7dcf27c1b89aa3fb71dc4dd154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 02/72] fix: encode a short string into exactly the length
 asked for

---
 sunspec/core/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2c59734..574103a 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -141,13 +141,13 @@ def float_to_data(f, len=None):
     return struct.pack('>d', f)
 
 def str_to_data(s, slen=None):
-    if slen is None:
-        slen = len(s)
     if sys.version_info > (3,):
         s = bytes(s, 'latin-1')
-    if slen < 16:
-        s += b'\x00'
-        slen += 1
+    if slen is None:
+        slen = len(s)
+        if slen < 16:
+            s += b'\x00'
+            slen += 1
     return struct.pack(str(slen) + 's', s)
 
 def eui48_to_data(eui48):
-- 
2.43.0


From 3183127ceb85675ce59140a714c1b3e5188ac83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 03/72] fix: accept the field length when encoding an EUI-48
 point

---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 574103a..f86d4d2 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -150,7 +150,7 @@ def str_to_data(s, slen=None):
             slen += 1
     return struct.pack(str(slen) + 's', s)
 
-def eui48_to_data(eui48):
+def eui48_to_data(eui48, len=None):
     return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
 
 
-- 
2.43.0


From 6f9b2c2866de11c6c00364fb39a48886400c5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 04/72] fix: a point without a value has no scaled value

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cafc223..b2d82bd 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -510,7 +510,7 @@ class Point(object):
     # use older property format to support earlier python 2.x versions
     def value_getter(self):
 
-        if self.value_sf:
+        if self.value_sf and self.value_base is not None:
             return self.value_base * math.pow(10, self.value_sf)
         else:
             return self.value_base
-- 
2.43.0


From 8daef8497c824e3683a35b38256f617681cc99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 05/72] fix: a point marked unimplemented in PICS keeps no
 value from an earlier block

---
 sunspec/core/device.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index b2d82bd..d39afad 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -349,8 +349,10 @@ class Block(object):
 
         # resolve scale factor values in points, must be done after all points in block are read
         for point in self.points_list:
-            if point.sf_point is not None:
+            if point.sf_point is not None and point.value_base is not None:
                 point.value_sf = point.sf_point.value_base
+            else:
+                point.value_sf = None
 
     def to_pics(self, parent):
         """Adds the block and all elements within the block to the parent
@@ -543,14 +545,15 @@ class Point(object):
                 impl = False
 
         value = None
+        self.impl = impl
         if impl:
             if element.text:
                 value = self.point_type.to_value(element.text)
                 self.impl = self.point_type.is_impl(value)
-        else:
-            self.impl = False
 
-        if self.impl and value is not None:
+        if not self.impl:
+            self.value_base = None
+        elif value is not None:
             self.value_base = value
 
     def to_pics(self, parent):
-- 
2.43.0


From 6de6b1a2114f507bfd98b0d26f5f82cc252260ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 06/72] fix: cut a long TCP write into the right pieces

The slice of the data to send was only computed for the last piece, so a
write of more than max_count registers raised UnboundLocalError.
---
 sunspec/core/modbus/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7509187..11b4d8e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -943,8 +943,8 @@ class ModbusClientDeviceTCP(object):
                     write_count = self.max_count
                 else:
                     write_count = count
-                    start = (write_offset * 2)
-                    end = int((write_offset + write_count) * 2)
+                start = int(write_offset * 2)
+                end = int((write_offset + write_count) * 2)
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
-- 
2.43.0


From 57317c5197e64c7cdb8e4b9b3630ffb04427686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 07/72] fix: keep Modbus writes within 123 registers

A write multiple registers request holds at most 123 registers; with the
default max_count of 125 longer writes were sent as illegal requests.
---
 sunspec/core/modbus/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 11b4d8e..35d7665 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -39,6 +39,7 @@ PARITY_NONE = 'N'
 PARITY_EVEN = 'E'
 
 REQ_COUNT_MAX = 125
+REQ_WRITE_COUNT_MAX = 123
 
 FUNC_READ_HOLDING = 3
 FUNC_READ_INPUT = 4
@@ -431,6 +432,7 @@ class ModbusClientRTU(object):
         write_count = 0
         write_offset = 0
         count = len(data)/2
+        max_count = min(max_count, REQ_WRITE_COUNT_MAX)
 
         if self.serial is not None:
             while (count > 0):
@@ -932,6 +934,7 @@ class ModbusClientDeviceTCP(object):
         write_offset = 0
         local_connect = False
         count = len(data)/2
+        max_count = min(self.max_count, REQ_WRITE_COUNT_MAX)
 
         if self.socket is None:
             local_connect = True
@@ -939,8 +942,8 @@ class ModbusClientDeviceTCP(object):
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    write_count = self.max_count
+                if count > max_count:
+                    write_count = max_count
                 else:
                     write_count = count
                 start = int(write_offset * 2)
-- 
2.43.0


From 90da262cb7214a5d07ba0a66ffff743758ebfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 08/72] fix: drop the socket of a failed TCP connection

A refused connection left its unconnected socket in place, which leaked it
and made every later operation fail.
---
 sunspec/core/modbus/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 35d7665..d2aa3da 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -729,6 +729,7 @@ class ModbusClientDeviceTCP(object):
 
             self.socket.connect((self.ipaddr, self.ipport))
         except Exception as e:
+            self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
 
     def disconnect(self):
-- 
2.43.0


From ac790dc4ee253ec07aef64b495cf16c1c4c1b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 09/72] fix: report a failed or timed out TCP receive as a
 Modbus client error

---
 sunspec/core/modbus/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index d2aa3da..3f8bbbf 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -743,6 +743,15 @@ class ModbusClientDeviceTCP(object):
         except Exception:
             pass
 
+    def _recv(self, size):
+
+        try:
+            return self.socket.recv(size)
+        except socket.timeout:
+            raise ModbusClientTimeout('Response timeout')
+        except Exception as e:
+            raise ModbusClientError('Socket read error: %s' % str(e))
+
     def _read(self, addr, count, op=FUNC_READ_HOLDING):
 
         resp = b''
@@ -764,7 +773,7 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            c = self._recv(len_remaining)
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
@@ -879,7 +888,7 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            c = self._recv(len_remaining)
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
-- 
2.43.0


From 8b808d2eff26d5f31560596dd0e8fc98302bf00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 10/72] fix: check that a TCP response answers the request

A response with another function or register count was taken for the data
asked for, and one with exception code 0 for a good response.
---
 sunspec/core/modbus/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 3f8bbbf..4551838 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -803,9 +803,13 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        data_len = int(count) * 2
+        if ord(resp[TCP_HDR_LEN + 1]) != op or ord(resp[TCP_HDR_LEN + 2]) != data_len or len(resp) != TCP_HDR_LEN + 3 + data_len:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[(TCP_HDR_LEN + 3):]
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
@@ -924,9 +928,14 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
+        if sys.version_info > (3,):
+            resp = bytes(resp, 'latin-1')
+        if resp[(TCP_HDR_LEN + 1):] != struct.pack('>BHH', func, int(addr), write_count):
+            raise ModbusClientError('Modbus response format error')
+
     def write(self, addr, data):
         """ Write Modbus device registers. If no connection exists to the
         destination, one is created and disconnected at the end of the request.
-- 
2.43.0


From 890c5d6f35a4a3396696ce2c92b61124717b9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 11/72] fix: never take a late TCP response for the one to a
 later request

After a failed exchange the rest of its response could still arrive on an
open connection, where the next request took it for its own response.
---
 sunspec/core/modbus/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 4551838..e8f1cc9 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -855,6 +855,12 @@ class ModbusClientDeviceTCP(object):
                     read_offset += read_count
                 else:
                     break
+        except ModbusClientException:
+            raise
+        except ModbusClientError:
+            # what is left of the exchange must not be taken for the next response
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
@@ -970,6 +976,12 @@ class ModbusClientDeviceTCP(object):
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
+        except ModbusClientException:
+            raise
+        except ModbusClientError:
+            # what is left of the exchange must not be taken for the next response
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
-- 
2.43.0


From 46993fada6874a37e1ea583155bbddb8a58a932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 12/72] fix: check that an RTU read response answers the
 request

A response from another slave, with another function or with another number
of registers was taken for the data asked for, and one with exception code 0
for a good response.
---
 sunspec/core/modbus/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index e8f1cc9..0227618 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -274,9 +274,15 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if ord(resp[0]) != int(slave_id):
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[1]) != op or ord(resp[2]) != int(count) * 2:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[3:-2]
 
     def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
@@ -399,7 +405,7 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
         else:
             if sys.version_info > (3,):
-- 
2.43.0


From 5b1eb40487270c10de36be7577b76c4504de4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 13/72] fix: report serial port failures during an exchange as
 Modbus client errors

---
 sunspec/core/modbus/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 0227618..a93708e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -222,6 +222,13 @@ class ModbusClientRTU(object):
             self.close()
             modbus_rtu_client_remove(self.name)
 
+    def _serial_read(self, size):
+
+        try:
+            return self.serial.read(size)
+        except Exception as e:
+            raise ModbusClientError('Serial read error: %s' % str(e))
+
     def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
         resp = ''
         len_remaining = 5
@@ -237,14 +244,14 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            c = self._serial_read(len_remaining)
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -366,8 +373,8 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             if sys.version_info > (3,):
                 req = bytes(req, "latin-1")
             self.serial.write(req)
@@ -375,7 +382,7 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            c = self._serial_read(len_remaining)
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
-- 
2.43.0


From d2af5ce33f755da3feedaea0e4aea7fb169eea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 14/72] fix: trace request bytes as well on Python 3

Iterating over bytes gives integers, on which the ord() of the trace output
raised TypeError, so that every traced request failed.
---
 sunspec/core/modbus/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index a93708e..2c7cee6 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -240,8 +240,8 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             trace_func(s)
 
         try:
@@ -776,8 +776,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
@@ -901,8 +901,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
-- 
2.43.0


From 588ce71f6c22267463f469e4534617cea5a9468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 15/72] fix: let trace=True of a client device trace

The flag was used as the trace function itself, so that every request of a
device with trace enabled raised TypeError.
---
 sunspec/core/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4962a9a..40aea7f 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -41,6 +41,9 @@ PARITY_EVEN = modbus.PARITY_EVEN
 class SunSpecClientError(SunSpecError):
     pass
 
+def trace_print(s):
+    print(s)
+
 class ClientDevice(device.Device):
 
     """ClientDevice
@@ -153,6 +156,9 @@ class ClientDevice(device.Device):
         self.retry_count = 2
         self.base_addr_list = [40000, 0, 50000]
 
+        if trace and not callable(trace):
+            trace = trace_print
+
         try:
             if device_type == RTU:
                 self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
-- 
2.43.0


From 5bdb1aa1658b79312f693996cc7ccf6e7359527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 16/72] fix: closing an RTU device again affects no other
 device

A second close removed a newer device with the same slave id, or the newer
client of the same port, from the devices and clients in use.
---
 sunspec/core/modbus/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 2c7cee6..49cc870 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -529,7 +529,9 @@ class ModbusClientDeviceRTU(object):
         """
 
         if self.client:
-            self.client.remove_device(self.slave_id)
+            client = self.client
+            self.client = None
+            client.remove_device(self.slave_id)
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
         """Read Modbus device registers.
@@ -550,6 +552,8 @@ class ModbusClientDeviceRTU(object):
             Byte string containing register contents.
         """
 
+        if self.client is None:
+            raise ModbusClientError('Device is closed')
         return self.client.read(self.slave_id, addr, count, op=op, trace_func=self.trace_func, max_count=self.max_count)
 
     def write(self, addr, data):
@@ -564,6 +568,8 @@ class ModbusClientDeviceRTU(object):
                 Byte string containing register contents.
         """
 
+        if self.client is None:
+            raise ModbusClientError('Device is closed')
         return self.client.write(self.slave_id, addr, data, trace_func=self.trace_func, max_count=self.max_count)
 
 TCP_HDR_LEN = 6
-- 
2.43.0


From 00debb75ac1928e5c4f191808300143d8833695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 17/72] fix: report register map errors of a mapped device as
 client errors

A missing or bad map file, and any access outside of the registers of the
map, reached the caller as ModbusMapError, so that a mapped device whose
registers do not start at 40000 could not be scanned.
---
 sunspec/core/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 40aea7f..d0dc54c 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -26,6 +26,7 @@ import time
 import struct
 import sys
 import sunspec.core.modbus.client as modbus
+import sunspec.core.modbus.mbmap as mbmap
 import sunspec.core.device as device
 import sunspec.core.util as util
 import sunspec.core.suns as suns
@@ -171,7 +172,7 @@ class ClientDevice(device.Device):
                     if self.modbus_device is not None:
                         self.modbus_device.close()
                     raise SunSpecClientError('Map file required for mapped device')
-        except modbus.ModbusClientError as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
             if self.modbus_device is not None:
                 self.modbus_device.close()
             raise SunSpecClientError('Modbus error: %s' % str(e))
@@ -201,7 +202,7 @@ class ClientDevice(device.Device):
                 return self.modbus_device.read(addr, count)
             else:
                 raise SunSpecClientError('No modbus device set for SunSpec device')
-        except modbus.ModbusClientError as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
             raise SunSpecClientError('Modbus read error: %s' % str(e))
 
     def write(self, addr, data):
@@ -221,7 +222,7 @@ class ClientDevice(device.Device):
                 return self.modbus_device.write(addr, data)
             else:
                 raise SunSpecClientError('No modbus device set for SunSpec device')
-        except modbus.ModbusClientError as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
             raise SunSpecClientError('Modbus write error: %s' % str(e))
 
     def read_points(self):
-- 
2.43.0


From 1368aabdfb495aa929a9b52c48f49409519fb8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 18/72] fix: close the connection and report a client error if
 a TCP scan fails

---
 sunspec/core/client.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index d0dc54c..1510fd4 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -239,16 +239,27 @@ class ClientDevice(device.Device):
         SunSpec model definitions.
         """
 
-        error = ''
-
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
-            self.modbus_device.connect()
+            try:
+                self.modbus_device.connect()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus error: %s' % str(e))
             connect = True
 
-            if delay is not None:
+        try:
+            if connect and delay is not None:
                 time.sleep(delay)
 
+            self.scan_models(progress=progress, delay=delay)
+        finally:
+            if connect:
+                self.modbus_device.disconnect()
+
+    def scan_models(self, progress=None, delay=None):
+
+        error = ''
+
         if self.base_addr is None:
             for addr in self.base_addr_list:
                 # print('trying base address %s' % (addr))
@@ -310,9 +321,6 @@ class ClientDevice(device.Device):
                 error = 'Unknown error'
             raise SunSpecClientError(error)
 
-        if connect:
-            self.modbus_device.disconnect()
-
 class ClientModel(device.Model):
     """A derived class based on :const:`sunspec.core.device.Model`. It adds
     Modbus device access capability to the model base class.
-- 
2.43.0


From 137c7d3a22c3c522e61bc87c4a4a4c53b867ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 19/72] fix: end the scan of a mapped device where its
 registers end

---
 sunspec/core/client.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 1510fd4..8ff1ae0 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -233,6 +233,16 @@ class ClientDevice(device.Device):
         for model in self.models_list:
             model.read_points()
 
+    def scan_read(self, addr, count):
+
+        try:
+            return self.read(addr, count)
+        except SunSpecClientError:
+            # the models of a mapped device may simply end where the map ends
+            if self.type == MAPPED:
+                return None
+            raise
+
     def scan(self, progress=None, delay=None):
         """Scan all the models of the physical device and create the
         corresponding model objects within the device object based on the
@@ -286,7 +296,7 @@ class ClientDevice(device.Device):
             while model_id != suns.SUNS_END_MODEL_ID:
                 # read model and model len separately due to some devices not supplying
                 # count for the end model id
-                data = self.read(addr + 1, 1)
+                data = self.scan_read(addr + 1, 1)
                 if data and len(data) == 2:
                     if progress is not None:
                         cont = progress('Scanning model %s' % (model_id))
@@ -305,7 +315,7 @@ class ClientDevice(device.Device):
                     self.add_model(model)
 
                     addr += model_len + 2
-                    data = self.read(addr, 1)
+                    data = self.scan_read(addr, 1)
                     if data and len(data) == 2:
                         model_id = util.data_to_u16(data)
                     else:
-- 
2.43.0


From 96649dd6a7bb82a13721748a68569791acbee3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 20/72] fix: scan a device whose base address is known

Such a scan raised UnboundLocalError as the first model id is read along
with the search for the base address; models found before are replaced.
---
 sunspec/core/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 8ff1ae0..45c4b83 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -270,6 +270,11 @@ class ClientDevice(device.Device):
 
         error = ''
 
+        if self.base_addr is not None:
+            data = self.read(self.base_addr, 3)
+            if data[:4] != b'SunS':
+                raise SunSpecClientError('Device responded - not SunSpec register map')
+
         if self.base_addr is None:
             for addr in self.base_addr_list:
                 # print('trying base address %s' % (addr))
@@ -290,6 +295,8 @@ class ClientDevice(device.Device):
 
         if self.base_addr is not None:
             # print('base address = %s' % (self.base_addr))
+            self.models_list = []
+            self.models = {}
             model_id = util.data_to_u16(data[4:6])
             addr = self.base_addr + 2
 
-- 
2.43.0


From db4cd3cc76279ac5b20e3d481eeb40520d9d86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 21/72] fix: number the instances of a model found by a scan

---
 sunspec/core/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 45c4b83..b9d5328 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -313,7 +313,8 @@ class ClientDevice(device.Device):
                     # print('model_id = %s  model_len = %s' % (model_id, model_len))
 
                     # move address past model id and length
-                    model = ClientModel(self, model_id, addr + 2, model_len)
+                    index = len(self.models.get(model_id, [])) + 1
+                    model = ClientModel(self, model_id, addr + 2, model_len, index)
                     # print('loading model %s at %d' % (model_id, addr + 2))
                     try:
                         model.load()
-- 
2.43.0


From c564b263815e1cd31beacc5d865312d8e9526155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 22/72] fix: keep points pending until their write has
 succeeded

The updates of a failed model write were forgotten, so that repeating the
write sent nothing.
---
 sunspec/core/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index b9d5328..9411152 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -451,6 +451,7 @@ class ClientModel(device.Model):
         addr = None
         next_addr = None
         data = b''
+        points = []                    # points to be written from data
 
         for block in self.blocks:
             for point in block.points_list:
@@ -464,13 +465,17 @@ class ClientModel(device.Model):
                     else:
                         if point_addr != next_addr:
                             block.model.device.write(addr, data)
+                            while points:
+                                points.pop().dirty = False
                             addr = point_addr
                             data = b''
                     next_addr = point_addr + point_len
                     data += point_data
-                    point.dirty = False
+                    points.append(point)
             if addr is not None:
                 block.model.device.write(addr, data)
+                while points:
+                    points.pop().dirty = False
                 addr = None
 
 class ClientBlock(device.Block):
-- 
2.43.0


From c77a3290b38d9abebd4053167462f71bbef9d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 23/72] fix: let an item of a SunSpecClientDevice be set

dict has no method set, so that the assignment raised AttributeError.
---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 9411152..7756e55 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -900,7 +900,7 @@ class SunSpecClientDevice(object):
         return self.__dict__.get(key, None)
 
     def __setitem__(self, key, item):
-        self.__dict__.set(key, item)
+        self.__dict__[key] = item
 
     def __str__(self):
 
-- 
2.43.0


From 2e594f3cff35833300606b0029b533b92f374229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 24/72] fix: print the models of a device that has several of a
 kind

A SunSpecClientDevice printed the list of such models with the addresses of
the model objects instead of the points.
---
 sunspec/core/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 7756e55..acaf72a 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -906,6 +906,10 @@ class SunSpecClientDevice(object):
 
         s = ''
         for model in self.models:
+            if type(self[model]) is list:
+                for m in self[model][1:]:
+                    s += str(m)
+                continue
             s += str(self[model])
 
         return s
-- 
2.43.0


From ed5a94f708d69a3e8cb74c091c7548e81b6c1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 25/72] fix: write across adjoining register blocks of a map

---
 sunspec/core/modbus/mbmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0a010d3..faeae21 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -416,7 +416,7 @@ class ModbusMap(object):
         """
 
         data_len = len(data)
-        count_remaining = data_len/2
+        count_remaining = data_len//2
 
         if data_len % 2 != 0:
             raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
@@ -436,7 +436,7 @@ class ModbusMap(object):
                     end = int(data_offset + (write_count * 2))
                     regs.write(offset, data[start:end])
                     offset += write_count
-                    data_offset += write_count
+                    data_offset += write_count * 2
                     count_remaining -= write_count
                 else:
                     continue
-- 
2.43.0


From 91c576a811549e9986efee4317bb7278ff1591d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 26/72] fix: a refused write changes no register of a map

---
 sunspec/core/modbus/mbmap.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index faeae21..fd4ec40 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -423,6 +423,15 @@ class ModbusMap(object):
 
         data_offset = 0
         offset = addr - int(self.base_addr)
+
+        # all registers must be present before any of them is written
+        end_offset = offset
+        for regs in self.regs:
+            if end_offset >= regs.offset and end_offset < regs.offset + regs.count:
+                end_offset = regs.offset + regs.count
+        if end_offset < offset + count_remaining:
+            raise ModbusMapError('Data write error')
+
         for regs in self.regs:
             if count_remaining > 0:
                 regs_end_offset = regs.offset + regs.count
-- 
2.43.0


From a09051ce5b746c136ba82049e69a349e78255f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 27/72] fix: load maps from hex files on Python 3 and refuse an
 odd number of bytes

---
 sunspec/core/modbus/mbmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index fd4ec40..9dab028 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,7 +140,9 @@ class ModbusMap(object):
                             else:
                                 data += c
 
-            mmr = ModbusMapRegs(offset, len(data)/2, data, MBMAP_REGS_ACCESS_RW)
+            if len(data) % 2 != 0:
+                raise ModbusMapError('Data length not even number of bytes')
+            mmr = ModbusMapRegs(offset, len(data)//2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
         except Exception as e:
-- 
2.43.0


From eeaf01f2fe2b7eaafed5f6c36ce7add974ee6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 28/72] fix: load the base address of a map as a number

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 9dab028..6568530 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -188,7 +188,7 @@ class ModbusMap(object):
             if value is None:
                 raise ModbusMapError('Unsupported function: %s' % (func))
             self.func = value
-            self.base_addr = root.attrib.get(MBMAP_ADDR, 40000)
+            self.base_addr = int(root.attrib.get(MBMAP_ADDR, 40000))
             self.ns = root.attrib.get(MBMAP_NS)
             self.lid = root.attrib.get(MBMAP_LID)
             self.mapid = root.attrib.get(MBMAP_MAPID)
-- 
2.43.0


From 72c92bc72e17aa85d442795dcc98539222dd692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 29/72] fix: length of a map string given without length

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 6568530..aab77e6 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -250,7 +250,7 @@ class ModbusMap(object):
                     rlen = 4
                 elif rtype == MBMAP_REGS_TYPE_STRING:
                     if rlen == 0:
-                        rlen = (len(text) + 3)/4
+                        rlen = (len(text) + 1)//2
 
                     # Python 3 compatibility for byte strings
                     if sys.version_info > (3,):
-- 
2.43.0


From 8e9b38550824520425ff7f98a76544dabcafbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 30/72] fix: register count of a map hexstr given without
 length

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index aab77e6..4a5a900 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -265,7 +265,7 @@ class ModbusMap(object):
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
-                        rlen = text_len/4
+                        rlen = text_len//4
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 7bf226b675c72d09c78b400b1f3abecbb7de5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 31/72] fix: refuse a map hexstr longer than its length

---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 4a5a900..268456c 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -266,6 +266,8 @@ class ModbusMap(object):
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
                         rlen = text_len//4
+                    elif rlen < text_len//4:
+                        raise ModbusMapError('Hex string content longer than register length')
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 4d4206ee9268d42c681c05322b0fd59256086e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 32/72] fix: report a map register offset that is not a number
 as a map error

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 268456c..0181fac 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -296,7 +296,7 @@ class ModbusMap(object):
                     last_regs.append(offset, rlen, data, access)
 
         except Exception as e:
-            raise ModbusMapError('Error loading %s (%s) at offset %d - %s' % (filename, pathlist, offset, str(e)))
+            raise ModbusMapError('Error loading %s (%s) at offset %s - %s' % (filename, pathlist, offset, str(e)))
 
     def to_xml(self, parent=None, no_data=False):
 
-- 
2.43.0


From 3b80c02ecb38650f1ead6fa70ef44040ff5ce192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 33/72] fix: keep the access of register blocks when writing a
 map to XML

---
 sunspec/core/modbus/mbmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0181fac..b0b4f52 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -318,7 +318,8 @@ class ModbusMap(object):
             element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
 
         for regs in self.regs:
-            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count)})
+            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count),
+                                                             MBMAP_REGS_ACCESS: regs.access})
 
             if no_data is False:
                 s = ''
-- 
2.43.0


From 54b994c530a89716f4afeafe26a9066bbf36a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 34/72] fix: keep the symbols of points with the same id apart

---
 sunspec/core/device.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index d39afad..5f47951 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1394,10 +1394,7 @@ class PointType(object):
                 self.notes = e.text
             elif e.tag == smdx.SMDX_SYMBOL:
                 sid = e.attrib.get(smdx.SMDX_ATTR_ID)
-                symbol = self.block_type.model_type.symbol_get(
-                    sid=sid,
-                    point_id=self.id,
-                )
+                symbol = self.symbol_get(sid)
                 if symbol is None:
                     symbol = Symbol()
                     symbol.from_smdx(e, strings)
-- 
2.43.0


From e38e5b3e1d8570740b34d6cd39f0adbfa643821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 35/72] fix: report a scale factor that does not exist as a
 SunSpec error

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 5f47951..12ffefe 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -768,7 +768,7 @@ class Model(object):
                         if point.sf_point is None:
                             # ### what state should model be left in on exception
                             raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
-                                point.point_type.sf, point.point_type.pid, self.id)
+                                (point.point_type.sf, point.point_type.id, self.id))
 
                 block_addr += block_len
                 block_type = self.model_type.repeating_block
-- 
2.43.0


From 6c59bf3245360fb5cf8a0ad6dd50b4651d571921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 36/72] fix: load a PICS model without length with the length
 of its definition

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 12ffefe..de2e77d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -684,7 +684,7 @@ class Model(object):
         self.index = index
         self.model_type = None
         self.addr = addr               # modbus address of first point in the model
-        self.len = int(mlen)           # register count of the point elements in the model
+        self.len = int(mlen or 0)      # register count of the point elements in the model
         self.points_list = []          # fixed block non-scale factor points list ordered by offset
         self.points = {}               # fixed block non-scale factor points
         self.points_sf = {}            # fixed block scale factor points
-- 
2.43.0


From 9bdfc0694f87dba6136fcf0b01fd329b2095e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 37/72] fix: report a model definition that is not XML as a
 SunSpec error

---
 sunspec/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index de2e77d..cf4e596 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -921,10 +921,10 @@ def model_type_get(model_id):
                     raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
 
         if smdx_data:
-            root = ET.fromstring(smdx_data)
-
             # load model type
             try:
+                root = ET.fromstring(smdx_data)
+
                 model_type = ModelType()
                 model_type.from_smdx(root)
                 model_types[model_type.id] = model_type
-- 
2.43.0


From 1b003792ff0070633a7c4a0bf581f831ce456a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 38/72] fix: load the base address of a PICS device as a number

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cf4e596..023b39f 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -165,7 +165,7 @@ class Device(object):
                 d = element
             if d.tag != pics.PICS_DEVICE:
                 raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
-            self.base_addr = d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT)
+            self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
             addr = self.base_addr + 2
 
             for m in d.findall('*'):
-- 
2.43.0


From fe2b90e7da1c88d73f6fadddfe1b4eca325fdd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 39/72] fix: load the index of a PICS model as a number

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 023b39f..223cecc 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -801,7 +801,7 @@ class Model(object):
         """
 
         # update index if present
-        self.index = element.attrib.get(pics.PICS_ATTR_INDEX, self.index)
+        self.index = int(element.attrib.get(pics.PICS_ATTR_INDEX, self.index))
 
         for b in element.findall('*'):
             if b.tag != pics.PICS_BLOCK:
-- 
2.43.0


From ca3984ae09b0c3e225040d8468478d7e276c1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 40/72] fix: refuse a PICS block index out of range, if the
 model is known

---
 sunspec/core/device.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 223cecc..5b01efe 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -821,7 +821,10 @@ class Model(object):
                             block.from_pics(b)
                 else:
                     block_index = int(block_index)
-                    if len(self.blocks) < block_index:
+                    if block_index < 1 or block_index >= len(self.blocks):
+                        # the blocks of a model that could not be loaded are not known
+                        if self.load_error is not None:
+                            continue
                         raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                     self.blocks[block_index].from_pics(b)
             else:
-- 
2.43.0


From 71294854a092b73458da45d82562ff478e410d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 41/72] fix: compare devices with unknown models

---
 sunspec/core/device.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 5b01efe..da629a0 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -868,8 +868,14 @@ class Model(object):
                 Model to compare.
         """
 
+        if self.id != model.id:
+            return 'model {} not equal - model id not equal: {}'.format(self.id, model.id)
         if len(self.blocks) != len(model.blocks):
-            return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(self.blocks), len(model.blocks))
+            return 'model %s not equal - block counts: %d  %d' % (self.id, len(self.blocks), len(model.blocks))
+        if self.model_type is None:
+            if model.model_type is not None:
+                return 'model {} not equal - model type is None'.format(self.id)
+            return False
         s = self.model_type.not_equal(model.model_type)
         if s:
             return 'model {} not equal - model id not equal: {}'.format(self.model_type.id, s)
-- 
2.43.0


From 4c21b1c18020f291c74ceff2cc9bd3afca3bf109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 42/72] fix: compare the symbols of points by their content

---
 sunspec/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index da629a0..42cedd6 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1442,6 +1442,9 @@ class PointType(object):
         for k, v in self.__dict__.items():
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
+                if k == 'symbols':
+                    v = [s.__dict__ for s in v]
+                    value = [s.__dict__ for s in value]
                 if v is not None and value is not None:
                     if value is None or v != value:
                         return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
-- 
2.43.0


From 809ccd6990613cd855ac8ac2e281f8b4b971f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 43/72] fix: search a directory after a zip file of a path list

---
 sunspec/core/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index f86d4d2..bb623b7 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -210,6 +210,7 @@ class PathList(object):
         # traverse path list until first instance of file found
         for p in self.path:
             file_path = ''
+            zip_file_path = ''
             element_list = p.split(os.sep)
             sep = os.sep
 
-- 
2.43.0


From f266af407a9453e34221bbc80d12d39a81840f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 44/72] fix: search a path list entry of a zip file that ends
 with a separator

---
 sunspec/core/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index bb623b7..a011e1a 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -216,6 +216,9 @@ class PathList(object):
 
             for e in element_list:
                 if e == '':
+                    # no empty elements inside a zip file
+                    if zip_file_path:
+                        continue
                     file_path += sep
                 elif file_path and file_path != sep:
                     file_path += sep
-- 
2.43.0


From 99f0235afbbd2cffcc74a7ae8bee6b09c108a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 45/72] fix: keep the time stamp of a data record that is read

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index f1d6260..e4b3ee7 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -157,7 +157,7 @@ class DeviceData(object):
         self.man = element.attrib.get(SDX_DEVICE_MAN)
         self.mod = element.attrib.get(SDX_DEVICE_MOD)
         self.sn = element.attrib.get(SDX_DEVICE_SN)
-        self.time = element.attrib.get(SDX_DEVICE_TIME)
+        self.timestamp = element.attrib.get(SDX_DEVICE_TIME)
         self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
 
         for m in element.findall('*'):
-- 
2.43.0


From ab5a2a66194968d21faa8aaebf84483ab332a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 46/72] fix: pass model index and namespace of a data record in
 the right order

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index e4b3ee7..8c17b6a 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -138,7 +138,7 @@ class DeviceData(object):
 
     def model_add(self, model_id=None, index=None, namespace=None):
 
-    	m = ModelData(model_id, namespace, index)
+    	m = ModelData(model_id, index, namespace)
     	self.model_data.append(m)
     	return m
 
-- 
2.43.0


From 64807ae7a2147754f63c61d3952c24439c2abe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 47/72] fix: write the model index of a data record

---
 sunspec/core/data.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 8c17b6a..2153ea6 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -244,12 +244,8 @@ class ModelData(object):
 
         attr = {SDX_MODEL_ID: str(self.model_id)}
 
-        if self.index is None and sys.version_info > (3,):
-            self.index = -233
-        if self.index > 1:
-            attr[SDX_MODEL_INDEX] = self.index
-        if self.index is -233 and sys.version_info > (3,):
-            self.index = None
+        if self.index is not None and self.index > 1:
+            attr[SDX_MODEL_INDEX] = str(self.index)
         if self.namespace:
             attr[SDX_MODEL_NAMESPACE] = self.namespace
 
-- 
2.43.0


From 97b9e9bb07dd431c0703f7d1ed5e69b627ff2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 48/72] fix: a directory of the name is not the file looked for
 in a path list

---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index a011e1a..180bef8 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -245,7 +245,7 @@ class PathList(object):
                     continue
                 return zip_file.read(file_path)
             else:
-                if os.path.exists(file_path):
+                if os.path.isfile(file_path):
                     with open(file_path, 'rb') as f:
                         return f.read()
                 else:
-- 
2.43.0


From e1e3aa725fa085058b800046e0fb13301933f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 49/72] fix: load an empty hexstr block of a map as a block
 without data

---
 sunspec/core/modbus/mbmap.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index b0b4f52..7d77e41 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -269,18 +269,14 @@ class ModbusMap(object):
                     elif rlen < text_len//4:
                         raise ModbusMapError('Hex string content longer than register length')
                     text_index = 0
+                    data = b''
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
                         text_index += 2
-                        if data is None:
-                            data = c
-                        else:
-                            data += c
+                        data += c
                     # fill remainder of string with nulls
                     padding_needed = 2 * int(rlen - text_len / 4)
                     if padding_needed > 0:
-                        if data is None:
-                            data = b''
                         data += struct.pack(str(padding_needed) + 's', b'')
                 else:
                     raise ModbusMapError('Unknown type at offset %d' % (offset))
-- 
2.43.0


From fccb5e6f49e673f85242020119c63afadcfd8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 50/72] fix: refuse a repeating block without registers instead
 of loading it forever

---
 sunspec/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 42cedd6..7e7fcc6 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -779,6 +779,9 @@ class Model(object):
                 block_len = int(block_type.len)
                 if end_addr == block_end:
                     break
+                # blocks without registers would never reach the end of the model
+                if block_len < 1:
+                    raise SunSpecError('Repeating block of model {} has no registers'.format(self.id))
         else:
             raise SunSpecError('Unknown model type - id: %s' % str(self.id))
 
-- 
2.43.0


From 0da5b25453a05c58a7eb2cbfa14286e7078f0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 51/72] fix: refuse a model definition with a block length that
 is not a number

---
 sunspec/core/device.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 7e7fcc6..a2c6d17 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1181,6 +1181,7 @@ class BlockType(object):
         self.len = element.attrib.get(smdx.SMDX_ATTR_LEN)
         if self.len is None:
             raise SunSpecError('Block len error')
+        self.len = int(self.len)
         self.name = element.attrib.get(smdx.SMDX_ATTR_NAME)
         if self.name is None:
             self.name = self.type
-- 
2.43.0


From 87b938c2205ccb07ba71cc427706dec5c1b69680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 52/72] fix: report a data record attribute that is not a
 number as a data error

---
 sunspec/core/data.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 2153ea6..0a8c71e 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -60,6 +60,16 @@ SDX_POINT_TIME = 't'
 class SunSpecDataError(Exception):
     pass
 
+def attr_int(element, name):
+
+    value = element.attrib.get(name)
+    if value is not None:
+        try:
+            value = int(value)
+        except ValueError:
+            raise SunSpecDataError("Attribute '{}' of '{}' element is not a number: {}".format(name, element.tag, value))
+    return value
+
 class SunSpecData(object):
 
     def device_add(self, logger_id=None, man=None, mod=None, sn=None, timestamp=None, cid=None, device_id=None, ifc=None, namespace=None):
@@ -229,10 +239,7 @@ class ModelData(object):
 
         self.model_id = element.attrib.get(SDX_MODEL_ID)
         self.namespace = element.attrib.get(SDX_MODEL_NAMESPACE)
-        index = element.attrib.get(SDX_MODEL_INDEX)
-        if index is not None:
-            index = int(index)
-        self.index = index
+        self.index = attr_int(element, SDX_MODEL_INDEX)
         for p in element.findall('*'):
             if p.tag != SDX_POINT:
                 raise SunSpecDataError("Unexpected '{}' element in '{}' element".format(p.tag, element.tag))
@@ -269,14 +276,8 @@ class PointData(object):
     def from_xml(self, element):
 
         self.point_id = element.attrib.get(SDX_POINT_ID)
-        index = element.attrib.get(SDX_POINT_INDEX)
-        if index is not None:
-            index = int(index)
-        self.index = index
-        sf = element.attrib.get(SDX_POINT_SF)
-        if sf is not None:
-            sf = int(sf)
-        self.sf = sf
+        self.index = attr_int(element, SDX_POINT_INDEX)
+        self.sf = attr_int(element, SDX_POINT_SF)
         # self.units = element.attrib.get(SDX_POINT_UNITS)
         # self.desc = element.attrib.get(SDX_POINT_DESC)
         self.time = element.attrib.get(SDX_POINT_TIME)
-- 
2.43.0


From 0880e0cfaf02f4cd8af8657d8f66c22e257d7fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 53/72] fix: report a data record in an unknown encoding as a
 data error

---
 sunspec/core/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 0a8c71e..8a240f4 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -81,7 +81,11 @@ class SunSpecData(object):
     def from_xml(self, element=None, data_record=None):
 
         if data_record is not None:
-            self.root = ET.fromstring(data_record)
+            try:
+                self.root = ET.fromstring(data_record)
+            except (LookupError, ValueError) as e:
+                # unknown or unsupported encoding
+                raise SunSpecDataError('Error parsing data record: %s' % (str(e)))
         elif element is not None:
             self.root = element
 
-- 
2.43.0


From 0346e83c1aa21e9bbe4f0b5a99d334d0ef10880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 54/72] fix: refuse a definition file without a model

---
 sunspec/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index a2c6d17..070bc3d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1045,6 +1045,9 @@ class ModelType(object):
             else:
                 raise SunSpecError('Unexpected smdx element: %s' % m.tag)
 
+        if self.len is None:
+            raise SunSpecError('No model definition')
+
         for s in element.findall(smdx.SMDX_STRINGS):
             if s.attrib.get(smdx.SMDX_ATTR_ID) == str(self.id):
                 m = s.find(smdx.SMDX_MODEL)
-- 
2.43.0


From 9aa07966c1f4a644dd59f342dd1d5d4ab2d049fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 55/72] fix: skip the verification of the TLS server
 certificate where asked to

---
 sunspec/core/modbus/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 49cc870..0dcc521 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -743,6 +743,8 @@ class ModbusClientDeviceTCP(object):
                 context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
                 context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
                 context.check_hostname = self.tls_verify
+                if not self.tls_verify:
+                    context.verify_mode = ssl.CERT_NONE
 
                 self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
 
-- 
2.43.0


From 3d2d5b15655da9748d8e3cf28bc6868c580c0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 56/72] fix: suns: print a device with models that have no
 definition

---
 scripts/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 146e403..329c687 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -88,7 +88,7 @@ if __name__ == "__main__":
         sd.read()
 
         for model in sd.device.models_list:
-            if model.model_type.label:
+            if model.model_type is not None and model.model_type.label:
                 label = '%s (%s)' % (model.model_type.label, str(model.id))
             else:
                 label = '(%s)' % (str(model.id))
-- 
2.43.0


From 48d74386208b22d91e24d7c1898d13dfc69d2aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 57/72] fix: suns: report a device that cannot be read

---
 scripts/suns.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 329c687..35edae3 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -85,7 +85,11 @@ if __name__ == "__main__":
         print( '\nTimestamp: %s' % (time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime())))
 
         # read all models in the device
-        sd.read()
+        try:
+            sd.read()
+        except client.SunSpecClientError as e:
+            print('Error: %s' % (e))
+            sys.exit(1)
 
         for model in sd.device.models_list:
             if model.model_type is not None and model.model_type.label:
-- 
2.43.0


From 7555a4bd756132f97e6b1a872d74a3074d20fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 58/72] fix: do not print a map when a read of it fails

---
 sunspec/core/modbus/mbmap.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 7d77e41..ce34006 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -399,7 +399,6 @@ class ModbusMap(object):
 
         # must have all requested data for success
         if len(data) != int(count) * 2:
-            print(self)
             raise ModbusMapError('Data read error - addr = %d  data len = %d  count = %d' % (addr, len(data), count))
 
         return data
-- 
2.43.0


From 4d30995fb07680e7e080b1c2e1f2d54c3ec98da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 59/72] fix: load a PICS file in the encoding it declares

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 070bc3d..947c2a2 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -150,7 +150,7 @@ class Device(object):
 
                 # try local directory
                 if not pics_data:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     pics_data = f.read()
                     f.close()
 
-- 
2.43.0


From 4e2cbba71466d0120e2758d97c4b33255abbc8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 60/72] fix: load a model definition file in the encoding it
 declares

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 947c2a2..d80dbd6 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -926,7 +926,7 @@ def model_type_get(model_id):
 
             if os.path.exists(filename):
                 try:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     smdx_data = f.read()
                     f.close()
                 except Exception as e:
-- 
2.43.0


From f5b2fb532a712e9f96d4d014e1784c6c02fd719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 61/72] fix: load a map file in the encoding it declares

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index ce34006..eb40cb6 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -173,7 +173,7 @@ class ModbusMap(object):
                 if pathlist is not None:
                     map_data = pathlist.read(filename)
                 else:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     map_data = f.read()
                     f.close()
 
-- 
2.43.0


From 5c0d9ddead736b64a70d2ca8380ce2b165e02630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 62/72] fix: report a register address beyond 65535 as a Modbus
 client error

---
 sunspec/core/modbus/client.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 0dcc521..624f3a8 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -58,6 +58,12 @@ class ModbusClientTimeout(ModbusClientError):
 class ModbusClientException(ModbusClientError):
     pass
 
+def check_addr(addr):
+
+    # a device may report models that would not fit its register space
+    if not 0 <= int(addr) <= 0xffff:
+        raise ModbusClientError('Modbus address out of range: %s' % (addr))
+
 def modbus_rtu_client(name=None, baudrate=None, parity=None):
 
     global modbus_rtu_clients
@@ -235,6 +241,7 @@ class ModbusClientRTU(object):
         len_found = False
         except_code = None
 
+        check_addr(addr)
         req = struct.pack('>BBHH', int(slave_id), op, int(addr), int(count))
         req += struct.pack('>H', computeCRC(req))
 
@@ -355,6 +362,7 @@ class ModbusClientRTU(object):
         len_data = len(data)
         count = int(len_data/2)
 
+        check_addr(addr)
         req = struct.pack('>BBHHB', int(slave_id), func, int(addr), count, len_data)
         if sys.version_info > (3,):
             if type(data) is not bytes:
@@ -780,6 +788,7 @@ class ModbusClientDeviceTCP(object):
         len_found = False
         except_code = None
 
+        check_addr(addr)
         req = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
 
         if self.trace_func:
@@ -901,6 +910,7 @@ class ModbusClientDeviceTCP(object):
 
         write_len = len(data)
         write_count = int(write_len/2)
+        check_addr(addr)
         req = struct.pack('>HHHBBHHB', 0, 0, TCP_WRITE_MULT_REQ_LEN + write_len, int(self.slave_id), func, int(addr), write_count, write_len)
         if sys.version_info > (3,):
             if type(data) is not bytes:
-- 
2.43.0


From 61b1e88c592374f7ad88dd2d3a4c39ff3ae95e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 63/72] fix: loading a model again does not add its blocks a
 second time

---
 sunspec/core/device.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index d80dbd6..e7e2af7 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -705,8 +705,12 @@ class Model(object):
                 Point class to use to create point instances.
         """
 
+        # a model may be loaded again, for instance once its definition is available
+        self.blocks = []
+        self.load_error = None
+
         last_read_addr = self.addr
-        self.read_blocks.append(last_read_addr)
+        self.read_blocks = [last_read_addr]
 
         self.model_type = model_type_get(self.id)
 
-- 
2.43.0


From f73120beedb681fa2d6c082de54c5a2043acfa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 64/72] fix: let go of a TCP socket that cannot be closed
 properly

---
 sunspec/core/modbus/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 624f3a8..3317593 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -768,9 +768,9 @@ class ModbusClientDeviceTCP(object):
         try:
             if self.socket:
                 self.socket.close()
-            self.socket = None
         except Exception:
             pass
+        self.socket = None
 
     def _recv(self, size):
 
-- 
2.43.0


From e8b292165e9374f2d1f44dab2135dc19fb06d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 65/72] fix: forget a serial port that cannot be closed
 properly

---
 sunspec/core/modbus/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 3317593..feacbae 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -225,8 +225,10 @@ class ModbusClientRTU(object):
 
         # if no more devices using the client interface, close and remove the client
         if len(self.devices) == 0:
-            self.close()
-            modbus_rtu_client_remove(self.name)
+            try:
+                self.close()
+            finally:
+                modbus_rtu_client_remove(self.name)
 
     def _serial_read(self, size):
 
-- 
2.43.0


From 2b6943d37c190a176cf83f930e85024d8a58d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 66/72] fix: report an error closing a device as a client error

---
 sunspec/core/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index acaf72a..a3d2681 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -179,8 +179,11 @@ class ClientDevice(device.Device):
 
     def close(self):
 
-        if self.modbus_device is not None:
-            self.modbus_device.close()
+        try:
+            if self.modbus_device is not None:
+                self.modbus_device.close()
+        except modbus.ModbusClientError as e:
+            raise SunSpecClientError('Modbus close error: %s' % str(e))
 
     def read(self, addr, count):
         """Read Modbus device registers.
-- 
2.43.0


From c63a7d466f613f1f1f1f91cbdaafa520a413a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 67/72] fix: white space of any kind does not count in a map
 hexstr

---
 sunspec/core/modbus/mbmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index eb40cb6..8b6c348 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -259,8 +259,8 @@ class ModbusMap(object):
                     data = struct.pack(str(rlen * 2) + 's', text)
                 elif rtype == MBMAP_REGS_TYPE_HEX_STRING:
                     if text:
-                        # remove any spaces
-                        text = text.replace(' ','')
+                        # remove any spaces and line breaks
+                        text = ''.join(text.split())
                     text_len = len(text)
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
-- 
2.43.0


From 35e9d8ac0ab33bae14cc81ac7e6d11fed9b792b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 68/72] fix: a path that is none does not leave a fresh file
 path list in effect

---
 sunspec/core/device.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index e7e2af7..7e2d1a2 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -47,11 +47,13 @@ file_pathlist = None
 def fresh_file_pathlist(*paths):
     global file_pathlist
 
-    original_pathlist = file_pathlist
-    file_pathlist = util.PathList()
+    pathlist = util.PathList()
 
     for path in paths:
-        file_pathlist.add(fspath(path))
+        pathlist.add(fspath(path))
+
+    original_pathlist = file_pathlist
+    file_pathlist = pathlist
 
     try:
         yield file_pathlist
-- 
2.43.0


From 6d882c7698a434f71ed4d34a8324e058365be9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 69/72] fix: search a directory of a path list that is named
 like a zip file

---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 180bef8..8eba5a2 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -223,7 +223,7 @@ class PathList(object):
                 elif file_path and file_path != sep:
                     file_path += sep
                 file_path += e
-                if e.endswith('.zip'):
+                if e.endswith('.zip') and not zip_file_path and not os.path.isdir(file_path):
                     zip_file_path = file_path
                     if os.path.exists(zip_file_path):
                         file_path = ''
-- 
2.43.0


From 1897e773df33404a268fbeeaade891945cd5d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 70/72] fix: skip a path list entry that is no zip file in
 spite of its name

---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 8eba5a2..5f387b3 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -238,8 +238,8 @@ class PathList(object):
                 file_path += sep
             file_path  += filename
             if zip_file_path:
-                zip_file = zipfile.ZipFile(zip_file_path)
                 try:
+                    zip_file = zipfile.ZipFile(zip_file_path)
                     zip_file.getinfo(file_path)
                 except Exception as e:
                     continue
-- 
2.43.0


From dd09ac2a7f19105304e3962f6da0018787a285a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 71/72] fix: a directory of the name is not a model definition

---
 sunspec/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 7e2d1a2..1123818 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -927,10 +927,10 @@ def model_type_get(model_id):
                 pass
 
         if not smdx_data:
-            if not os.path.exists(filename):
+            if not os.path.isfile(filename):
                 filename = os.path.join(model_type_path_default, filename)
 
-            if os.path.exists(filename):
+            if os.path.isfile(filename):
                 try:
                     f = open(filename, 'rb')
                     smdx_data = f.read()
-- 
2.43.0


From 2ac29e98e21dc0baab21b2e166b11b8f773a4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:05 +0000
Subject: [PATCH 72/72] fix: scale points of blocks listed before the block of
 their scale factor

---
 sunspec/core/device.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 1123818..e08e6e6 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -839,6 +839,12 @@ class Model(object):
             else:
                 raise SunSpecError('Internal block type error')
 
+        # a repeating block may be listed before the fixed block its scale factors are in
+        for block in self.blocks[1:]:
+            for point in block.points_list:
+                if point.sf_point is not None and point.value_base is not None:
+                    point.value_sf = point.sf_point.value_base
+
     def to_pics(self, parent, single_repeating=True):
         """ Adds the model and all elements within the model to the parent
         element. If *single_repeating* is True, only the first repeating block
-- 
2.43.0

