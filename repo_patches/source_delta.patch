From 19ffa6db456560ccfb5581edec1361a22d3d550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:48 +0000
Subject: [PATCH 01/31] fix: reject truncated bencode strings instead of
 looping or returning partial data

---
 dataplicity/m2m/bencode.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 539b031..3e731ca 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -144,6 +144,13 @@ def _decode(read):
             c = read(1)
             if c == b":":
                 break
+            if not c:
+                raise DecodeError("unexpected end of data in size")
             size_bytes += c
         size = int(size_bytes)
-        return read(size)
+        if size < 0:
+            raise DecodeError("negative size")
+        data = read(size)
+        if len(data) != size:
+            raise DecodeError("unexpected end of data in string")
+        return data
-- 
2.43.0


From 3d56e2559503d93e21abd4bf2d0e643b23bf4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 02/31] fix: report every malformed packet as a packet error

bencode.decode may raise ValueError, TypeError, etc. on malformed input, and an empty
list raised IndexError; from_bytes now raises PacketFormatError for all of them.
---
 dataplicity/m2m/packetbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/packetbase.py b/dataplicity/m2m/packetbase.py
index 0afe202..81e943b 100644
--- a/dataplicity/m2m/packetbase.py
+++ b/dataplicity/m2m/packetbase.py
@@ -90,11 +90,14 @@ class PacketBaseType(object):
         """Return a packet from a bytes string."""
         try:
             packet_data = bencode.decode(packet_bytes)
-        except bencode.DecodeError as e:
+        except Exception as e:
+            # Malformed input may also surface as e.g. ValueError, TypeError
             raise PacketFormatError("packet is badly formated ({!r})".format(e))
 
         if not isinstance(packet_data, list):
             raise PacketFormatError("packet must be a list")
+        if not packet_data:
+            raise PacketFormatError("packet is empty")
         packet_type = packet_data[0]
         if not isinstance(packet_type, int_types):
             raise PacketFormatError("first value must be an integer")
-- 
2.43.0


From a8283a08c306b787d90db52a56e017ed8a03819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 03/31] fix: ignore m2m messages that are not packet lists

A byte string such as b'1:\x1d' decoded to bytes whose first item is an int, and was
dispatched as if it were a packet of that type (here: scan_remote_directory).
---
 dataplicity/m2m/wsclient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index db8ac40..2d34e2b 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -340,6 +340,9 @@ class WSClient(threading.Thread):
     def on_packet(self, packet):
         """Called with a binary packet."""
         try:
+            # A packet is always a list: the items of a (byte) string are ints
+            if not isinstance(packet, list):
+                raise ValueError("packet must be a list")
             packet_type = packet[0]
             packet_body = packet[1:]
         except Exception:
-- 
2.43.0


From 5b40f8b923c85d2d1ac88763a3935b4e02817745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 04/31] fix: do not buffer empty channel data

An empty route packet left a channel claiming to have data (and a blocking read
returning nothing) while no byte was buffered.
---
 dataplicity/m2m/wsclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 2d34e2b..3c94a41 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -93,7 +93,7 @@ class Channel(object):
             return
         if self._data_callback is not None:
             self._data_callback(data)
-        else:
+        elif data:
             with self._lock:
                 self.deque.append(data)
                 self._data_event.set()
-- 
2.43.0


From 6a9e7c52e3ead3a3e7e5389cbd82253295caa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:25 +0000
Subject: [PATCH 05/31] fix: forget channels when the connection drops

The closed Channel objects stayed registered, so a channel number used again after a
reconnect denoted the old, closed channel and everything routed to it was ignored.
---
 dataplicity/m2m/wsclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 3c94a41..ffba0e2 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -253,7 +253,10 @@ class WSClient(threading.Thread):
 
     def hard_close_channels(self):
         """Called when all the channels have been abruptly closed."""
-        for channel in self.channels.values():
+        # Forget the channels: a number used again is a new channel
+        channels = list(self.channels.values())
+        self.channels.clear()
+        for channel in channels:
             channel.on_close()
 
     def run(self):
-- 
2.43.0


From f830ca21330e95480c42f713cbb2d076d75f473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:25 +0000
Subject: [PATCH 06/31] fix: invoke each command callback exactly once

Callbacks were kept after a disconnect and invoked again; registering from another
thread could lose a callback, registering from a callback could loop or break the
iteration.
---
 dataplicity/m2m/wsclient.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index ffba0e2..01f500d 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -216,22 +216,24 @@ class WSClient(threading.Thread):
         return self.channels.keys()
 
     def add_callback(self, command_id, callback):
-        self.callbacks[command_id].append(callback)
+        with self.callback_lock:
+            self.callbacks[command_id].append(callback)
 
     def callback(self, command_id, result):
         with self.callback_lock:
-            if command_id in self.callbacks:
-                for callback in self.callbacks[command_id]:
-                    try:
-                        callback(result)
-                    except Exception:
-                        log.exception("error in command callback")
-                del self.callbacks[command_id]
+            # Take the callbacks first, so that each is invoked at most once
+            for callback in self.callbacks.pop(command_id, ()):
+                try:
+                    callback(result)
+                except Exception:
+                    log.exception("error in command callback")
 
     def clear_callbacks(self):
         """Clear all callbacks, because they may be blocking."""
         with self.callback_lock:
-            for command_id, callbacks in self.callbacks.items():
+            pending = list(self.callbacks.values())
+            self.callbacks.clear()
+            for callbacks in pending:
                 for callback in callbacks:
                     try:
                         callback(None)
-- 
2.43.0


From 7957a5a056571e35b6f105dcb67322fba8634d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 07/31] fix: serialize sends to the websocket

Service threads and the receive thread called send_binary concurrently; its compressor
is shared and not thread safe, so compressed messages could be corrupted or leave in
another order than they were compressed in. The existing write_lock was never used.
---
 dataplicity/m2m/wsclient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 01f500d..295610b 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -308,7 +308,9 @@ class WSClient(threading.Thread):
     def send_bytes(self, packet_bytes):
         """Send bytes over the websocket."""
         try:
-            self.websocket.send_binary(packet_bytes)
+            # One at a time: the websocket's compressor is not thread safe
+            with self.write_lock:
+                self.websocket.send_binary(packet_bytes)
         except WebSocketError:
             return False
         else:
-- 
2.43.0


From 59e997a386787099e403c9ea46d8446c95cf4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:06 +0000
Subject: [PATCH 08/31] fix: end a command when its output ends, and close its
 channel if it cannot start

---
 dataplicity/m2m/commandservice.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index b25badd..defed9c 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -60,6 +60,7 @@ class CommandService(threading.Thread):
             except Exception:
                 log.exception("error running %r", self)
                 self.send_error(channel, "error", "error running command")
+                channel.close()
         finally:
             self.limiter.decrement()
 
@@ -101,8 +102,12 @@ class CommandService(threading.Thread):
                         else:
                             chunk = os.read(stderr_fh, CHUNK_SIZE)
                             log.debug("%r [stderr] %r", self, chunk)
-                    if event_mask & error_events:
-                        break
+                    elif event_mask & error_events:
+                        # Hung up, and everything has been read
+                        if _file_descriptor == stdout_fh:
+                            more_data = False
+                            break
+                        poll.unregister(stderr_fh)
                 if channel.is_closed:
                     log.debug("%r channel closed", self)
                     break
-- 
2.43.0


From ce707f9a99fe0b884c5549297b31ac2fed2fca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:00 +0000
Subject: [PATCH 09/31] fix: end a forwarded connection when its socket ends

---
 dataplicity/portforward.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index fbb6996..18de839 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -73,7 +73,8 @@ class Connection(threading.Thread):
 
             log.debug("entered recv loop")
             # Read all the data we can and write it to the channel
-            while not self.close_event.is_set():
+            reading = True
+            while reading and not self.close_event.is_set():
                 # Block for a period of time until the socket becomes readable,
                 # or there is an error
                 try:
@@ -91,6 +92,7 @@ class Connection(threading.Thread):
                             data = self.socket.recv(CHUNK_SIZE)
                         except Exception:
                             log.exception("error in recv")
+                            reading = False
                             break
                         else:
                             if data:
@@ -98,6 +100,7 @@ class Connection(threading.Thread):
                                 bytes_written += len(data)
                             else:
                                 # No data means the socket has been closed
+                                reading = False
                                 break
                     if event_mask & error_events:
                         # Socket has been closed in another thread, possibly due to
-- 
2.43.0


From 53e8932ab46b3d45efbd268ec5f3da2952b22d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:00 +0000
Subject: [PATCH 10/31] fix: a socket error ends only its own forwarded
 connection

---
 dataplicity/portforward.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index 18de839..aa8d476 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -102,10 +102,11 @@ class Connection(threading.Thread):
                                 # No data means the socket has been closed
                                 reading = False
                                 break
-                    if event_mask & error_events:
+                    elif event_mask & error_events:
                         # Socket has been closed in another thread, possibly due to
-                        # m2m channel closing
-                        self.close_event.set()
+                        # m2m channel closing, and everything has been read.
+                        # The close event is shared with all other connections
+                        reading = False
         finally:
 
             speed = bytes_written / 1024.0 / (time() - self._start_time)
-- 
2.43.0


From 1f691be55e874b558065667fbf00aaa7895071c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:00 +0000
Subject: [PATCH 11/31] fix: close the channel of a forwarded connection if no
 time has passed

---
 dataplicity/portforward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index aa8d476..07bf8ee 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -109,7 +109,9 @@ class Connection(threading.Thread):
                         reading = False
         finally:
 
-            speed = bytes_written / 1024.0 / (time() - self._start_time)
+            elapsed = time() - self._start_time
+            # The clock may not have moved
+            speed = bytes_written / 1024.0 / elapsed if elapsed else 0.0
             log.debug("left recv loop (read %s bytes) %0.1fKB/s ", bytes_written, speed)
             # These close methods are a null operation if the objects are
             # already closed
-- 
2.43.0


From 6a75bd265ae895af52fd3f90d260ddbb70481284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:00 +0000
Subject: [PATCH 12/31] fix: write nothing to a forwarded connection after a
 failed write

---
 dataplicity/portforward.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index 07bf8ee..cd33f85 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -199,6 +199,10 @@ class Connection(threading.Thread):
                 try:
                     for chunk in self.read_buffer:
                         self.socket.sendall(chunk)
+                except Exception:
+                    log.exception("error in sendall")
+                    # Some data is lost, nothing may be written after it
+                    self._shutdown_write()
                 finally:
                     del self.read_buffer[:]
 
-- 
2.43.0


From 758de29fe31ab8890abf7e26e568a9faed239853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:00 +0000
Subject: [PATCH 13/31] fix: shut down a forwarded connection whose channel
 closed while it was made

---
 dataplicity/portforward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index cd33f85..f4886d0 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -185,6 +185,9 @@ class Connection(threading.Thread):
             log.debug("connected to %s:%d", *self.host_port)
             self.socket = _socket
             self._flush_buffer()
+            if self.channel.is_closed:
+                # Closed before there was a socket to shut down
+                self._shutdown_write()
             return True
 
     def on_channel_data(self, data):
-- 
2.43.0


From 14a144d049f5a53cf5d0161e380166664dc2faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:32 +0000
Subject: [PATCH 14/31] fix: write buffered data to a forwarded connection
 before a close shuts it down

---
 dataplicity/portforward.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index f4886d0..0e9d428 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -183,11 +183,14 @@ class Connection(threading.Thread):
             return False
         else:
             log.debug("connected to %s:%d", *self.host_port)
-            self.socket = _socket
-            self._flush_buffer()
-            if self.channel.is_closed:
-                # Closed before there was a socket to shut down
-                self._shutdown_write()
+            with self._lock:
+                # A closing channel must not shut down the socket before
+                # the data received so far is written
+                self.socket = _socket
+                self._flush_buffer()
+                if self.channel.is_closed:
+                    # Closed before there was a socket to shut down
+                    self._shutdown_write()
             return True
 
     def on_channel_data(self, data):
-- 
2.43.0


From aad85c9f38e1f60374c5f04aeb4c853dc2043044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 15/31] fix: refuse upload IDs that are not plain file names

---
 dataplicity/remote_directory.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 964e862..9cf130a 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -58,6 +58,19 @@ def validate_path(path):
     return ".." not in path.split(os.sep)
 
 
+def validate_id(id):
+    # type: (Text) -> bool
+    """Check an ID is a plain file name, so that it names a file directly inside a directory.
+
+    Args:
+        id (Text): An upload or download ID.
+
+    Returns:
+        bool: True if the ID is valid, otherwise False
+    """
+    return id not in ("", os.curdir, os.pardir) and os.sep not in id
+
+
 class RemoteDirectory(object):
     """Manages remote directory."""
 
@@ -90,6 +103,8 @@ class RemoteDirectory(object):
         Returns:
             str: A path to the snapshot file.
         """
+        if not validate_id(upload_id):
+            raise IllegalPath("Upload ID %r is illegal" % upload_id)
         try:
             temp_path = self.temp_path
             dir_path = os.path.join(temp_path, "dataplicity_remote")
-- 
2.43.0


From ac11ea78cf777024963cc515e1fcdc680a61ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 16/31] fix: keep pushed files inside the downloads and remote
 directories

---
 dataplicity/remote_directory.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 9cf130a..d39b0ae 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -117,6 +117,12 @@ class RemoteDirectory(object):
             log.warning("unable to get snapshot path; %r", error)
             raise RemoteDirectoryError("Failed to get snapshot path")
 
+    @property
+    def downloads_path(self):
+        # type: () -> Text
+        """The directory downloads are written to."""
+        return os.path.join(self.temp_path, "dataplicity_remote_downloads")
+
     def add_download(self, id):
         # type: (Text) -> Text
         """Add an upload.
@@ -128,8 +134,10 @@ class RemoteDirectory(object):
             [type]: [description]
         """
 
-        temp_path = self.temp_path
-        dir_path = os.path.join(temp_path, "dataplicity_remote_downloads")
+        if not validate_id(id):
+            raise IllegalPath("Download ID %r is illegal" % id)
+
+        dir_path = self.downloads_path
         if not os.path.isdir(dir_path):
             os.mkdir(dir_path)
             log.debug("%r created %s", self, dir_path)
@@ -324,6 +332,11 @@ class RemoteDirectory(object):
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
+            else:
+                # It must be a path allocated by add_download
+                dir_path, download_id = os.path.split(write_device_path)
+                if dir_path != self.downloads_path or not validate_id(download_id):
+                    raise IllegalPath("Path %s is illegal" % write_device_path)
         except Exception as error:
             log.exception("error adding download")
             # Couldn't create temporary location, tell server
@@ -398,6 +411,8 @@ class RemoteDirectory(object):
         """Copy a download in to the remote directory"""
 
         destination_path = os.path.join(self.path, path.decode("utf-8").lstrip("/"))
+        if not validate_path(destination_path):
+            raise IllegalPath("Path %s is illegal" % destination_path)
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
-- 
2.43.0


From d842b65dc1f864683d4581eb1ef3ec9ccfbd3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:45 +0000
Subject: [PATCH 17/31] fix: answer a pushed chunk whose device path is not
 UTF-8

---
 dataplicity/remote_directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index d39b0ae..0589434 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -327,8 +327,8 @@ class RemoteDirectory(object):
     def on_write_remote_file(self, client, id, path, device_path, offset, data, final):
         # type: (WSClient, bytes, bytes, bytes, int, bytes, int) -> None
         """Write data from server to temporary file."""
-        write_device_path = device_path.decode("utf-8")
         try:
+            write_device_path = device_path.decode("utf-8")
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
-- 
2.43.0


From 0e5ec1397f8b410c3147e22b6bf0bbaf8fb812bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 18/31] fix: continue a scan if a directory can not be read to
 its end

---
 dataplicity/scan_directory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index edd4955..8b66c90 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -139,6 +139,11 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
             # End of directory scan, we can discard top of stack
             pop()
             continue
+        except Exception as error:
+            # The rest of this directory can't be read, continue with the others
+            log.warning("error scanning %r; %s", path, error)
+            pop()
+            continue
         if dir_entry.name.startswith("."):
             # Exclude hidden files and directories
             continue
-- 
2.43.0


From 9f231a3a5be14c9a75f738a4420fc6cd27448f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 19/31] fix: list directories which share an inode number with
 one on another device

---
 dataplicity/scan_directory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index 8b66c90..f5cced1 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -111,7 +111,7 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
     push = stack.append
     pop = stack.pop
     directories = {}  # type: Dict[str, DirectoryDict]
-    visited_directories = set()  # type: Set[int]
+    visited_directories = set()  # type: Set[Tuple[int, int]]
 
     def push_directory(path):
         # type: (str) -> None
@@ -162,7 +162,8 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
                 # Max depth reached, so skip this dir
                 continue
             try:
-                inode = dir_entry.inode()
+                # An inode is only unique within its device
+                inode = (dir_entry.stat().st_dev, dir_entry.inode())
             except Exception as error:
                 log.warning("error in inode; %r", error)
             else:
-- 
2.43.0


From a395d6ba857673a0bc1d21e350cc4e62c5406e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:48 +0000
Subject: [PATCH 20/31] fix: replace the published scan only when the new scan
 is complete

---
 dataplicity/directory_scanner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 04282b9..103e2d0 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -2,6 +2,7 @@ from __future__ import print_function, unicode_literals
 
 import json
 import logging
+import os
 import os.path
 import tempfile
 from threading import Lock, Thread
@@ -79,5 +80,9 @@ class DirectoryScanner(object):
         file_path = os.path.join(
             tempfile.gettempdir(), "__dataplicity_remote_directory_scan___.json"
         )
-        with open(file_path, "wb") as scan_file:
+        # Write to another file first, and replace the previous scan when the new scan
+        # is complete, so there is never a partial scan at file_path
+        temp_path = file_path + ".new"
+        with open(temp_path, "wb") as scan_file:
             scan_file.write(scan_json)
+        os.rename(temp_path, file_path)
-- 
2.43.0


From 0de6007d75b6e5c0eb552b6eada67b1cce49bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:41 +0000
Subject: [PATCH 21/31] fix: report malformed JSONRPC responses as protocol
 errors

---
 dataplicity/jsonrpc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 2d96f33..4300e7e 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -207,7 +207,11 @@ class JSONRPC(object):
             log.error("unable to decode %s", repr(response_json)[:100])
             raise InvalidResponseError("unable to decode response as JSON")
 
-        if "jsonrpc" not in response or "id" not in response:
+        if (
+            not isinstance(response, dict)
+            or "jsonrpc" not in response
+            or "id" not in response
+        ):
             raise ProtocolError("Invalid response from server")
 
         if response["jsonrpc"] != "2.0":
@@ -234,6 +238,8 @@ class JSONRPC(object):
         return Batch(self)
 
     def _handle_error(self, method, error):
+        if not isinstance(error, dict):
+            raise ProtocolError("Invalid error in response from server")
         code = error.get("code")
         if code in ErrorCode.to_str:
             raise RemoteError(
-- 
2.43.0


From 33c9ee7da0a70f691fa1648fc5d758c786d69f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 22/31] fix: never give a call of a batch the id of another
 call

---
 dataplicity/jsonrpc.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 4300e7e..fd1e81f 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -101,13 +101,12 @@ class Batch(object):
 
     def call(self, method, **params):
         """Add a call to the batch, using a default id."""
-        call = {
-            "jsonrpc": "2.0",
-            "method": method,
-            "params": params,
-            "id": self.client.new_call_id(),
-        }
+        call_id = self.client.new_call_id()
+        while call_id in self.ids_used:
+            call_id = self.client.new_call_id()
+        call = {"jsonrpc": "2.0", "method": method, "params": params, "id": call_id}
         self.calls.append(call)
+        self.ids_used.add(call_id)
         self.methods[call["id"]] = method
 
     def call_with_id(self, call_id, method, **params):
-- 
2.43.0


From f88f6c9cd5d7d29cf7a9e895ed7e81e7c50058fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 23/31] fix: ignore entries of a batch response which belong to
 no call of the batch

---
 dataplicity/jsonrpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index fd1e81f..0010186 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -134,11 +134,15 @@ class Batch(object):
         if not isinstance(response, list):
             raise ProtocolError("Expected a list of response from the server")
 
+        response = [r for r in response if isinstance(r, dict)]
         self.responses = [
             (r.get("error", None), r.get("result", None)) for r in response
         ]
+        # Entries which don't belong to a call of this batch are ignored
+        call_ids = [call["id"] for call in self.calls if "id" in call]
+        response = [r for r in response if r.get("id") in call_ids]
         self.errors = {r["id"]: r["error"] for r in response if "error" in r}
-        self.results = {r["id"]: r for r in response if "id" in r and "error" not in r}
+        self.results = {r["id"]: r for r in response if "error" not in r}
 
     def get_result(self, call_id, default=Ellipsis):
         """Get a result from the batch, potentially raising rpc errors."""
-- 
2.43.0


From 59dd835a19a5ba6c113984f4ae9961a09868ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 24/31] fix: do not swallow an interrupt or a system exit while
 getting the meta

---
 dataplicity/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/client.py b/dataplicity/client.py
index d5ace6a..289373a 100644
--- a/dataplicity/client.py
+++ b/dataplicity/client.py
@@ -254,7 +254,7 @@ class Client(object):
         try:
             meta = device_meta.get_meta()
             log.debug("syncing meta %r", meta)
-        except:
+        except Exception:
             log.exception("error getting meta")
         else:
             batch.call_with_id(
-- 
2.43.0


From c4586ea8c1b4030c42f36855a39713aa5362a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 25/31] fix: read all output of a remote process before
 stopping at the hang up

---
 dataplicity/m2m/proxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index dc6646f..2c19a54 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -148,7 +148,10 @@ class Interceptor(object):
                 if event_mask & readable_events:
                     data = os.read(master_fd, 1024 * 1024)
                     self.master_read(data)
-                if event_mask & error_events:
+                else:
+                    data = b""
+                if not data and event_mask & error_events:
+                    # Hung up, and there is nothing left to read
                     reading = False
                     break
 
-- 
2.43.0


From f00bfe73a3b2791850a6e65a2eaa289d827bda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 26/31] fix: give the first caller of get_meta a copy of the
 cached meta too

---
 dataplicity/device_meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/device_meta.py b/dataplicity/device_meta.py
index 9a6e121..9c2da07 100644
--- a/dataplicity/device_meta.py
+++ b/dataplicity/device_meta.py
@@ -29,7 +29,7 @@ def get_meta():
     meta["uname"] = get_uname()
     meta["ip_list"] = get_ip_address_list()
     _META_CACHE = meta
-    return meta
+    return meta.copy()
 
 
 def get_uname():
-- 
2.43.0


From de3b89bf939ce9a3f1972620793d66b1128736e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 27/31] fix: report an invalid log level instead of raising
 KeyError

---
 dataplicity/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/app.py b/dataplicity/app.py
index 13066b6..f3d0fdc 100644
--- a/dataplicity/app.py
+++ b/dataplicity/app.py
@@ -123,7 +123,7 @@ class App(object):
         log_level = "CRITICAL" if self.args.quiet else self.args.log_level.upper()
         try:
             log_level_no = _logging_level_names[log_level]
-        except IndexError:
+        except KeyError:
             self.error("invalid log level")
 
         if self.args.log_file:
-- 
2.43.0


From b964fc9adf2e86c4cd3602828db3b02ff33726ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 28/31] fix: keep the input of a remote process until the
 process has started

---
 dataplicity/m2m/remoteprocess.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index f35e02a..9aa5718 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -9,7 +9,7 @@ import os
 import signal
 import shlex
 import time
-from threading import Thread
+from threading import Lock, Thread
 
 from . import proxy
 
@@ -78,6 +78,9 @@ class RemoteProcess(proxy.Interceptor):
         self.channel = channel
         self.size = size
         self._closed = False
+        self._lock = Lock()
+        # Input received before the process has started, or None from then on
+        self._pending_input = []
         self.channel.set_callbacks(
             on_data=self.on_data, on_close=self.on_close, on_control=self.on_control
         )
@@ -97,9 +100,31 @@ class RemoteProcess(proxy.Interceptor):
         try:
             self.spawn(shlex.split(self.command))
         finally:
+            self._pending_input = None
             self.limiter.decrement()
 
+    def _init_fd(self):
+        super(RemoteProcess, self)._init_fd()
+        self._write_pending_input()
+
+    def _write_pending_input(self):
+        """Write the input which was received before the process started."""
+        while True:
+            with self._lock:
+                if not self._pending_input:
+                    self._pending_input = None
+                    break
+                data = self._pending_input.pop(0)
+            try:
+                self.stdin_read(data)
+            except Exception:
+                self.channel.close()
+
     def on_data(self, data):
+        with self._lock:
+            if self._pending_input is not None:
+                self._pending_input.append(data)
+                return
         try:
             self.stdin_read(data)
         except Exception:
-- 
2.43.0


From 6f04197253b6b6eeb0a2c18dd7d4e3aa0a2e7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 29/31] fix: hang up a remote process whose channel was closed
 while it was starting

---
 dataplicity/m2m/remoteprocess.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 9aa5718..99cb9c5 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -78,6 +78,7 @@ class RemoteProcess(proxy.Interceptor):
         self.channel = channel
         self.size = size
         self._closed = False
+        self._started = False
         self._lock = Lock()
         # Input received before the process has started, or None from then on
         self._pending_input = []
@@ -104,6 +105,12 @@ class RemoteProcess(proxy.Interceptor):
             self.limiter.decrement()
 
     def _init_fd(self):
+        with self._lock:
+            self._started = True
+            closed = self._closed
+        if closed:
+            # The channel was closed while the process was starting
+            self._hang_up()
         super(RemoteProcess, self)._init_fd()
         self._write_pending_input()
 
@@ -155,15 +162,21 @@ class RemoteProcess(proxy.Interceptor):
         super(RemoteProcess, self).write_master(data)
 
     def close(self):
-        if not self._closed and self.pid is not None:
-            log.debug("sending SIGHUP to %r", self)
-            os.kill(self.pid, signal.SIGHUP)
-            try:
-                wait_thread = PidWaitThread(self.command, self.pid)
-                wait_thread.start()
-            except Exception as error:
-                log.warning("pid wait thread failed to launch; %s", error)
-        self._closed = True
+        with self._lock:
+            hang_up = self._started and not self._closed
+            self._closed = True
+        if hang_up:
+            self._hang_up()
+
+    def _hang_up(self):
+        """Tell the process to exit, and wait for it."""
+        log.debug("sending SIGHUP to %r", self)
+        os.kill(self.pid, signal.SIGHUP)
+        try:
+            wait_thread = PidWaitThread(self.command, self.pid)
+            wait_thread.start()
+        except Exception as error:
+            log.warning("pid wait thread failed to launch; %s", error)
 
     def __enter__(self):
         return self
-- 
2.43.0


From e913af292d84e75a7da98d0f6e277735c3b28f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:48 +0000
Subject: [PATCH 30/31] fix: switch group before user when launching a terminal

setgid() is not permitted once setuid() has given up root, so a terminal
with both a user and a group was never started.
---
 dataplicity/m2m/proxy.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 2c19a54..12b0b3b 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -65,16 +65,6 @@ class Interceptor(object):
         self.master_fd = master_fd
         self.pid = pid
         if pid == pty.CHILD:
-            if self.user is not None:
-                try:
-                    uid = pwd.getpwnam(self.user).pw_uid
-                except KeyError:
-                    log.error("No such user: %s", self.user)
-                else:
-                    os.setuid(uid)
-                    log.debug(
-                        "switched user for remote process to %s(%s)", self.user, uid
-                    )
             if self.group is not None:
                 try:
                     gid = grp.getgrnam(self.group).gr_gid
@@ -85,6 +75,16 @@ class Interceptor(object):
                     log.debug(
                         "switched group for remote process to %s(%s)", self.group, gid
                     )
+            if self.user is not None:
+                try:
+                    uid = pwd.getpwnam(self.user).pw_uid
+                except KeyError:
+                    log.error("No such user: %s", self.user)
+                else:
+                    os.setuid(uid)
+                    log.debug(
+                        "switched user for remote process to %s(%s)", self.user, uid
+                    )
             if not argv:
                 argv = [os.environ["SHELL"]]
             os.execlp(argv[0], *argv)
-- 
2.43.0


From 5c428cbe5bf86a3dcb582c65af9aaa15e952c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:48 +0000
Subject: [PATCH 31/31] fix: treat a dangling symbolic link as a taken name for
 a pushed file

The link was replaced or, across file systems, the data was written to
the file it points to.
---
 dataplicity/remote_directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 0589434..bcb7099 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -423,7 +423,7 @@ class RemoteDirectory(object):
         # N starts at 1 and will increase until it finds a free filename
 
         tries = 0
-        while os.path.exists(destination_path):
+        while os.path.lexists(destination_path):
             tries += 1
             if tries > 100:
                 raise TooManyCopies(
-- 
2.43.0

