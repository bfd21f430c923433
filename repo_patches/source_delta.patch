From 74f2ef5cfe40b0ac8be3f13a728e99053f159399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 01/29] fix: reject pkt-line headers with non-hex digits

The digit ranges used when parsing a pkt-line header are inclusive, so
':' and 'g' were accepted as if they were the digits 10 and 16.  This
accepts malformed headers, and for headers such as "fffg" the sum
overflows.  Accept only lowercase hexadecimal digits.
---
 scutiger-core/src/pktline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..554016e 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -109,8 +109,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'...b'9' => x - b'0',
+                    b'a'...b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From 11e42bbbd9a2c16db73c57dbd677fcff3f029b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 02/29] fix: reject oversize packets when reading packets

Reading packet data as a stream rejects packets larger than the maximum
pkt-line size, but reading whole packets did not.  Make them agree.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 554016e..49300da 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
-- 
2.43.0


From 2cf7dfd36a2b3ede65ab891645e31e10fc40761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 03/29] fix: don't consume packets when reading into an empty
 buffer

Reading into an empty buffer when nothing was buffered read the next
packet.  If that was a flush or delimiter packet, it was lost, and later
reads continued past the end of the data.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 49300da..7bb4bdf 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -129,6 +129,9 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
-- 
2.43.0


From 63b79a121421d02f9b4d23990e0baa82397f9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 04/29] fix: don't write packets which are too large

Writing a single packet with more data than fits into a packet produced
an invalid header and corrupted the stream.  Return an error instead.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 7bb4bdf..0a98e54 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -180,6 +180,9 @@ impl<W: io::Write> Writer<W> {
     }
 
     fn write_one(writer: &mut W, buf: &[u8]) -> Result<usize, Error> {
+        if buf.len() > Self::MAX_PACKET_LEN {
+            return Err(Error::new_simple(ErrorKind::InvalidPacket));
+        }
         let header = format!("{:04x}", buf.len() + 4);
         writer.write_all(header.as_bytes())?;
         writer.write_all(buf)?;
-- 
2.43.0


From 51701086dd9c4bf2c8080789eb29b8f6d8850e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 05/29] fix: send one response for each request

When a request was rejected before all of it had been read, the rest of
the request, including any object data, was interpreted as further
requests, each with its own response.  The client then saw responses to
later requests which belonged to earlier ones, and data could be run as
commands.  Skip the rest of a request before responding to it, and give
up if we can no longer tell where it ends.
---
 scutiger-core/src/pktline.rs  | 30 ++++++++++++++++++++++++++++++
 scutiger-lfs/src/processor.rs |  8 ++++++++
 2 files changed, 38 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 0a98e54..4b285f6 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -55,6 +55,8 @@ pub struct Reader<R: io::Read> {
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    /// The type of the last packet read, or `None` if reading it failed.
+    last: Option<PacketType>,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,6 +68,7 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            last: Some(PacketType::Flush),
         }
     }
 
@@ -88,6 +91,32 @@ impl<R: io::Read> Reader<R> {
     }
 
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
+        self.last = None;
+        let pkt = self.read_whole_packet()?;
+        self.last = Some(pkt.packet_type());
+        Ok(pkt)
+    }
+
+    /// Skips any remaining packets up to and including the next flush packet.
+    ///
+    /// Does nothing if the last packet read was a flush packet. If the last packet could not be
+    /// read, there's no way to tell where the next packet starts, so returns an error.
+    pub fn skip_to_flush(&mut self) -> Result<(), Error> {
+        self.off = 0;
+        self.len = 0;
+        while self.last != Some(PacketType::Flush) {
+            if self.last.is_none() {
+                return Err(Error::from_message(
+                    ErrorKind::MissingData,
+                    "request could not be read",
+                ));
+            }
+            self.read_packet()?;
+        }
+        Ok(())
+    }
+
+    fn read_whole_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
         self.rdr.read_exact(&mut hdr)?;
         let size = Self::parse_header(hdr)? as usize;
@@ -149,6 +178,7 @@ impl<R: io::Read> io::Read for Reader<R> {
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
+            self.last = r.as_ref().ok().cloned();
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
                 (Ok(PacketType::Flush), _) => return Ok(0),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..68be4fc 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -665,7 +665,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             };
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
+                    let skipped = self.handler.rdr.skip_to_flush();
                     self.handler.send_error(400, "no command provided")?;
+                    skipped?;
                     continue;
                 }
                 Some(bs) => {
@@ -677,7 +679,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     bs.split(|&b| b == b' ').collect()
                 }
                 None => {
+                    let skipped = self.handler.rdr.skip_to_flush();
                     self.handler.send_error(400, "unknown command")?;
+                    skipped?;
                     continue;
                 }
             };
@@ -702,6 +706,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
                 (_, _, _) => self.error(400, "unknown command"),
             };
+            // If we rejected this request without reading all of it, skip the rest of it so we don't
+            // treat it as further requests.
+            let skipped = self.handler.rdr.skip_to_flush();
             match resp {
                 Ok(st) => self.handler.send_status(st),
                 Err(e) => match e.kind() {
@@ -724,6 +731,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     )),
                 },
             }?;
+            skipped?;
         }
     }
 }
-- 
2.43.0


From 677aec06588c41aaa4e85734888b19594b80894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 06/29] fix: don't execute incomplete requests

If the connection was closed in the middle of a request, the packets
received so far were treated as a complete request, so, for example, an
unlock request without its terminating flush packet was executed.  In
addition, when expecting a delimiter packet, a flush packet was treated
as an empty argument, and the following requests were swallowed as
arguments.  Reject requests which end too early in both cases.
---
 scutiger-lfs/src/processor.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 68be4fc..c0fd7c9 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,18 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut items = vec![];
+        loop {
+            let pkt = self.rdr.read_packet()?;
+            match pkt.packet_type() {
+                t if t == typ => return Ok(items),
+                // A flush packet always ends the request.
+                pktline::PacketType::Flush => {
+                    return Err(Error::new_simple(ErrorKind::UnexpectedPacket))
+                }
+                _ => items.push(pkt.data().unwrap_or(b"").into()),
+            }
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
@@ -493,6 +497,8 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 format!("expected oid {}, got {}", oid, actual_oid),
             ));
         }
+        // Don't store anything unless we've received the whole request.
+        self.handler.rdr.skip_to_flush()?;
         self.backend.finish_upload(state)?;
         Ok(Status::success())
     }
-- 
2.43.0


From 2218210de395050342b153be3bd173ea7937db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 07/29] fix: retry when a conflicting lock goes away

If creating a lock failed due to a conflict, but the conflicting lock was
gone when we tried to read it, we intended to try again once, but instead
left the loop and panicked.  Do try again, and report an error if that
doesn't work.
---
 scutiger-lfs/src/processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index c0fd7c9..aef5f44 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -545,15 +545,16 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         };
         let lock_backend = self.backend.lock_backend();
         let mut retried = false;
-        while !retried {
+        loop {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
-                    Ok(None) => {
+                    Ok(None) if !retried => {
                         retried = true;
                         continue;
                     }
+                    Ok(None) => return Err(e),
                     Err(e) => return Err(e),
                 },
                 Err(e) => return Err(e),
@@ -568,7 +569,6 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From abd094fc6e7891f7a95e6de0815b380f3830629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 08/29] fix: don't share temporary files between attempts to
 lock a path

All attempts to lock a path used the same temporary file.  An attempt
which found the file existing removed it on its way out, although it
belonged to another process, which then failed as well, or which
persisted a file being written by a third process.  Similarly, a file
left over by a process which was killed looked like a conflicting lock.
Use a separate temporary file for every attempt.
---
 scutiger-lfs/src/backend/local.rs | 42 +++++++++++--------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..6c54cca 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -149,40 +149,34 @@ impl<'a> Backend for LocalBackend<'a> {
 
 struct LockFile {
     path: PathBuf,
-    temp: PathBuf,
+    temp: NamedTempFile,
 }
 
 impl LockFile {
-    fn new(path: &Path) -> Result<LockFile, Error> {
-        let mut temp = path.to_owned();
-        temp.set_extension("lock");
+    fn new(path: &Path, dir: &Path) -> Result<LockFile, Error> {
+        // Each attempt uses its own temporary file, so that it cannot interfere with any other
+        // attempt to create the same lock, including one which was interrupted.
+        let temp = Builder::new().suffix(".lock").make_in(dir, |temp| {
+            fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(temp)
+        })?;
         Ok(LockFile {
             path: path.to_owned(),
             temp,
         })
     }
 
-    fn write(&self, data: &[u8]) -> Result<(), Error> {
-        let mut f = match fs::OpenOptions::new()
-            .write(true)
-            .create_new(true)
-            .open(&self.temp)
-        {
-            Ok(f) => f,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                return Err(Error::new_simple(ErrorKind::Conflict))
-            }
-            Err(e) => return Err(e.into()),
-        };
+    fn write(&mut self, data: &[u8]) -> Result<(), Error> {
+        let f = self.temp.as_file_mut();
         f.write_all(data)?;
         f.flush()?;
-        drop(f);
         Ok(())
     }
 
-    #[allow(unused_must_use)]
     fn persist(self) -> Result<(), Error> {
-        match fs::hard_link(&self.temp, &self.path) {
+        match fs::hard_link(self.temp.path(), &self.path) {
             Ok(()) => Ok(()),
             Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
                 Err(Error::new_simple(ErrorKind::Conflict))
@@ -192,14 +186,6 @@ impl LockFile {
     }
 }
 
-impl Drop for LockFile {
-    #[allow(unused_must_use)]
-    fn drop(&mut self) {
-        // We don't care if the file removal failed.  We did the best we could.
-        fs::remove_file(&self.temp);
-    }
-}
-
 struct LocalBackendLock {
     root: PathBuf,
     path_name: Bytes,
@@ -333,7 +319,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
-        let lock = LockFile::new(&filename)?;
+        let mut lock = LockFile::new(&filename, &self.lock_path)?;
         lock.write(&b)?;
         lock.persist()?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
-- 
2.43.0


From 35b236b102765af29a290494d77ffb9674596397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 09/29] fix: don't look up lock IDs which are not valid

The ID provided by the client to unlock a path was used as a file name
without any checks, so the client could have us try to read any file on
the system by using an absolute path or "..".  In addition, when listing
locks, temporary files were treated as locks as well.  Only treat valid
IDs as locks.
---
 scutiger-lfs/src/backend/local.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 6c54cca..8ba103f 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -349,6 +349,11 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        // Like LFS objects, locks are named after a SHA-256 hash. Anything else isn't a lock and must
+        // not be used as a path.
+        if !Oid::valid(id.as_bytes()) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-- 
2.43.0


From 257ea6e7e66e81281a19dbe562361ff787cb16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 10/29] fix: use a single timestamp when creating a lock

The current time was read twice, once to store it in the lock and once
to report it to the client, so they could differ.
---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 8ba103f..c7521fe 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -315,7 +315,8 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
@@ -326,7 +327,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
-- 
2.43.0


From 4f8ac61080a541053f57a0b0f85b4448be10e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 11/29] fix: treat locks with unrepresentable times as corrupt

A lock file containing a time which cannot be represented caused a panic
when formatting that time, so a single such file made it impossible to
list any locks.  Treat it as we do other corrupt lock files.
---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index c7521fe..508e64e 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -211,6 +211,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // Make sure we can represent this time.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From 58a260c6315e4280dfa9d6e6a2f8d965c42b8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 12/29] fix: set the permissions of objects before moving them
 into place

Objects were moved into place with the restrictive permissions of a
temporary file, which were adjusted only afterwards.  If we were
interrupted in between, the object could never be read by other users of
a shared repository, and since it existed, it would not be uploaded
again.
---
 scutiger-lfs/src/backend/local.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 508e64e..c12c1e5 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -94,14 +94,12 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        state
-            .tempfile
-            .take()
-            .unwrap()
-            .into_temp_path()
+        let temp_path = state.tempfile.take().unwrap().into_temp_path();
+        // Do this first so that the object never exists with the wrong permissions.
+        self.fix_permissions(&temp_path)?;
+        temp_path
             .persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
-        self.fix_permissions(&dest_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 4019fe13b051a7a36c4887c00c92888961e2a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 13/29] fix: don't list more locks than requested

We look up one lock more than requested to find out whether there are
more locks, but we also sent that one to the client, exceeding the limit
and repeating the lock at the beginning of the next page.
---
 scutiger-lfs/src/processor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index aef5f44..01273c6 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -620,8 +620,11 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From 0cfad65e6d42b8e37a7e0149c9dabb6531c84e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 14/29] fix: reject paths too long to be listed when locking

A lock on a path which almost fills a packet could be created, but its
path didn't fit into a single packet when listing locks and was split
into two packets, corrupting the response.  Reject such paths.
---
 scutiger-lfs/src/processor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 01273c6..d1f4b99 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -526,6 +526,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         Ok(Status::new_reader(args, rdr))
     }
 
+    /// The longest path which can be locked.
+    ///
+    /// When listing locks, the path is sent in a single packet together with the text "path ", the
+    /// lock ID, a space, and a newline.
+    const MAX_LOCK_PATH_LEN: usize = 65516 - 71;
+
     fn lock(&mut self) -> Result<Status, Error> {
         let data = match self.handler.read_to_flush() {
             Ok(v) => v,
@@ -543,6 +549,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             }
         };
+        if path.len() > Self::MAX_LOCK_PATH_LEN {
+            return Err(Error::from_message(
+                ErrorKind::NotAllowed,
+                "path is too long",
+            ));
+        }
         let lock_backend = self.backend.lock_backend();
         let mut retried = false;
         loop {
-- 
2.43.0


From 69bf6e6e9669342b8492e800ec6a4077ca765764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 15/29] fix: search only the commit summary with --summary

To search only the commit summary, we prefixed the pattern.  This didn't
work for patterns with a top-level alternative or which can match a
newline, which could match in the body, and neither did it for patterns
anchored to the end of the summary.  Match the pattern against the
summary itself instead.
---
 scutiger-bin/src/bin/git-at.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..7f7fe37 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -64,8 +64,8 @@ impl<'a> Program<'a> {
     /// one occurred. If the Error is due to no revision matching, the kind of the error will be
     /// `ErrorKind::NoSuchRevision`.
     fn run(&self) -> Result<Oid, Error> {
-        let regex = self.pattern(self.text)?;
-        let fixup_regex = self.pattern("\\A\\s*(?:fixup|squash)!")?;
+        let regex = Regex::new(self.text)?;
+        let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
         let head = self.repo.revparse_single(self.head)?;
         let mut walker = self.repo.revwalk()?;
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
@@ -76,7 +76,7 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            if regex.is_match(self.searched_text(message))? {
                 return Ok(commit.id());
             }
         }
@@ -117,11 +117,12 @@ impl<'a> Program<'a> {
         }
     }
 
-    fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
-        if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
+    /// The part of the commit message which is matched against the pattern.
+    fn searched_text<'m>(&self, message: &'m [u8]) -> &'m [u8] {
+        match message.iter().position(|&b| b == b'\n') {
+            Some(end) if self.summary => &message[..end],
+            _ => message,
         }
-        Ok(Regex::new(pattern)?)
     }
 }
 
-- 
2.43.0


From a9fa51af18cac944a4102e7dd7c3f72eb750a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 16/29] fix: honour octal modes in core.sharedRepository

Every number is a valid Boolean, so any octal mode was treated as "true",
which means "group".  For example, with 0600 objects were accessible to
the group, and with 0640 they were writable by it.  Look for a mode
first.
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..6e890cb 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -98,13 +98,17 @@ impl<'p> Program<'p> {
         let config = self.repo.config()?;
         let sval = config.get_string("core.sharedrepository");
         let tval = sval.as_ref().map(|s| s.as_str());
+        // Since any number is a valid Boolean, look for a mode first.  As in Git, 0, 1, and 2 are not
+        // modes.
+        let mode = tval
+            .ok()
+            .and_then(|x| u16::from_str_radix(x, 8).ok())
+            .filter(|&mode| mode > 2);
         let perms = match (config.get_bool("core.sharedrepository"), tval) {
+            (_, Ok(_)) if mode.is_some() => mode,
             (Ok(true), _) | (_, Ok("group")) => Some(0o660),
             (Ok(false), _) | (_, Ok("umask")) => None,
             (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
-            }
             (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
             (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
-- 
2.43.0


From fb8ef5ad156ec9e0144b02e740b11b0d8ff04b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 17/29] fix: list references checked out before a deleted one

With --sort=visitdate, we stopped at the first entry which could not be
found, so if a branch had been deleted, nothing visited earlier was
listed.  Determine how often HEAD changed and skip entries which no
longer exist instead.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..bd7cb2f 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -17,7 +17,7 @@ mod pager;
 pub mod fixtures;
 
 use clap::{App, AppSettings, Arg, ArgMatches};
-use git2::{Object, Reference, Repository, Time};
+use git2::{Object, Reference, ReflogEntry, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
@@ -52,6 +52,13 @@ impl<'p> Program<'p> {
         }
     }
 
+    fn is_checkout(entry: &ReflogEntry) -> bool {
+        match entry.message_bytes() {
+            Some(message) => message.starts_with(b"checkout: moving from "),
+            None => false,
+        }
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -73,15 +80,18 @@ impl<'p> Program<'p> {
         match self.kind {
             SortKind::Visited => {
                 let chain: Vec<String> = vec!["HEAD".to_string()];
-                let range = 1..;
+                let checkouts = match repo.reflog("HEAD") {
+                    Ok(log) => log.iter().filter(Self::is_checkout).count(),
+                    Err(_) => 0,
+                };
+                let range = 1..=checkouts;
                 let iter = chain
                     .into_iter()
                     .chain(range.map(|i| format!("@{{-{}}}", i)));
-                Ok(Box::new(
-                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
-                        .take_while(Option::is_some)
-                        .map(Option::unwrap),
-                ))
+                // Some of these may no longer exist.
+                Ok(Box::new(iter.filter_map(move |rev| {
+                    Self::stringify(repo.revparse_ext(&rev).ok())
+                })))
             }
             SortKind::Committed => {
                 let mut refs: Vec<_> = repo
-- 
2.43.0


From 2973a581551f666b46c62e2021f26647db028b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 18/29] fix: wait for the pager to exit

Exiting while the pager is still running leaves it fighting with the
shell over the terminal.  As Git does, close its input and wait for it.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 4 +++-
 scutiger-bin/src/bin/pager/mod.rs       | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index bd7cb2f..1fc279f 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -197,7 +197,9 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let status = prog.main(&mut pager.stdout(), &mut io::stderr());
+    pager.wait();
+    process::exit(status);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..0652406 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -52,4 +52,12 @@ impl Pager {
             })
             .unwrap_or_else(|| Box::new(io::stdout()))
     }
+
+    /// Closes the pager's input and waits for it to exit.
+    pub fn wait(self) {
+        if let Some(mut process) = self.process {
+            // There's nothing useful we can do if this fails.
+            let _ = process.wait();
+        }
+    }
 }
-- 
2.43.0


From 4fd9a2f766eef4c089997d053c0038b7a84dd459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 19/29] fix: don't use an empty pager

Like Git, treat an empty pager as a request not to use any.  Previously,
we ran an empty command and lost the output.
---
 scutiger-bin/src/bin/pager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 0652406..45e3a07 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -36,7 +36,7 @@ impl Pager {
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
             .unwrap_or_else(|| "less".into());
-        if pager == "cat" {
+        if pager == "cat" || pager.is_empty() {
             None
         } else {
             Some(pager)
-- 
2.43.0


From dfbf7e5f36519ebd945104cf91598dc5d5a17424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 20/29] fix: honour cursors when listing locks

Comparing a byte slice with Bytes gives the reverse of the expected result, so
the cursor was ignored and every page was the first.
---
 scutiger-lfs/src/processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index d1f4b99..a0b1e89 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -592,7 +592,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < &id[..] => self.error(404, "not found"),
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -626,7 +626,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < &cursor[..],
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0


From da2eef83e987580e8c05480d8d6a99d72da5c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 21/29] fix: treat core.sharedRepository set to 2 as "all"

This is what "git init --shared=all" writes, but it was treated as a true value
and thus like "group".
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 6e890cb..aec81d5 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -106,6 +106,8 @@ impl<'p> Program<'p> {
             .filter(|&mode| mode > 2);
         let perms = match (config.get_bool("core.sharedrepository"), tval) {
             (_, Ok(_)) if mode.is_some() => mode,
+            // This is how "git init --shared=all" spells it.
+            (_, Ok("2")) => Some(0o664),
             (Ok(true), _) | (_, Ok("group")) => Some(0o660),
             (Ok(false), _) | (_, Ok("umask")) => None,
             (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-- 
2.43.0


From efa5bef8300f669f1820b69dfca942bc803eb6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 22/29] fix: list only real checkouts in git recent-refs

libgit2 counts any entry in the log of HEAD whose message contains the
text of a checkout, such as the commit of that name, and we asked it for
only as many as actually are checkouts, so the oldest were lost.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 1fc279f..71b6c17 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -21,6 +21,7 @@ use git2::{Object, Reference, ReflogEntry, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
+use std::str;
 
 /// The types of sorting that can be provided.
 enum SortKind {
@@ -52,11 +53,11 @@ impl<'p> Program<'p> {
         }
     }
 
-    fn is_checkout(entry: &ReflogEntry) -> bool {
-        match entry.message_bytes() {
-            Some(message) => message.starts_with(b"checkout: moving from "),
-            None => false,
-        }
+    /// The branch or commit which was left, if this entry records a checkout.
+    fn left_by_checkout(entry: &ReflogEntry) -> Option<String> {
+        let message = str::from_utf8(entry.message_bytes()?).ok()?;
+        let names = message.strip_prefix("checkout: moving from ")?;
+        Some(names[..names.rfind(" to ")?].into())
     }
 
     fn commit_date_for(r: &Reference) -> Option<Time> {
@@ -80,14 +81,14 @@ impl<'p> Program<'p> {
         match self.kind {
             SortKind::Visited => {
                 let chain: Vec<String> = vec!["HEAD".to_string()];
-                let checkouts = match repo.reflog("HEAD") {
-                    Ok(log) => log.iter().filter(Self::is_checkout).count(),
-                    Err(_) => 0,
+                let left: Vec<String> = match repo.reflog("HEAD") {
+                    Ok(log) => log
+                        .iter()
+                        .filter_map(|e| Self::left_by_checkout(&e))
+                        .collect(),
+                    Err(_) => vec![],
                 };
-                let range = 1..=checkouts;
-                let iter = chain
-                    .into_iter()
-                    .chain(range.map(|i| format!("@{{-{}}}", i)));
+                let iter = chain.into_iter().chain(left);
                 // Some of these may no longer exist.
                 Ok(Box::new(iter.filter_map(move |rev| {
                     Self::stringify(repo.revparse_ext(&rev).ok())
-- 
2.43.0


From b39a34fe6921c220a503639f5cce7d9518add3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 23/29] fix: list the visited branch, not a tag of the same
 name

git checkout and the log of HEAD mean the branch if there are both.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 71b6c17..515b3e4 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -17,7 +17,7 @@ mod pager;
 pub mod fixtures;
 
 use clap::{App, AppSettings, Arg, ArgMatches};
-use git2::{Object, Reference, ReflogEntry, Repository, Time};
+use git2::{BranchType, Object, Reference, ReflogEntry, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
@@ -60,6 +60,14 @@ impl<'p> Program<'p> {
         Some(names[..names.rfind(" to ")?].into())
     }
 
+    /// Finds what a checkout left, if it still exists. A branch comes before a tag of that name.
+    fn resolve_left(repo: &Repository, rev: &str) -> Option<String> {
+        match repo.find_branch(rev, BranchType::Local) {
+            Ok(branch) => Some(branch.get().name()?.into()),
+            Err(_) => Self::stringify(repo.revparse_ext(rev).ok()),
+        }
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -80,7 +88,6 @@ impl<'p> Program<'p> {
     fn run<'a>(&self, repo: &'a Repository) -> Result<Box<Iterator<Item = String> + 'a>, Error> {
         match self.kind {
             SortKind::Visited => {
-                let chain: Vec<String> = vec!["HEAD".to_string()];
                 let left: Vec<String> = match repo.reflog("HEAD") {
                     Ok(log) => log
                         .iter()
@@ -88,11 +95,12 @@ impl<'p> Program<'p> {
                         .collect(),
                     Err(_) => vec![],
                 };
-                let iter = chain.into_iter().chain(left);
+                let head = Self::stringify(repo.revparse_ext("HEAD").ok());
                 // Some of these may no longer exist.
-                Ok(Box::new(iter.filter_map(move |rev| {
-                    Self::stringify(repo.revparse_ext(&rev).ok())
-                })))
+                let left = left
+                    .into_iter()
+                    .filter_map(move |rev| Self::resolve_left(repo, &rev));
+                Ok(Box::new(head.into_iter().chain(left)))
             }
             SortKind::Committed => {
                 let mut refs: Vec<_> = repo
-- 
2.43.0


From 1831fab6266468251a686624d0ba79ffe491468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 24/29] fix: report missing commits instead of saying that
 nothing matches

When a commit in the history could not be found, git at exited with
status 1, and with --quiet silently, just as if it had looked at all of
the history and nothing matched.
---
 scutiger-bin/src/bin/git-at.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 7f7fe37..3c79c92 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -70,8 +70,12 @@ impl<'a> Program<'a> {
         let mut walker = self.repo.revwalk()?;
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
         walker.push(head.id())?;
+        // A history with missing commits isn't one in which nothing matches.
+        let unreadable = |e: git2::Error| Error::new(ErrorKind::GitError, Some(e));
         for rev in walker {
-            let commit = self.repo.find_commit(rev?)?;
+            let commit = rev
+                .and_then(|oid| self.repo.find_commit(oid))
+                .map_err(unreadable)?;
             let message = commit.message_bytes();
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
-- 
2.43.0


From fdf47cf8687cc3e2aa5d8fb19ed903e2dc9e99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 25/29] fix: find what a checkout left whatever was checked out

An expression such as ':/from here to there' contains ' to ', which made
the branch left be taken for something that doesn't exist, and one that
isn't UTF-8 made the whole entry be ignored.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 515b3e4..9b056f0 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -55,9 +55,12 @@ impl<'p> Program<'p> {
 
     /// The branch or commit which was left, if this entry records a checkout.
     fn left_by_checkout(entry: &ReflogEntry) -> Option<String> {
-        let message = str::from_utf8(entry.message_bytes()?).ok()?;
-        let names = message.strip_prefix("checkout: moving from ")?;
-        Some(names[..names.rfind(" to ")?].into())
+        let names = entry
+            .message_bytes()?
+            .strip_prefix(b"checkout: moving from ")?;
+        // What was checked out may be any expression, and contain anything.
+        let end = names.windows(4).position(|w| w == b" to ")?;
+        Some(str::from_utf8(&names[..end]).ok()?.into())
     }
 
     /// Finds what a checkout left, if it still exists. A branch comes before a tag of that name.
-- 
2.43.0


From cacb52575c12ba9de17b2d17ce8844a87a8be32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 26/29] fix: report revisions and patterns which aren't UTF-8
 instead of panicking

---
 scutiger-bin/src/bin/git-at.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 3c79c92..6d6301e 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -188,6 +188,15 @@ fn main() {
     let repo = repo();
     let app = parse_options();
     let matches = app.get_matches();
+    let is_utf8 = |arg| {
+        matches
+            .value_of_os(arg)
+            .map_or(true, |v| v.to_str().is_some())
+    };
+    if !is_utf8("revision") || !is_utf8("pattern") {
+        eprintln!("fatal: the revision and the pattern must be valid UTF-8");
+        process::exit(ExitStatus::Fatal as i32);
+    }
     let prog = program(&repo, &matches);
     process::exit(prog.main(&mut io::stdout(), &mut io::stderr()));
 }
-- 
2.43.0


From 61c27875ad61c2b7eaeef4e8e8eedf710bffb3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 27/29] fix: report an operation which isn't UTF-8 instead of
 panicking

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index aec81d5..a7d522d 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -176,7 +176,9 @@ fn parse_options<'a>() -> App<'a, 'a> {
 }
 
 fn program<'a>(r: &'a Repository, matches: &'a ArgMatches) -> Program<'a> {
-    Program::new(r, matches.value_of("operation").unwrap().into())
+    // If the operation isn't valid UTF-8, what this returns isn't a known operation.
+    let operation = matches.value_of_lossy("operation").unwrap();
+    Program::new(r, operation.into())
 }
 
 fn repo<P: AsRef<Path>>(path: P) -> Repository {
-- 
2.43.0


From 8755469ff18ef6bef96bb21ee51bba253ad05135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 28/29] fix: list references again if they changed meanwhile

Listing the references leaves out those which another process (such as git
pack-refs or git gc) packs at the same time, or finds their old values.  Do it
again until nothing has changed.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 33 ++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 9b056f0..1da1d54 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -20,6 +20,7 @@ use clap::{App, AppSettings, Arg, ArgMatches};
 use git2::{BranchType, Object, Reference, ReflogEntry, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
+use std::mem;
 use std::process;
 use std::str;
 
@@ -71,6 +72,28 @@ impl<'p> Program<'p> {
         }
     }
 
+    /// Lists all references which can be read.
+    ///
+    /// Listing them misses those which someone else packs at the same time, and may find old values
+    /// instead, so this is done again until nothing has changed meanwhile.
+    fn references(repo: &Repository) -> Result<Vec<Reference<'_>>, Error> {
+        const ATTEMPTS: usize = 10;
+        let list = || -> Result<Vec<Reference<'_>>, Error> {
+            Ok(repo.references()?.filter_map(Result::ok).collect())
+        };
+        let same = |(a, b): (&Reference, &Reference)| {
+            a.name_bytes() == b.name_bytes() && a.target() == b.target()
+        };
+        let mut refs = list()?;
+        for _ in 0..ATTEMPTS {
+            let last = mem::replace(&mut refs, list()?);
+            if refs.len() == last.len() && refs.iter().zip(&last).all(same) {
+                break;
+            }
+        }
+        Ok(refs)
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -106,9 +129,8 @@ impl<'p> Program<'p> {
                 Ok(Box::new(head.into_iter().chain(left)))
             }
             SortKind::Committed => {
-                let mut refs: Vec<_> = repo
-                    .references()?
-                    .filter_map(Result::ok)
+                let mut refs: Vec<_> = Self::references(repo)?
+                    .into_iter()
                     .map(|r| (r.target(), Self::commit_date_for(&r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
                     .collect();
@@ -119,9 +141,8 @@ impl<'p> Program<'p> {
                 ))
             }
             SortKind::Authored => {
-                let mut refs: Vec<_> = repo
-                    .references()?
-                    .filter_map(Result::ok)
+                let mut refs: Vec<_> = Self::references(repo)?
+                    .into_iter()
                     .map(|r| (r.target(), Self::author_date_for(&r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
                     .collect();
-- 
2.43.0


From 941fa470c181b55a3aee336f190c11a75bb8f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 29/29] fix: look for commits again if their packs were
 replaced

If another process repacks the repository, a commit may not be found in the
packs which were there before.  Don't leave out references because of that.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 1da1d54..e9b7d38 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -68,7 +68,7 @@ impl<'p> Program<'p> {
     fn resolve_left(repo: &Repository, rev: &str) -> Option<String> {
         match repo.find_branch(rev, BranchType::Local) {
             Ok(branch) => Some(branch.get().name()?.into()),
-            Err(_) => Self::stringify(repo.revparse_ext(rev).ok()),
+            Err(_) => Self::stringify(Self::look_up(repo, || repo.revparse_ext(rev))),
         }
     }
 
@@ -94,14 +94,23 @@ impl<'p> Program<'p> {
         Ok(refs)
     }
 
-    fn commit_date_for(r: &Reference) -> Option<Time> {
-        let commit = r.peel_to_commit().ok()?;
+    /// Looks something up, and again if that failed, since its pack may just have been replaced.
+    fn look_up<T>(repo: &Repository, f: impl Fn() -> Result<T, git2::Error>) -> Option<T> {
+        f().or_else(|_| {
+            repo.odb()?.refresh()?;
+            f()
+        })
+        .ok()
+    }
+
+    fn commit_date_for(repo: &Repository, r: &Reference) -> Option<Time> {
+        let commit = Self::look_up(repo, || r.peel_to_commit())?;
         let time = commit.committer().when();
         Some(time)
     }
 
-    fn author_date_for(r: &Reference) -> Option<Time> {
-        let commit = r.peel_to_commit().ok()?;
+    fn author_date_for(repo: &Repository, r: &Reference) -> Option<Time> {
+        let commit = Self::look_up(repo, || r.peel_to_commit())?;
         let time = commit.author().when();
         Some(time)
     }
@@ -121,7 +130,7 @@ impl<'p> Program<'p> {
                         .collect(),
                     Err(_) => vec![],
                 };
-                let head = Self::stringify(repo.revparse_ext("HEAD").ok());
+                let head = Self::stringify(Self::look_up(repo, || repo.revparse_ext("HEAD")));
                 // Some of these may no longer exist.
                 let left = left
                     .into_iter()
@@ -131,7 +140,7 @@ impl<'p> Program<'p> {
             SortKind::Committed => {
                 let mut refs: Vec<_> = Self::references(repo)?
                     .into_iter()
-                    .map(|r| (r.target(), Self::commit_date_for(&r), r))
+                    .map(|r| (r.target(), Self::commit_date_for(repo, &r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
                     .collect();
                 refs.sort_by(|a, b| b.1.cmp(&a.1));
@@ -143,7 +152,7 @@ impl<'p> Program<'p> {
             SortKind::Authored => {
                 let mut refs: Vec<_> = Self::references(repo)?
                     .into_iter()
-                    .map(|r| (r.target(), Self::author_date_for(&r), r))
+                    .map(|r| (r.target(), Self::author_date_for(repo, &r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
                     .collect();
                 refs.sort_by(|a, b| b.1.cmp(&a.1));
-- 
2.43.0

