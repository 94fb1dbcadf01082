From f71daf0cd764e03f0581357cfed781a6258a7bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 01/19] fix: Allow calling functions returned by go more than
 once

---
 .../os/ffi/application/src/concurrency.rs     | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/packages/os/ffi/application/src/concurrency.rs b/packages/os/ffi/application/src/concurrency.rs
index af5e8f9..457d97d 100644
--- a/packages/os/ffi/application/src/concurrency.rs
+++ b/packages/os/ffi/application/src/concurrency.rs
@@ -1,18 +1,36 @@
-use futures::{future::FutureExt, pin_mut, stream::StreamExt};
+use futures::{
+    future::{FutureExt, Map, Shared},
+    pin_mut,
+    stream::StreamExt,
+};
 use std::{num::NonZeroUsize, thread::available_parallelism};
 use tokio::{
     spawn,
     sync::mpsc::{channel, Receiver},
-    task::yield_now,
+    task::{yield_now, JoinError, JoinHandle},
 };
 
 const PARALLELISM_MULTIPLIER: usize = 2;
 
+// Functions returned by `_pen_spawn` can be called many times.
+type SpawnedFuture = Shared<Map<JoinHandle<ffi::Any>, fn(Result<ffi::Any, JoinError>) -> ffi::Any>>;
+
 #[ffi::bindgen]
 async fn _pen_spawn(closure: ffi::Closure) -> ffi::Closure {
-    ffi::future::to_closure(
-        spawn(ffi::future::from_closure::<_, ffi::Any>(closure)).map(Result::unwrap),
-    )
+    let future: SpawnedFuture = spawn(ffi::future::from_closure::<_, ffi::Any>(closure))
+        .map(Result::unwrap as fn(_) -> _)
+        .shared();
+
+    ffi::Closure::new(_pen_get_spawn_result as *const u8, future).into_opaque()
+}
+
+#[ffi::bindgen]
+async fn _pen_get_spawn_result(closure: ffi::Closure<SpawnedFuture>) -> ffi::Any {
+    let future = unsafe { &*closure.payload() }.clone();
+
+    drop(closure);
+
+    future.await
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 8602f035e798e97de08621920480ce066d651451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 02/19] fix: Stop evaluating lists in race when the merged list
 is dropped

Tasks started by race ignored the error of sending an element to the closed
channel of a merged list nobody refers to any more, so that they kept on
evaluating their lists, forever if a list is infinite.
---
 packages/os/ffi/application/src/concurrency.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/os/ffi/application/src/concurrency.rs b/packages/os/ffi/application/src/concurrency.rs
index 457d97d..3b6d4c4 100644
--- a/packages/os/ffi/application/src/concurrency.rs
+++ b/packages/os/ffi/application/src/concurrency.rs
@@ -61,7 +61,10 @@ async fn _pen_race(list: ffi::List) -> ffi::List {
                 pin_mut!(list);
 
                 while let Some(element) = list.next().await {
-                    cloned_sender.send(element).await.unwrap_or_default();
+                    // Stop evaluating elements when the merged list is dropped.
+                    if cloned_sender.send(element).await.is_err() {
+                        break;
+                    }
                 }
             });
         }
-- 
2.43.0


From 17dee9474a1f8dc8c36ea6d7f26e87b30aec83be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 03/19] fix: Flush writes to files before reporting their
 results

Writes to files were only buffered when their sizes were returned: what was
written was not visible to other readers yet, could be lost on exit, and errors
of the writes were never reported.
---
 packages/os/ffi/library/src/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/os/ffi/library/src/file.rs b/packages/os/ffi/library/src/file.rs
index cb9de6b..cc071d9 100644
--- a/packages/os/ffi/library/src/file.rs
+++ b/packages/os/ffi/library/src/file.rs
@@ -3,6 +3,7 @@ use crate::utilities;
 use std::{error::Error, ops::DerefMut, path::Path, sync::Arc};
 use tokio::{
     fs,
+    io::AsyncWriteExt,
     sync::{RwLock, RwLockWriteGuard},
 };
 
@@ -74,7 +75,13 @@ async fn _pen_os_write_file(
     file: File,
     bytes: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
-    utilities::write(file.lock().await.deref_mut(), bytes).await
+    let mut file = file.lock().await;
+    let count = utilities::write(file.deref_mut(), bytes).await?;
+
+    // Writes are only buffered, and their errors are not reported until flushes.
+    file.flush().await?;
+
+    Ok(count)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From b87db0bef18cedcc0cd0e6e10455aa6005875a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 04/19] fix: Do not wait for blocking operations of tasks left
 behind on exit

When the main function returned while a task was reading from standard input,
the process did not end until the read did because dropping the runtime waits
for its blocking operations.
---
 packages/os/ffi/application/src/main.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/os/ffi/application/src/main.rs b/packages/os/ffi/application/src/main.rs
index 2e23aa5..41b0d6a 100644
--- a/packages/os/ffi/application/src/main.rs
+++ b/packages/os/ffi/application/src/main.rs
@@ -5,14 +5,21 @@ mod unreachable;
 mod utilities;
 
 use std::time::Duration;
-use tokio::time::sleep;
+use tokio::{runtime::Runtime, time::sleep};
 
 ffi::import!(_pen_main, async fn() -> ffi::None);
 
-#[tokio::main]
-async fn main() {
-    _pen_main().await;
+fn main() {
+    let runtime = Runtime::new().unwrap();
 
-    // HACK Wait for all I/O buffers to be flushed (hopefully.)
-    sleep(Duration::from_millis(50)).await;
+    runtime.block_on(async {
+        _pen_main().await;
+
+        // HACK Wait for all I/O buffers to be flushed (hopefully.)
+        sleep(Duration::from_millis(50)).await;
+    });
+
+    // Do not wait for blocking operations of tasks left behind, such as reads from
+    // standard input, because they might never end.
+    runtime.shutdown_background();
 }
-- 
2.43.0


From 674892b29d34d4b82fa28f938f5626f6d976a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 05/19] fix: Do not block sending on sockets while waiting to
 receive

---
 packages/os/ffi/library/src/tcp.rs | 63 ++++++++++++++++--------------
 packages/os/ffi/library/src/udp.rs | 27 +++++--------
 2 files changed, 44 insertions(+), 46 deletions(-)

diff --git a/packages/os/ffi/library/src/tcp.rs b/packages/os/ffi/library/src/tcp.rs
index 14278a6..6560f3e 100644
--- a/packages/os/ffi/library/src/tcp.rs
+++ b/packages/os/ffi/library/src/tcp.rs
@@ -1,9 +1,5 @@
-use std::{error::Error, str, sync::Arc};
-use tokio::{
-    io::{AsyncReadExt, AsyncWriteExt},
-    net,
-    sync::{RwLock, RwLockWriteGuard},
-};
+use std::{error::Error, io::ErrorKind, str, sync::Arc};
+use tokio::net;
 
 #[ffi::into_any(into_fn = "_pen_os_tcp_listener_to_any")]
 #[repr(C)]
@@ -12,21 +8,15 @@ struct TcpListener(ffi::Arc<ffi::Any>);
 
 #[ffi::any]
 #[derive(Clone, Debug)]
-struct TcpListenerInner(Arc<RwLock<net::TcpListener>>);
+struct TcpListenerInner(Arc<net::TcpListener>);
 
 impl TcpListener {
     pub fn new(listener: net::TcpListener) -> Self {
-        Self(ffi::Arc::new(
-            TcpListenerInner(RwLock::new(listener).into()).into(),
-        ))
+        Self(ffi::Arc::new(TcpListenerInner(listener.into()).into()))
     }
 
-    pub async fn lock(&self) -> RwLockWriteGuard<'_, net::TcpListener> {
-        TryInto::<&TcpListenerInner>::try_into(&*self.0)
-            .unwrap()
-            .0
-            .write()
-            .await
+    pub fn get(&self) -> &net::TcpListener {
+        &TryInto::<&TcpListenerInner>::try_into(&*self.0).unwrap().0
     }
 }
 
@@ -37,21 +27,15 @@ struct TcpStream(ffi::Arc<ffi::Any>);
 
 #[ffi::any]
 #[derive(Clone, Debug)]
-struct TcpStreamInner(Arc<RwLock<net::TcpStream>>);
+struct TcpStreamInner(Arc<net::TcpStream>);
 
 impl TcpStream {
     pub fn new(socket: net::TcpStream) -> Self {
-        Self(ffi::Arc::new(
-            TcpStreamInner(RwLock::new(socket).into()).into(),
-        ))
+        Self(ffi::Arc::new(TcpStreamInner(socket.into()).into()))
     }
 
-    pub async fn lock(&self) -> RwLockWriteGuard<'_, net::TcpStream> {
-        TryInto::<&TcpStreamInner>::try_into(&*self.0)
-            .unwrap()
-            .0
-            .write()
-            .await
+    pub fn get(&self) -> &net::TcpStream {
+        &TryInto::<&TcpStreamInner>::try_into(&*self.0).unwrap().0
     }
 }
 
@@ -88,7 +72,7 @@ async fn _pen_os_tcp_connect(address: ffi::ByteString) -> Result<TcpStream, Box<
 
 #[ffi::bindgen]
 async fn _pen_os_tcp_accept(listener: TcpListener) -> Result<TcpAcceptedStream, Box<dyn Error>> {
-    let (stream, address) = listener.lock().await.accept().await?;
+    let (stream, address) = listener.get().accept().await?;
 
     Ok(TcpAcceptedStream::new(
         TcpStream::new(stream),
@@ -102,7 +86,17 @@ async fn _pen_os_tcp_receive(
     limit: ffi::Number,
 ) -> Result<ffi::ByteString, Box<dyn Error>> {
     let mut buffer = vec![0; f64::from(limit) as usize];
-    let size = socket.lock().await.read(&mut buffer).await?;
+    let stream = socket.get();
+
+    // Do not lock the stream so that data can be sent in the meantime.
+    let size = loop {
+        stream.readable().await?;
+
+        match stream.try_read(&mut buffer) {
+            Err(error) if error.kind() == ErrorKind::WouldBlock => {}
+            result => break result?,
+        }
+    };
 
     buffer.truncate(size);
 
@@ -114,5 +108,16 @@ async fn _pen_os_tcp_send(
     socket: TcpStream,
     data: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
-    Ok((socket.lock().await.write(data.as_slice()).await? as f64).into())
+    let stream = socket.get();
+
+    let size = loop {
+        stream.writable().await?;
+
+        match stream.try_write(data.as_slice()) {
+            Err(error) if error.kind() == ErrorKind::WouldBlock => {}
+            result => break result?,
+        }
+    };
+
+    Ok((size as f64).into())
 }
diff --git a/packages/os/ffi/library/src/udp.rs b/packages/os/ffi/library/src/udp.rs
index c7dd2e1..b8d0bf9 100644
--- a/packages/os/ffi/library/src/udp.rs
+++ b/packages/os/ffi/library/src/udp.rs
@@ -1,8 +1,5 @@
 use std::{error::Error, str, sync::Arc};
-use tokio::{
-    net,
-    sync::{RwLock, RwLockWriteGuard},
-};
+use tokio::net;
 
 const MAX_UDP_PAYLOAD_SIZE: usize = 512;
 
@@ -14,25 +11,23 @@ pub struct UdpSocket(ffi::Arc<ffi::Any>);
 #[ffi::any]
 #[derive(Clone, Debug)]
 struct UdpSocketInner {
-    socket: Arc<RwLock<net::UdpSocket>>,
+    socket: Arc<net::UdpSocket>,
 }
 
 impl UdpSocket {
     pub fn new(socket: net::UdpSocket) -> Self {
         Self(ffi::Arc::new(
             UdpSocketInner {
-                socket: RwLock::new(socket).into(),
+                socket: socket.into(),
             }
             .into(),
         ))
     }
 
-    pub async fn lock(&self) -> RwLockWriteGuard<'_, net::UdpSocket> {
-        TryInto::<&UdpSocketInner>::try_into(&*self.0)
+    pub fn get(&self) -> &net::UdpSocket {
+        &TryInto::<&UdpSocketInner>::try_into(&*self.0)
             .unwrap()
             .socket
-            .write()
-            .await
     }
 }
 
@@ -75,8 +70,7 @@ async fn _pen_os_udp_connect(
     address: ffi::ByteString,
 ) -> Result<(), Box<dyn Error>> {
     socket
-        .lock()
-        .await
+        .get()
         .connect(str::from_utf8(address.as_slice())?)
         .await?;
 
@@ -86,7 +80,7 @@ async fn _pen_os_udp_connect(
 #[ffi::bindgen]
 async fn _pen_os_udp_receive(socket: UdpSocket) -> Result<ffi::ByteString, Box<dyn Error>> {
     let mut buffer = vec![0; MAX_UDP_PAYLOAD_SIZE];
-    let size = socket.lock().await.recv(&mut buffer).await?;
+    let size = socket.get().recv(&mut buffer).await?;
 
     buffer.truncate(size);
 
@@ -96,7 +90,7 @@ async fn _pen_os_udp_receive(socket: UdpSocket) -> Result<ffi::ByteString, Box<d
 #[ffi::bindgen]
 async fn _pen_os_udp_receive_from(socket: UdpSocket) -> Result<UdpDatagram, Box<dyn Error>> {
     let mut buffer = vec![0; MAX_UDP_PAYLOAD_SIZE];
-    let (size, address) = socket.lock().await.recv_from(&mut buffer).await?;
+    let (size, address) = socket.get().recv_from(&mut buffer).await?;
 
     buffer.truncate(size);
 
@@ -108,7 +102,7 @@ async fn _pen_os_udp_send(
     socket: UdpSocket,
     data: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
-    let size = socket.lock().await.send(data.as_slice()).await?;
+    let size = socket.get().send(data.as_slice()).await?;
 
     Ok((size as f64).into())
 }
@@ -120,8 +114,7 @@ async fn _pen_os_udp_send_to(
     address: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
     let size = socket
-        .lock()
-        .await
+        .get()
         .send_to(data.as_slice(), str::from_utf8(address.as_slice())?)
         .await?;
 
-- 
2.43.0


From b06121bb3f2e85cfe3ed6329e589aadb3fd837c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 06/19] fix: Flush standard output of the os-sync package

Acknowledged writes without newlines stayed in a buffer, so that prompts were not
shown before reads, and errors and abrupt ends lost them silently.
---
 packages/os-sync/ffi/library/src/stdio.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/os-sync/ffi/library/src/stdio.rs b/packages/os-sync/ffi/library/src/stdio.rs
index 62aa7b6..e5945db 100644
--- a/packages/os-sync/ffi/library/src/stdio.rs
+++ b/packages/os-sync/ffi/library/src/stdio.rs
@@ -1,7 +1,7 @@
 use super::utilities;
 use std::{
     error::Error,
-    io::{stderr, stdin, stdout},
+    io::{stderr, stdin, stdout, Write},
 };
 
 #[ffi::bindgen]
@@ -16,7 +16,13 @@ fn _pen_os_read_limit_stdin(limit: ffi::Number) -> Result<ffi::ByteString, Box<d
 
 #[ffi::bindgen]
 fn _pen_os_write_stdout(bytes: ffi::ByteString) -> Result<ffi::Number, Box<dyn Error>> {
-    utilities::write(&mut stdout(), bytes)
+    let mut stdout = stdout();
+    let count = utilities::write(&mut stdout, bytes)?;
+
+    // Writes might be only buffered, and their errors are not reported until flushes.
+    stdout.flush()?;
+
+    Ok(count)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From e12f4f87576df664fc81d3fa51d7a176e6dbe94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 07/19] fix: Do not reuse prepared SQL statements for arguments
 of other types

---
 packages/sql/ffi/src/pool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/sql/ffi/src/pool.rs b/packages/sql/ffi/src/pool.rs
index 7328609..794b7a8 100644
--- a/packages/sql/ffi/src/pool.rs
+++ b/packages/sql/ffi/src/pool.rs
@@ -124,7 +124,9 @@ async fn build_query(
     query: &ffi::ByteString,
     arguments: ffi::List,
 ) -> Result<AnyQuery<'_>, Box<dyn Error>> {
-    let mut query = sqlx::query::<sqlx::Any>(str::from_utf8(query.as_slice())?);
+    // Prepared statements are cached only by their text although they are bound to types of
+    // arguments they are prepared with.
+    let mut query = sqlx::query::<sqlx::Any>(str::from_utf8(query.as_slice())?).persistent(false);
     let arguments = ffi::future::stream::from_list(arguments);
 
     pin_mut!(arguments);
-- 
2.43.0


From ed8950e00fd06096b5ec33d559dc63f72da281eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 08/19] fix: Never leave incomplete external packages behind

---
 lib/infra/src/external_package_initializer.rs | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/infra/src/external_package_initializer.rs b/lib/infra/src/external_package_initializer.rs
index df8a6ce..4672105 100644
--- a/lib/infra/src/external_package_initializer.rs
+++ b/lib/infra/src/external_package_initializer.rs
@@ -61,10 +61,24 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
             std::fs::create_dir_all(directory)?;
         }
 
+        // Fetch a package into a temporary directory and rename it so that an
+        // interrupted or failed fetch never leaves an incomplete package.
+        let temporary_directory = directory.with_file_name(format!(
+            ".{}",
+            directory.file_name().unwrap_or_default().to_string_lossy()
+        ));
+
+        if temporary_directory.exists() {
+            std::fs::remove_dir_all(&temporary_directory)?;
+        }
+
         match url.scheme() {
             "file" => {
                 command_runner::run_command(
-                    Command::new("cp").arg("-r").arg(url.path()).arg(directory),
+                    Command::new("cp")
+                        .arg("-r")
+                        .arg(url.path())
+                        .arg(&temporary_directory),
                 )?;
             }
             "git" => {
@@ -72,7 +86,7 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
                     Command::new("git")
                         .arg("clone")
                         .arg(url.as_str())
-                        .arg(directory),
+                        .arg(&temporary_directory),
                 )?;
             }
             _ => {
@@ -92,11 +106,13 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
                             .join(self.packages_directory)
                             .join(url.path().strip_prefix('/').unwrap_or_default()),
                         )
-                        .arg(directory),
+                        .arg(&temporary_directory),
                 )?;
             }
         }
 
+        std::fs::rename(temporary_directory, directory)?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 56ffbaa4304c4b2e8f26933a6c6a36d4fc97e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 09/19] fix: Resolve module dependencies again when package
 configuration changes

Dependency files name modules of the packages that pen.json lists.  When a
URL in it changed, modules that did not change kept pointing into packages
that are no part of a build any more, and every build failed.
---
 cmd/pen/src/infrastructure.rs                | 1 +
 lib/infra/src/ninja_build_script_compiler.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/pen/src/infrastructure.rs b/cmd/pen/src/infrastructure.rs
index e631164..6457a75 100644
--- a/cmd/pen/src/infrastructure.rs
+++ b/cmd/pen/src/infrastructure.rs
@@ -17,6 +17,7 @@ pub fn create(
         BIT_CODE_FILE_EXTENSION,
         DEPENDENCY_FILE_EXTENSION,
         NINJA_DYNAMIC_DEPENDENCY_FILE_EXTENSION,
+        BUILD_CONFIGURATION_FILENAME,
         FFI_BUILD_SCRIPT_BASENAME,
         LINK_SCRIPT_BASENAME,
     ));
diff --git a/lib/infra/src/ninja_build_script_compiler.rs b/lib/infra/src/ninja_build_script_compiler.rs
index d4d3544..df322af 100644
--- a/lib/infra/src/ninja_build_script_compiler.rs
+++ b/lib/infra/src/ninja_build_script_compiler.rs
@@ -19,6 +19,7 @@ pub struct NinjaBuildScriptCompiler {
     bit_code_file_extension: &'static str,
     dependency_file_extension: &'static str,
     ninja_dynamic_dependency_file_extension: &'static str,
+    build_configuration_filename: &'static str,
     ffi_build_script_basename: &'static str,
     link_script_basename: &'static str,
 }
@@ -29,6 +30,7 @@ impl NinjaBuildScriptCompiler {
         bit_code_file_extension: &'static str,
         dependency_file_extension: &'static str,
         ninja_dynamic_dependency_file_extension: &'static str,
+        build_configuration_filename: &'static str,
         ffi_build_script_basename: &'static str,
         link_script_basename: &'static str,
     ) -> Self {
@@ -37,6 +39,7 @@ impl NinjaBuildScriptCompiler {
             bit_code_file_extension,
             dependency_file_extension,
             ninja_dynamic_dependency_file_extension,
+            build_configuration_filename,
             ffi_build_script_basename,
             link_script_basename,
         }
@@ -323,11 +326,15 @@ impl NinjaBuildScriptCompiler {
         target_source: &app::infra::ModuleTargetSource,
     ) -> Vec<String> {
         vec![
+            // Modules' dependencies change also when packages' ones do.
             format!(
-                "build {} {}: resolve_dependency {}",
+                "build {} {}: resolve_dependency {} | {}",
                 dependency_file.display(),
                 ninja_dependency_file.display(),
                 source_file.display(),
+                package_directory
+                    .join(self.build_configuration_filename)
+                    .display(),
             ),
             format!("  package_directory = {}", package_directory.display()),
             format!("  object_file = {}", bit_code_file.display()),
-- 
2.43.0


From 7ddf08a8d319ff16b0768b3e017927da97be1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 10/19] fix: Archive only modules that exist

An archive kept object files of deleted modules and of deleted foreign code,
so an application linked although its main module was gone, and functions
of deleted modules stayed in programs.
---
 lib/infra/src/ninja_build_script_compiler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/infra/src/ninja_build_script_compiler.rs b/lib/infra/src/ninja_build_script_compiler.rs
index df322af..5367386 100644
--- a/lib/infra/src/ninja_build_script_compiler.rs
+++ b/lib/infra/src/ninja_build_script_compiler.rs
@@ -126,7 +126,11 @@ impl NinjaBuildScriptCompiler {
             "  command = $script_file -t $target $out",
             "  description = compiling FFI module $in_package_name",
             "rule ar",
-            &format!("  command = {} crs $out $in", ar.display()),
+            // An archiver keeps members of modules that are deleted.
+            &format!(
+                "  command = rm -f $out && {} crs $out $in",
+                ar.display()
+            ),
             AR_DESCRIPTION,
             "rule ar_ffi",
             &format!(
-- 
2.43.0


From 135c4ceee04aa78853afa46c95e9298aedd045bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 11/19] fix: Never leave incomplete crates of test programs
 behind

When a copy of a test crate failed or was interrupted, every test of the
package failed from then on.
---
 lib/infra/src/test_linker.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/infra/src/test_linker.rs b/lib/infra/src/test_linker.rs
index 9af5073..4ba8acf 100644
--- a/lib/infra/src/test_linker.rs
+++ b/lib/infra/src/test_linker.rs
@@ -117,12 +117,22 @@ impl app::infra::TestLinker for TestLinker {
             .join("main");
 
         if !main_crate_directory.exists() {
+            // Copy the crate under another name first so that an interrupted or
+            // failed copy is never taken for the crate.
+            let temporary_directory = main_crate_directory.with_file_name(".main");
+
+            if temporary_directory.exists() {
+                fs::remove_dir_all(&temporary_directory)?;
+            }
+
             command_runner::run_command(
                 Command::new("cp")
                     .arg("-r")
                     .arg(Path::new(&language_root_directory).join("cmd/test"))
-                    .arg(&main_crate_directory),
+                    .arg(&temporary_directory),
             )?;
+
+            fs::rename(temporary_directory, &main_crate_directory)?;
         }
 
         OpenOptions::new()
-- 
2.43.0


From 147d3bf47f4c0791c6742b1a4e88db33668e4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 12/19] fix: Replace files as a whole

A failed or interrupted write of a file left it truncated; `pen format`
lost modules' sources, for example, when a disk was full.
---
 lib/infra/src/file_system.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/infra/src/file_system.rs b/lib/infra/src/file_system.rs
index f23f724..f746944 100644
--- a/lib/infra/src/file_system.rs
+++ b/lib/infra/src/file_system.rs
@@ -1,5 +1,5 @@
 use super::{error::InfrastructureError, file_path_converter::FilePathConverter};
-use std::{io::Error, rc::Rc};
+use std::{fs, io::Error, path::Path, rc::Rc};
 
 pub struct FileSystem {
     file_path_converter: Rc<FilePathConverter>,
@@ -27,6 +27,29 @@ impl FileSystem {
             })
             .collect::<Result<_, Error>>()
     }
+
+    // Replace a file as a whole so that a failed or interrupted write never
+    // destroys what it had before.
+    fn write_with_raw_error(path: &Path, data: &[u8]) -> Result<(), Error> {
+        let path = path.canonicalize().unwrap_or_else(|_| path.into());
+        let temporary_path = path.with_file_name(format!(
+            ".{}.tmp",
+            path.file_name().unwrap_or_default().to_string_lossy()
+        ));
+
+        let result = fs::write(&temporary_path, data)
+            .and_then(|_| match path.metadata() {
+                Ok(metadata) => fs::set_permissions(&temporary_path, metadata.permissions()),
+                Err(_) => Ok(()),
+            })
+            .and_then(|_| fs::rename(&temporary_path, &path));
+
+        if result.is_err() {
+            let _ = fs::remove_file(temporary_path);
+        }
+
+        result
+    }
 }
 
 impl app::infra::FileSystem for FileSystem {
@@ -92,7 +115,7 @@ impl app::infra::FileSystem for FileSystem {
             })?;
         }
 
-        std::fs::write(&path, data)
+        Self::write_with_raw_error(&path, data)
             .map_err(|source| InfrastructureError::WriteFile { path, source })?;
 
         Ok(())
-- 
2.43.0


From 9af15ba9ea62f9d500e068d902ed6b5af7ff10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 13/19] fix: Report cyclic dependencies of packages

Packages that depend on each other in a cycle overflowed the stack although
there is an error for them.
---
 .../external_package_configuration_reader.rs  | 46 +++++++++++--------
 .../external_package_initializer.rs           | 42 +++++++++++++++--
 2 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/lib/app/src/external_package_configuration_reader.rs b/lib/app/src/external_package_configuration_reader.rs
index c20546c..04cb7b7 100644
--- a/lib/app/src/external_package_configuration_reader.rs
+++ b/lib/app/src/external_package_configuration_reader.rs
@@ -29,36 +29,44 @@ pub fn read_all(
     package_directory: &FilePath,
     output_directory: &FilePath,
 ) -> Result<BTreeMap<url::Url, PackageConfiguration>, Box<dyn Error>> {
+    let mut configurations = Default::default();
+
     read_dependencies(
         infrastructure,
         &infrastructure
             .package_configuration_reader
             .read(package_directory)?,
         output_directory,
-    )
+        &mut configurations,
+    )?;
+
+    Ok(configurations)
 }
 
 fn read_dependencies(
     infrastructure: &Infrastructure,
     configuration: &PackageConfiguration,
     output_directory: &FilePath,
-) -> Result<BTreeMap<url::Url, PackageConfiguration>, Box<dyn Error>> {
-    Ok(configuration
-        .dependencies()
-        .values()
-        .map(|url| -> Result<_, Box<dyn Error>> {
-            let configuration = infrastructure.package_configuration_reader.read(
-                &file_path_resolver::resolve_package_directory(output_directory, url),
-            )?;
-            let dependencies = read_dependencies(infrastructure, &configuration, output_directory)?;
+    configurations: &mut BTreeMap<url::Url, PackageConfiguration>,
+) -> Result<(), Box<dyn Error>> {
+    for url in configuration.dependencies().values() {
+        // Packages may depend on each other in cycles.
+        if configurations.contains_key(url) {
+            continue;
+        }
 
-            Ok([(url.clone(), configuration)]
-                .into_iter()
-                .chain(dependencies)
-                .collect::<Vec<_>>())
-        })
-        .collect::<Result<Vec<_>, _>>()?
-        .into_iter()
-        .flatten()
-        .collect())
+        let configuration = infrastructure.package_configuration_reader.read(
+            &file_path_resolver::resolve_package_directory(output_directory, url),
+        )?;
+
+        configurations.insert(url.clone(), configuration.clone());
+        read_dependencies(
+            infrastructure,
+            &configuration,
+            output_directory,
+            configurations,
+        )?;
+    }
+
+    Ok(())
 }
diff --git a/lib/app/src/package_initializer/external_package_initializer.rs b/lib/app/src/package_initializer/external_package_initializer.rs
index 81164f1..517779d 100644
--- a/lib/app/src/package_initializer/external_package_initializer.rs
+++ b/lib/app/src/package_initializer/external_package_initializer.rs
@@ -3,12 +3,39 @@ use crate::{
     infra::{FilePath, Infrastructure},
     package_build_script_compiler,
 };
-use std::error::Error;
+use std::{collections::BTreeSet, error::Error};
 
 pub fn initialize_dependencies(
     infrastructure: &Infrastructure,
     package_directory: &FilePath,
     output_directory: &FilePath,
+) -> Result<(), Box<dyn Error>> {
+    initialize_new_dependencies(
+        infrastructure,
+        package_directory,
+        output_directory,
+        &mut Default::default(),
+    )
+}
+
+pub fn initialize(
+    infrastructure: &Infrastructure,
+    package_url: &url::Url,
+    output_directory: &FilePath,
+) -> Result<(), Box<dyn Error>> {
+    initialize_new(
+        infrastructure,
+        package_url,
+        output_directory,
+        &mut Default::default(),
+    )
+}
+
+fn initialize_new_dependencies(
+    infrastructure: &Infrastructure,
+    package_directory: &FilePath,
+    output_directory: &FilePath,
+    initialized_urls: &mut BTreeSet<url::Url>,
 ) -> Result<(), Box<dyn Error>> {
     for url in infrastructure
         .package_configuration_reader
@@ -16,17 +43,23 @@ pub fn initialize_dependencies(
         .dependencies()
         .values()
     {
-        initialize(infrastructure, url, output_directory)?;
+        initialize_new(infrastructure, url, output_directory, initialized_urls)?;
     }
 
     Ok(())
 }
 
-pub fn initialize(
+fn initialize_new(
     infrastructure: &Infrastructure,
     package_url: &url::Url,
     output_directory: &FilePath,
+    initialized_urls: &mut BTreeSet<url::Url>,
 ) -> Result<(), Box<dyn Error>> {
+    // Packages may depend on each other in cycles, which are reported later.
+    if !initialized_urls.insert(package_url.clone()) {
+        return Ok(());
+    }
+
     let package_directory =
         file_path_resolver::resolve_package_directory(output_directory, package_url);
 
@@ -45,10 +78,11 @@ pub fn initialize(
         ),
     )?;
 
-    initialize_dependencies(
+    initialize_new_dependencies(
         infrastructure,
         &file_path_resolver::resolve_package_directory(output_directory, package_url),
         output_directory,
+        initialized_urls,
     )?;
 
     Ok(())
-- 
2.43.0


From 2703cc9d191c269ca597ecad3961609a790d9806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 14/19] fix: Do not confuse external packages of similar URLs

Packages of file:///foo.bar and file:///foo/bar, for example, had the same
directory, so one of them was taken for the other one.
---
 lib/app/src/common/package_id_calculator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/app/src/common/package_id_calculator.rs b/lib/app/src/common/package_id_calculator.rs
index 7243678..bf235cf 100644
--- a/lib/app/src/common/package_id_calculator.rs
+++ b/lib/app/src/common/package_id_calculator.rs
@@ -1,12 +1,23 @@
 use regex::Regex;
-use std::sync::LazyLock;
+use std::{
+    collections::hash_map::DefaultHasher,
+    hash::{Hash, Hasher},
+    sync::LazyLock,
+};
 
 const REPLACEMENT_STRING: &str = "_";
 
 static REPLACEMENT_REGEX: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[.:/]+").unwrap());
 
 pub fn calculate(url: &url::Url) -> String {
-    REPLACEMENT_REGEX
-        .replace_all(&format!("{url}"), REPLACEMENT_STRING)
-        .into()
+    let mut hasher = DefaultHasher::new();
+
+    url.hash(&mut hasher);
+
+    // Different URLs can be the same after replacement.
+    format!(
+        "{}_{:x}",
+        REPLACEMENT_REGEX.replace_all(url.as_str(), REPLACEMENT_STRING),
+        hasher.finish()
+    )
 }
-- 
2.43.0


From 5eeda63a15a6c2ecce3fed756b1c80d79771c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 15/19] fix: slice bytes from the start when a start index is
 not positive

---
 packages/core/ffi/src/string/byte.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/ffi/src/string/byte.rs b/packages/core/ffi/src/string/byte.rs
index 28e6e25..ffeaa6d 100644
--- a/packages/core/ffi/src/string/byte.rs
+++ b/packages/core/ffi/src/string/byte.rs
@@ -9,7 +9,7 @@ fn _pen_core_byte_slice(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    let start = f64::from(start) as usize;
+    let start = f64::from(start).max(1.0) as usize;
     let end = f64::from(end).min(string.as_slice().len() as f64) as usize;
 
     if start > end || start > string.as_slice().len() || end == 0 {
-- 
2.43.0


From 9ce459e6230ace2e35bf86987c77d8543fb67e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 16/19] fix: Do not end programs whose debug messages cannot be
 written

---
 packages/os-sync/ffi/application/src/debug.rs | 9 +++++++--
 packages/os/ffi/application/src/debug.rs      | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/packages/os-sync/ffi/application/src/debug.rs b/packages/os-sync/ffi/application/src/debug.rs
index bd43726..baaa87c 100644
--- a/packages/os-sync/ffi/application/src/debug.rs
+++ b/packages/os-sync/ffi/application/src/debug.rs
@@ -1,8 +1,13 @@
-use std::str;
+use std::{
+    io::{stderr, Write},
+    str,
+};
 
 #[ffi::bindgen]
 pub fn _pen_debug(message: ffi::ByteString) {
-    eprintln!(
+    // Programs go on without the messages if standard error is broken.
+    let _ = writeln!(
+        stderr(),
         "{}",
         str::from_utf8(message.as_slice()).unwrap_or("failed to decode debug message")
     );
diff --git a/packages/os/ffi/application/src/debug.rs b/packages/os/ffi/application/src/debug.rs
index bd43726..baaa87c 100644
--- a/packages/os/ffi/application/src/debug.rs
+++ b/packages/os/ffi/application/src/debug.rs
@@ -1,8 +1,13 @@
-use std::str;
+use std::{
+    io::{stderr, Write},
+    str,
+};
 
 #[ffi::bindgen]
 pub fn _pen_debug(message: ffi::ByteString) {
-    eprintln!(
+    // Programs go on without the messages if standard error is broken.
+    let _ = writeln!(
+        stderr(),
         "{}",
         str::from_utf8(message.as_slice()).unwrap_or("failed to decode debug message")
     );
-- 
2.43.0


From 4a59dd18ce36e4d6de14f3b6b601357aa7a60441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 17/19] Revert "fix: Never leave incomplete crates of test
 programs behind"

This reverts commit 135c4ceee04aa78853afa46c95e9298aedd045bf.
---
 lib/infra/src/test_linker.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/lib/infra/src/test_linker.rs b/lib/infra/src/test_linker.rs
index 4ba8acf..9af5073 100644
--- a/lib/infra/src/test_linker.rs
+++ b/lib/infra/src/test_linker.rs
@@ -117,22 +117,12 @@ impl app::infra::TestLinker for TestLinker {
             .join("main");
 
         if !main_crate_directory.exists() {
-            // Copy the crate under another name first so that an interrupted or
-            // failed copy is never taken for the crate.
-            let temporary_directory = main_crate_directory.with_file_name(".main");
-
-            if temporary_directory.exists() {
-                fs::remove_dir_all(&temporary_directory)?;
-            }
-
             command_runner::run_command(
                 Command::new("cp")
                     .arg("-r")
                     .arg(Path::new(&language_root_directory).join("cmd/test"))
-                    .arg(&temporary_directory),
+                    .arg(&main_crate_directory),
             )?;
-
-            fs::rename(temporary_directory, &main_crate_directory)?;
         }
 
         OpenOptions::new()
-- 
2.43.0


From 44bf16cd99e244f1d6a55d01f989bd678ef003cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:42 +0000
Subject: [PATCH 18/19] fix: accept arguments that are not UTF-8

---
 packages/os-sync/ffi/library/src/argument.rs | 5 +++--
 packages/os/ffi/library/src/argument.rs      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/os-sync/ffi/library/src/argument.rs b/packages/os-sync/ffi/library/src/argument.rs
index d01ab36..14ef82e 100644
--- a/packages/os-sync/ffi/library/src/argument.rs
+++ b/packages/os-sync/ffi/library/src/argument.rs
@@ -1,8 +1,9 @@
 #[ffi::bindgen]
 fn _pen_os_get_arguments() -> ffi::List {
-    std::env::args()
+    // Arguments do not need to be valid UTF-8 strings.
+    std::env::args_os()
         .skip(1)
-        .map(ffi::ByteString::from)
+        .map(|argument| ffi::ByteString::from(argument.into_encoded_bytes()))
         .collect::<Vec<_>>()
         .into()
 }
diff --git a/packages/os/ffi/library/src/argument.rs b/packages/os/ffi/library/src/argument.rs
index d01ab36..14ef82e 100644
--- a/packages/os/ffi/library/src/argument.rs
+++ b/packages/os/ffi/library/src/argument.rs
@@ -1,8 +1,9 @@
 #[ffi::bindgen]
 fn _pen_os_get_arguments() -> ffi::List {
-    std::env::args()
+    // Arguments do not need to be valid UTF-8 strings.
+    std::env::args_os()
         .skip(1)
-        .map(ffi::ByteString::from)
+        .map(|argument| ffi::ByteString::from(argument.into_encoded_bytes()))
         .collect::<Vec<_>>()
         .into()
 }
-- 
2.43.0


From 2cf30a0b4e6d989620bfc33af95fb7b72ba8e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:59 +0000
Subject: [PATCH 19/19] fix: Let refused operations leave asynchronous stacks
 as they are

---
 lib/ffi/src/cps/async_stack.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/ffi/src/cps/async_stack.rs b/lib/ffi/src/cps/async_stack.rs
index afd441a..1f93965 100644
--- a/lib/ffi/src/cps/async_stack.rs
+++ b/lib/ffi/src/cps/async_stack.rs
@@ -90,6 +90,10 @@ impl<V> AsyncStack<V> {
         continuation: ContinuationFunction<T, V>,
         value: T,
     ) -> Result<(), CpsError> {
+        if self.context.is_none() {
+            return Err(CpsError::MissingContext);
+        }
+
         self.validate_action(AsyncStackAction::Suspend)?;
         self.push_next_actions(&[AsyncStackAction::Resume, AsyncStackAction::Suspend]);
 
@@ -137,12 +141,14 @@ impl<V> AsyncStack<V> {
     }
 
     fn validate_action(&mut self, current_action: AsyncStackAction) -> Result<(), CpsError> {
-        let next_action = self.next_actions.pop();
+        let next_action = self.next_actions.last().copied();
 
         if next_action != Some(current_action) {
             return Err(CpsError::UnexpectedAsyncStackAction(next_action));
         }
 
+        self.next_actions.pop();
+
         Ok(())
     }
 
-- 
2.43.0

