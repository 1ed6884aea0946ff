From 97acebda06ab54660e1c63600eb37d7e3c2a0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 01/57] fix: a path that stops at an inner route node is not a
 match

A prefix of a registered route (e.g. /a for /a/b) was returned as a matched node without a handler, and running it
panicked the connection's worker.
---
 src/server/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/node.rs b/src/server/node.rs
index ef20d8e..31a65c0 100644
--- a/src/server/node.rs
+++ b/src/server/node.rs
@@ -323,7 +323,7 @@ impl Node {
                    index: usize) -> (bool, Option<(Self, HashMap<String, String>)>) {
         // 经过多轮递归，判断资源是否已经解析到最终步
         if pattern_split_len == index { // 如果资源已经解析到最终步，则表明当前结点是叶子结点
-            (true, None)
+            (self.handler.is_some(), None)
         } else {
             (false, self.fetch_fn(pattern, pattern_split, pattern_split_len, index))
         }
-- 
2.43.0


From 7d9e6ddfa28db46ed8ce80954e1e38f0f7059058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 02/57] fix: looking up a path without a leading slash finds no
 route instead of panicking

---
 src/server/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/node.rs b/src/server/node.rs
index 31a65c0..e9fdc99 100644
--- a/src/server/node.rs
+++ b/src/server/node.rs
@@ -258,6 +258,9 @@ impl Node {
     ///
     /// * pattern 资源样式，如`/a/b/c/d/e/f/g`
     fn fetch(&self, pattern: String) -> Option<(Self, HashMap<String, String>)> {
+        if !pattern.starts_with("/") {
+            return None;
+        }
         let pattern_c = pattern.clone();
         let ps: Vec<&str> = pattern_c.split("/").collect();
         let pattern_split = ps[1..].to_vec();
-- 
2.43.0


From 1c8fbc61a6f1b74b2c1c9ff5e3f5c49f4082fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 03/57] fix: a route piece that is a literal '?' has no name
 and must not panic the lookup

---
 src/server/node.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/node.rs b/src/server/node.rs
index e9fdc99..bb61848 100644
--- a/src/server/node.rs
+++ b/src/server/node.rs
@@ -297,12 +297,16 @@ impl Node {
                     pattern.clone(), pattern_split.clone(), pattern_split_len, index);
                 if is_self { // 如果是子结点，则新建fields集合，开始逆向填充
                     let mut fields = HashMap::new();
-                    fields.insert(next_node.pattern_piece_value.clone().unwrap(), pattern_piece.to_string());
+                    if let Some(name) = next_node.pattern_piece_value.clone() {
+                        fields.insert(name, pattern_piece.to_string());
+                    }
                     return Some((next_node.clone(), fields));
                 } else { // 如果不是子结点，则执行逆向填充
                     match src {
                         Some((node, mut fields)) => {
-                            fields.insert(next_node.pattern_piece_value.clone().unwrap(), pattern_piece.to_string());
+                            if let Some(name) = next_node.pattern_piece_value.clone() {
+                                fields.insert(name, pattern_piece.to_string());
+                            }
                             return Some((node, fields));
                         }
                         None => continue
-- 
2.43.0


From 19d13db1053efdf1788b8290f6487e6418e0e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 04/57] fix: routes that share a parameter position keep their
 own parameter names

/a/:x/b and /a/:y/c shared one node, so the second route received its parameter under the first route's name.
---
 src/server/node.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/server/node.rs b/src/server/node.rs
index bb61848..51d989b 100644
--- a/src/server/node.rs
+++ b/src/server/node.rs
@@ -170,9 +170,31 @@ impl Node {
         let pattern_c = pattern.clone();
         let ps: Vec<&str> = pattern_c.split("/").collect();
         let pattern_split = ps[1..].to_vec();
+        if self.occupied(&pattern_split) {
+            panic!("http server resource {} already exist", pattern)
+        }
         self.add_fn(pattern, method, pattern_split, 0, handler, extend)
     }
 
+    /// 判断相同资源是否已存在，匹配段不区分名称
+    ///
+    /// * patternSplitArr [a, b, :c, d, :e, :f, g]
+    fn occupied(&self, pattern_split: &[&str]) -> bool {
+        let pattern_piece = if pattern_split[0].starts_with(":") { "?" } else { pattern_split[0] };
+        for next_node in self.next_nodes.iter() {
+            if next_node.pattern_piece == pattern_piece {
+                if pattern_split.len() == 1 {
+                    if next_node.handler.is_some() {
+                        return true;
+                    }
+                } else if next_node.occupied(&pattern_split[1..]) {
+                    return true;
+                }
+            }
+        }
+        false
+    }
+
     /// 新增可执行服务节点
     ///
     /// * pattern 资源样式，如`/a/b/:c/d/:e/:f/g`
@@ -195,7 +217,7 @@ impl Node {
         // 遍历当前节点所有子项，处理存在相同资源情况
         for next_node in self.next_nodes.iter_mut() {
             // 判断当前资源是否已存在于子项中
-            if next_node.pattern_piece == pattern_piece {
+            if next_node.pattern_piece == pattern_piece && next_node.pattern_piece_value == pattern_piece_value {
                 next_node.add_split(pattern, method, pattern_split, index, handler, extend);
                 return;
             }
-- 
2.43.0


From 616e83bbfe1e3e528197f14415b290d139ad5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 05/57] fix: a panicking task no longer deadlocks the pool, and
 its replacement worker takes tasks

The notify thread re-locked the worker list it already held for writing, so the first panic stopped the pool for
good; the replacement worker was never announced as idle either.
---
 src/utils/concurrent/thread_pool.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/utils/concurrent/thread_pool.rs b/src/utils/concurrent/thread_pool.rs
index 5db3254..b7a8e38 100644
--- a/src/utils/concurrent/thread_pool.rs
+++ b/src/utils/concurrent/thread_pool.rs
@@ -219,8 +219,10 @@ impl ThreadPool {
                         let pool_state = self.pool_state.clone();
                         let worker =
                             Worker::new(counter, self.tx_notify.clone(), pool_state).unwrap();
-                        self.insert(counter, worker);
+                        tsw.insert(counter, worker);
                         self.pool_state.active_count.fetch_add(1);
+                        // 新线程尚无任务，通知其空闲
+                        self.tx_notify.send(Notify::Idle(counter)).unwrap();
                     }
                     Notify::Idle(counter) => {
                         let threads_r = self.threads.read().unwrap();
@@ -242,11 +244,6 @@ impl ThreadPool {
         }
     }
 
-    /// 在线程池指定下标插入新线程
-    fn insert(&self, index: usize, thread: Worker) {
-        self.threads.write().unwrap().insert(index, thread)
-    }
-
     /// 在线程池中的线程上执行给定函数
     ///
     /// 当线程池任务队列已满，新任务无法放入，则返回该错误信息
-- 
2.43.0


From 34097ab8dcc5b95852b3957ef186f946f6c59fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 06/57] fix: a task queued while a worker turns idle is handed
 to that worker

execute() saw no idle worker, the worker then found no task and went idle, and the task was queued afterwards: it waited
until some other task finished.
---
 src/utils/concurrent/thread_pool.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/utils/concurrent/thread_pool.rs b/src/utils/concurrent/thread_pool.rs
index b7a8e38..7894fcc 100644
--- a/src/utils/concurrent/thread_pool.rs
+++ b/src/utils/concurrent/thread_pool.rs
@@ -232,7 +232,7 @@ impl ThreadPool {
                             None => {
                                 match self.worker_idle_queue.push(thread.clone()) {
                                     Err(_) => panic!("notify check error! the thread idle queue is full, the element can not push into!"),
-                                    _ => {}
+                                    _ => self.dispatch(),
                                 }
                             }
                         }
@@ -277,11 +277,31 @@ impl ThreadPool {
                         "the task queue is full, the element can not push into!",
                     ))
                 }
-                _ => Ok(()),
+                _ => {
+                    self.dispatch();
+                    Ok(())
+                }
             },
         }
     }
 
+    /// 将等待中的任务交给空闲线程
+    ///
+    /// 任务入队与线程转为空闲可能同时发生，双方入队后都需再检查一次
+    fn dispatch(&self) {
+        while !self.task_queue.is_empty() {
+            match self.worker_idle_queue.pop() {
+                Some(worker) => match self.task_queue.pop() {
+                    Some(task) => worker.send(Message::Run(task)),
+                    None => {
+                        let _ = self.worker_idle_queue.push(worker);
+                    }
+                },
+                None => break,
+            }
+        }
+    }
+
     /// 计划的线程池中工作线程的数量
     pub fn size(&self) -> usize {
         self.pool_state.size
-- 
2.43.0


From 972e7980a262a62e1ad24a31aab8a9513be22287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 07/57] fix: a failed bind is returned to the caller instead of
 panicking

---
 src/server/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/server.rs b/src/server/server.rs
index a04f238..44b29ff 100644
--- a/src/server/server.rs
+++ b/src/server/server.rs
@@ -138,7 +138,10 @@ impl HttpServer {
         }
         thread_pool_builder.name_prefix("starry-http-pool");
         let thread_pool = thread_pool_builder.create()?;
-        let tcp_listener = TcpListener::bind(addr).unwrap();
+        let tcp_listener = match TcpListener::bind(addr) {
+            Ok(src) => src,
+            Err(err) => return Err(Errs::err(err))
+        };
         for tcp_stream_result in tcp_listener.incoming() {
             match tcp_stream_result {
                 Ok(tcp_stream) => {
-- 
2.43.0


From 22158ac18e79b52fc1bd15637e1004c00e5ffad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 08/57] fix: a connection whose stream cannot be cloned or
 watched is closed

The read loop span forever on a failing clone, and a connection without its idle check was kept open for good.
---
 src/server/server.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/server/server.rs b/src/server/server.rs
index 44b29ff..7606aa7 100644
--- a/src/server/server.rs
+++ b/src/server/server.rs
@@ -254,15 +254,16 @@ fn loop_exec(mut tcp_stream: TcpStream, root: Arc<RwLock<Root>>, keepalive: i64,
                     log::error!("loop exec check stream failed! {}", err.to_string());
                     match tcp_stream.write("HTTP/1.1 500 Internal Server Error\r\n\r\n".as_bytes()) {
                         Ok(_) => {}
-                        Err(err) => {
-                            log::error!("loop exec check stream with write failed! {}", err.to_string());
-                            return;
-                        }
+                        Err(err) => log::error!("loop exec check stream with write failed! {}", err.to_string())
                     }
+                    return;
                 }
             };
         }
-        Err(err) => log::error!("server tcp stream clone in loop exec 1 failed! {}", err.to_string())
+        Err(err) => {
+            log::error!("server tcp stream clone in loop exec 1 failed! {}", err.to_string());
+            return;
+        }
     }
     // 当前线程开启循环读取stream操作
     loop {
@@ -277,7 +278,11 @@ fn loop_exec(mut tcp_stream: TcpStream, root: Arc<RwLock<Root>>, keepalive: i64,
                 let channel = channel.clone();
                 channel.send(Check::Update).unwrap_or(());
             }
-            Err(err) => log::error!("server tcp stream clone in loop exec 2 failed! {}", err.to_string())
+            Err(err) => {
+                log::error!("server tcp stream clone in loop exec 2 failed! {}", err.to_string());
+                channel.send(Check::Break).unwrap_or(());
+                return;
+            }
         }
     }
 }
-- 
2.43.0


From f1a0c148223c15ee42186b2a8eee106c4cbd97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 09/57] fix: a router group's rate limit applies to its routes

Only the group's filters were merged into a route; the limit handed to the same group was dropped.
---
 src/server/extend.rs | 10 +++++-----
 src/server/router.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/server/extend.rs b/src/server/extend.rs
index 8d4fb97..957983a 100644
--- a/src/server/extend.rs
+++ b/src/server/extend.rs
@@ -65,17 +65,17 @@ impl Extend {
 
     /// 扩展生成方法
     ///
-    /// 有过滤，有降级
-    pub(crate) fn e4(filters: Vec<Filter>, downgrade: Option<Downgrade>) -> Extend {
-        Extend { filters, limit: None, downgrade }
+    /// 有限流，有过滤，有降级
+    pub(crate) fn e4(filters: Vec<Filter>, limit: Option<Limit>, downgrade: Option<Downgrade>) -> Extend {
+        Extend { filters, limit, downgrade }
     }
 
     pub(crate) fn copy1(&self) -> Self {
         Extend { filters: self.filters.clone(), limit: self.limit.clone(), downgrade: self.downgrade.clone() }
     }
 
-    pub(crate) fn copy2(&self, filters: Vec<Filter>, downgrade: Option<Downgrade>) -> Self {
-        Extend { filters, limit: self.limit.clone(), downgrade }
+    pub(crate) fn copy2(&self, filters: Vec<Filter>, limit: Option<Limit>, downgrade: Option<Downgrade>) -> Self {
+        Extend { filters, limit: self.limit.clone().or(limit), downgrade }
     }
 
     /// 扩展执行
diff --git a/src/server/router.rs b/src/server/router.rs
index 0a055e9..147963c 100644
--- a/src/server/router.rs
+++ b/src/server/router.rs
@@ -74,7 +74,7 @@ impl Router {
                                 None => None
                             }
                         };
-                        extend_new = Some(src1.copy2(filters, downgrade))
+                        extend_new = Some(src1.copy2(filters, src2.limit, downgrade))
                     }
                     None => extend_new = Some(src1.copy1())
                 }
@@ -85,7 +85,7 @@ impl Router {
                         Some(src) => Some(src),
                         None => None
                     };
-                    extend_new = Some(Extend::e4(src2.filters, downgrade))
+                    extend_new = Some(Extend::e4(src2.filters, src2.limit, downgrade))
                 }
                 None => extend_new = None
             }
-- 
2.43.0


From 8052d12fc499a788729a1284da752f534aaba2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 10/57] fix: only the bytes that were received are parsed as
 the request

The zero padding of the read buffer was parsed too: a short request line was padded into the method or version, and a
POST whose body had not arrived yet underflowed the remaining size.
---
 src/http/requester.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 898042d..6053d68 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -251,7 +251,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                     return Err(Errs::str(SERVER_TCP_STREAM_HAD_NO_DATA));
                 }
                 size = src;
-                iter = buffer.iter()
+                iter = buffer[..src].iter()
             }
             Err(err) => return Err(self.interrupt(
                 Response::bad_request(),
-- 
2.43.0


From fd1c4e73ee098c4dc258204f4dc413a63a07807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 11/57] fix: a header is recorded when no space follows its
 colon or its value is empty

Such a line never entered the value state, so it and the line after it were merged into one bogus header.
---
 src/http/requester.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 6053d68..f71e3cd 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -377,8 +377,6 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         let mut key: String = String::from("");
         // 是否轮到key解析
         let mut key_time = true;
-        // 即将开始value解析
-        let mut pre_value_time = false;
         // 是否轮到value解析
         let mut value_time = false;
         // 是否结束解析。当连续出现两次"\n\r"后结束解析
@@ -391,25 +389,17 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                         b':' => if key_time {
                             key = String::from_utf8_lossy(&data).to_string();
                             key_time = false;
-                            pre_value_time = true;
+                            value_time = true;
+                            end_time = false;
                             data.clear()
                         } else {
                             data.push(*b)
                         }
-                        b' ' => if key_time {
-                            data.push(*b)
-                        } else if pre_value_time {
-                            end_time = false;
-                            pre_value_time = false;
-                            value_time = true
-                        } else if value_time {
-                            data.push(*b)
-                        },
                         b'\r' => {}
                         b'\n' => if end_time {
                             break;
                         } else if value_time {
-                            self.request.set_header(key.clone(), String::from_utf8_lossy(&data).to_string());
+                            self.request.set_header(key.clone(), String::from_utf8_lossy(&data).trim().to_string());
                             key.clear();
                             data.clear();
                             key_time = true;
-- 
2.43.0


From 1058291c288386ac714383d9408575050e5b297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 12/57] fix: a request body is exactly the announced number of
 bytes

Leading line breaks of a body were dropped, a body arriving after the head was ignored and later taken for a request,
and bytes past the announced length were read into it; an empty remainder underflowed the size.
---
 src/http/requester.rs | 44 +++++++++++--------------------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index f71e3cd..c4a4b6d 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -459,47 +459,26 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         Ok(())
     }
 
-    fn fill_body(&mut self, iter: &mut Iter<u8>, mut size: usize) -> StarryResult<()> {
+    fn fill_body(&mut self, iter: &mut Iter<u8>, size: usize) -> StarryResult<()> {
         match self.method() {
             Method::PATCH | Method::PUT | Method::POST => {
-                let mut bytes = vec![];
-                loop {
-                    match iter.next() {
-                        Some(b) => {
-                            match b {
-                                b'\r' | b'\n' => size -= 1,
-                                _ => {
-                                    bytes.push(*b);
-                                    size -= 1;
-                                    break;
-                                }
-                            }
-                        }
-                        None => return Ok(())
-                    }
-                }
-                // iter.next(); // 请求，过滤换行符
-                // size -= 1;
-
                 match self.request.header().get_content_length() {
                     Some(content_len) => match content_len.parse::<isize>() {
-                        Ok(mut len) => {
+                        Ok(len) => {
                             if len > 0 { // 读取到"Content-Length"大于0
-                                // 因为前面内容多读取了一个字节，所以len = len - 1
-                                len = len - 1;
                                 // Body数据存在，新建写流，将body数据进行填充
                                 let mut bw = BytesMut::new().writer();
-                                self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                                self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
+                                let mut count = size.min(iter.as_ref().len()).min(len as usize);
+                                self.write_bytes(bw.borrow_mut(), &iter.as_ref()[..count])?;
                                 let mut buffer = [0; 1024];
-                                let mut count = size;
-                                loop { // 将stream中数据全数读出到 self.body
-                                    if count as isize == len || size == 0 {
+                                while count < len as usize { // 将stream中属于本次请求的数据全数读出到 self.body
+                                    let want = buffer.len().min(len as usize - count);
+                                    let read = self.reread_stream(&mut buffer[..want])?;
+                                    if read == 0 {
                                         break;
                                     }
-                                    size = self.reread_stream(&mut buffer)?;
-                                    self.write_bytes(bw.borrow_mut(), &buffer[0..size])?;
-                                    count += size
+                                    self.write_bytes(bw.borrow_mut(), &buffer[..read])?;
+                                    count += read
                                 }
                                 self.request.set_body(bw.into_inner());
                             } else if len == 0 {  // 读取到"Content-Length"等于0
@@ -507,8 +486,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                             } else if len == -1 {  // 读取到"Content-Length"小于0
                                 // Body数据存在，长度未知，新建写流，将body数据进行填充
                                 let mut bw = BytesMut::new().writer();
-                                self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                                self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
+                                self.write_bytes(bw.borrow_mut(), &iter.as_ref()[..size.min(iter.as_ref().len())])?;
                                 let mut buf_all = Vec::new();
                                 match self.stream.read_to_end(&mut buf_all) {
                                     Ok(_) => {
-- 
2.43.0


From cc610467c5bb6c5a16284b3f707b2e0adce46a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 13/57] fix: a header line without a colon does not end the
 request head

The headers after it were taken for the body, or the line was merged into the name of the next header.
---
 src/http/requester.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index c4a4b6d..99b9bef 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -396,7 +396,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                             data.push(*b)
                         }
                         b'\r' => {}
-                        b'\n' => if end_time {
+                        b'\n' => if end_time && data.is_empty() {
                             break;
                         } else if value_time {
                             self.request.set_header(key.clone(), String::from_utf8_lossy(&data).trim().to_string());
@@ -405,6 +405,8 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                             key_time = true;
                             value_time = false;
                             end_time = true
+                        } else { // 没有':'的行不是有效header
+                            data.clear()
                         }
                         _ => data.push(*b),
                     }
-- 
2.43.0


From 929f401c9bbcd17d464ab5dd611036571812cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 14/57] fix: a short Authorization header is rejected instead
 of panicking

---
 src/http/url/authority/userinfo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/url/authority/userinfo.rs b/src/http/url/authority/userinfo.rs
index 840fa10..6a7ea47 100644
--- a/src/http/url/authority/userinfo.rs
+++ b/src/http/url/authority/userinfo.rs
@@ -65,7 +65,10 @@ impl Userinfo {
 
     /// 通过已知参数获取Userinfo
     pub(crate) fn from_basic(mut authorization: String) -> StarryResult<Userinfo> {
-        authorization = authorization[6..].to_string();
+        authorization = match authorization.get(6..) {
+            Some(src) => src.to_string(),
+            None => return Err(Errs::str("authorization is not basic!"))
+        };
         let bytes = Base64::decode(authorization)?;
         let mut username = String::from("");
         let password;
-- 
2.43.0


From 1d01931b3c017591bc1f8466f92cb72e46ab9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 15/57] fix: a colon in a Basic password belongs to the
 password

---
 src/http/url/authority/userinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/url/authority/userinfo.rs b/src/http/url/authority/userinfo.rs
index 6a7ea47..27d4b70 100644
--- a/src/http/url/authority/userinfo.rs
+++ b/src/http/url/authority/userinfo.rs
@@ -75,7 +75,7 @@ impl Userinfo {
         let mut data = vec![];
         for b in bytes {
             match b {
-                b':' => {
+                b':' if username.is_empty() => {
                     username = Strings::from_utf8(data.clone())?;
                     data.clear()
                 }
-- 
2.43.0


From 98d796e21eacc8dca029f018b2667cce82e53411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 16/57] fix: a trailing form field without '=' does not
 overwrite the field before it

---
 src/http/requester.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 99b9bef..b4a9e76 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -555,6 +555,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                 // self.form.set(key.clone(), value.clone());
                                 self.request.form_set(key.clone(), value);
                                 step = 1;
+                                key.clear();
                                 data.clear()
                             }
                         }
-- 
2.43.0


From 8b3d0d3646944287fe7efee4f65fc44a00503ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 17/57] fix: a Content-Type with non-ASCII text does not panic
 the boundary check

---
 src/http/header/content_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header/content_type.rs b/src/http/header/content_type.rs
index 83f3664..a41180e 100644
--- a/src/http/header/content_type.rs
+++ b/src/http/header/content_type.rs
@@ -164,7 +164,7 @@ impl ContentType {
             "application/pdf" => ContentType::APPLICATION_PDF,
             "application/msword" => ContentType::APPLICATION_MS_WORD,
             "application/x-www-form-urlencoded" => ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED,
-            _ => if src.len() > 30 && src[..30].eq("multipart/form-data; boundary=") {
+            _ => if src.len() > 30 && src.starts_with("multipart/form-data; boundary=") {
                 // multipart/form-data; boundary=--------------------------317111499693539547849948
                 // multipart/form-data： 需要在表单中进行文件上传时，就需要使用该格式
                 ContentType(Inner::MultipartFormData(src[30..].to_string()))
-- 
2.43.0


From 4882e12029836ac423cc82cd701ca56e4bd2c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 18/57] fix: a malformed multipart part is rejected instead of
 panicking

A short or missing name, filename or part type, and a part without content, sliced out of bounds.
---
 src/http/requester.rs | 44 ++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index b4a9e76..2bf6cb5 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -612,28 +612,32 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                         }
                                     }
                                     match vs.next() { // name
-                                        Some(src) => {
-                                            let res = src.trim();
-                                            let len = res.len() - 1;
-                                            name = res[6..len].to_string();
+                                        Some(src) => match quoted(src, "name=\"") {
+                                            Some(src) => name = src,
+                                            None => return Err(self.interrupt(
+                                                Response::bad_request(),
+                                                Errs::str("multipart/form-data body name parse failed!")))
                                         }
                                         None => return Err(self.interrupt(
                                             Response::bad_request(),
                                             Errs::str("multipart/form-data body name parse failed!")))
                                     }
                                     match vs.next() { // filename
-                                        Some(src) => {
-                                            let res = src.trim();
-                                            let len = res.len() - 1;
-                                            filename = res[10..len].to_string();
-                                            step = 5
+                                        Some(src) => match quoted(src, "filename=\"") {
+                                            Some(src) => {
+                                                filename = src;
+                                                step = 5
+                                            }
+                                            None => return Err(self.interrupt(
+                                                Response::bad_request(),
+                                                Errs::str("multipart/form-data body filename parse failed!")))
                                         }
                                         None => step = 3
                                     }
                                 }
                                 3 => step = 4,
                                 4 => if src.eq(start.as_str()) || src.eq(end.as_str()) {
-                                    content = content[..content.len() - 1].to_owned();
+                                    content.pop();
                                     let value = String::from_utf8_lossy(content.as_slice()).to_string();
                                     // self.form.set(name.clone(), value.clone());
                                     self.request.form_set(name.clone(), value);
@@ -643,8 +647,11 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                     tmp.push(b);
                                     content.append(&mut tmp)
                                 }
-                                5 => {
-                                    content_type = ContentType::from_str(&src[14..]);
+                                5 => if src.is_empty() { // 没有单独的类型
+                                    content_type = ContentType::default();
+                                    step = 7
+                                } else {
+                                    content_type = ContentType::from_str(src.get(14..).unwrap_or(""));
                                     step = 6
                                     // if src.eq("Content-Type: application/octet-stream") {
                                     //     step = 6
@@ -657,7 +664,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                     step = 7
                                 }
                                 7 => if src.eq(start.as_str()) || src.eq(end.as_str()) {
-                                    content = content[..content.len() - 1].to_owned();
+                                    content.pop();
                                     self.request.multipart_form_insert(name.clone(),
                                                                        filename.clone(),
                                                                        content.clone(),
@@ -761,6 +768,17 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
     }
 }
 
+/// 获取form-data中形如`name="1"`的值
+fn quoted(src: &str, prefix: &str) -> Option<String> {
+    match src.trim().strip_prefix(prefix) {
+        Some(src) => match src.strip_suffix("\"") {
+            Some(src) => Some(src.to_string()),
+            None => None
+        }
+        None => None
+    }
+}
+
 #[cfg(test)]
 mod requester_test {
     use std::borrow::BorrowMut;
-- 
2.43.0


From 7eb13f2fd0f59c4a1bfea45877ca4d944030fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 19/57] fix: carriage returns inside a multipart value or file
 are kept

Every CR byte of the body was dropped, which corrupted uploaded binary files and CRLF text.
---
 src/http/requester.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 2bf6cb5..255f925 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -586,7 +586,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                 for b in body {
                     match b {
                         b'\n' => { // 发现换行符启动验证
-                            let src = String::from_utf8_lossy(tmp.as_slice()).to_string();
+                            let src = String::from_utf8_lossy(tmp.strip_suffix(b"\r").unwrap_or(tmp.as_slice())).to_string();
                             match step {
                                 1 => if src.eq(start.as_str()) {
                                     step = 2;
@@ -638,6 +638,9 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                 3 => step = 4,
                                 4 => if src.eq(start.as_str()) || src.eq(end.as_str()) {
                                     content.pop();
+                                    if content.ends_with(b"\r") {
+                                        content.pop();
+                                    }
                                     let value = String::from_utf8_lossy(content.as_slice()).to_string();
                                     // self.form.set(name.clone(), value.clone());
                                     self.request.form_set(name.clone(), value);
@@ -665,6 +668,9 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                 }
                                 7 => if src.eq(start.as_str()) || src.eq(end.as_str()) {
                                     content.pop();
+                                    if content.ends_with(b"\r") {
+                                        content.pop();
+                                    }
                                     self.request.multipart_form_insert(name.clone(),
                                                                        filename.clone(),
                                                                        content.clone(),
@@ -679,7 +685,6 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                             }
                             tmp.clear()
                         }
-                        b'\r' => {} // 回车符什么也不做
                         _ => tmp.push(b)
                     }
                 }
-- 
2.43.0


From ea561fd7969ae169465c9bf0024f5da21e16f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 20/57] fix: the last multipart field is kept when no line
 break follows the closing boundary

---
 src/http/requester.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 255f925..d7c76bb 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -583,7 +583,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                 // 1:start -> 2:Content-Disposition: form-data; name="1" -> 3:"" -> 4:value
                 // 1:start -> 2:Content-Disposition: form-data; name="1"; filename="file.txt" -> 3:"" -> 5:file
                 let mut step: u8 = 1;
-                for b in body {
+                for b in body.into_iter().chain(std::iter::once(b'\n')) { // 结尾的换行符不是必须的
                     match b {
                         b'\n' => { // 发现换行符启动验证
                             let src = String::from_utf8_lossy(tmp.strip_suffix(b"\r").unwrap_or(tmp.as_slice())).to_string();
@@ -645,6 +645,9 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                     // self.form.set(name.clone(), value.clone());
                                     self.request.form_set(name.clone(), value);
                                     content.clear();
+                                    if src.eq(end.as_str()) {
+                                        break;
+                                    }
                                     step = 2;
                                 } else {
                                     tmp.push(b);
@@ -676,6 +679,9 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                                                                        content.clone(),
                                                                        content_type.clone());
                                     content.clear();
+                                    if src.eq(end.as_str()) {
+                                        break;
+                                    }
                                     step = 2
                                 } else {
                                     tmp.push(b);
-- 
2.43.0


From d18d78d246406b8891a1b1552444b293efde47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 21/57] fix: '&' and '#' in a path, and '=' in a query value,
 are not lost

/a&b became /b with a bogus query field, /a#f became /, and k=x=y lost k.
---
 src/http/url/location.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/http/url/location.rs b/src/http/url/location.rs
index 263410c..73463cf 100644
--- a/src/http/url/location.rs
+++ b/src/http/url/location.rs
@@ -60,6 +60,8 @@ impl Location {
         let mut step = 1; // 1:path -> 2:query -> 3:fragment
         let mut data: Vec<u8> = vec![];
         let mut key: String = String::from("");
+        // 当前查询参数是否已经解析出key
+        let mut key_done = false;
         let mut path: String = String::from("");
         let mut query = Values::new();
         let mut fragment = None;
@@ -83,23 +85,36 @@ impl Location {
                     }
                 }
                 b'=' => {
-                    if step == 2 {
+                    if step == 2 && !key_done {
                         key = String::from_utf8_lossy(&data).to_string();
+                        key_done = true;
                         data.clear()
                     } else {
                         data.push(b)
                     }
                 }
                 b'&' => {
-                    query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
-                    key.clear();
-                    data.clear()
+                    if step == 2 {
+                        query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
+                        key.clear();
+                        key_done = false;
+                        data.clear()
+                    } else {
+                        data.push(b)
+                    }
                 }
                 b'#' => {
-                    query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
-                    key.clear();
-                    data.clear();
-                    step = 3;
+                    if step == 1 {
+                        path = path + String::from_utf8_lossy(&data).as_ref();
+                        step = 3;
+                        data.clear()
+                    } else if step == 2 {
+                        query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
+                        step = 3;
+                        data.clear()
+                    } else {
+                        data.push(b)
+                    }
                 }
                 b'\r' => {
                     if step == 1 {
-- 
2.43.0


From b207a5cbb56a113a57d83edc49a1125c9d7ae24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 22/57] fix: the request line always carries a path and never
 the fragment

A request for / or for a bare host was sent as 'GET  HTTP/1.0'.
---
 src/http/responser.rs    | 2 +-
 src/http/url/location.rs | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index 9688a7a..a23d9e1 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -308,7 +308,7 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         // 状态行
         self.write(request.method.as_str().as_bytes())?;
         self.write(b" ")?;
-        self.write(request.url.location.to_string().as_bytes())?;
+        self.write(request.url.location.target().as_bytes())?;
         self.write(b" ")?;
         self.write(request.version.as_slice())?;
         self.write(b"\r\n")?;
diff --git a/src/http/url/location.rs b/src/http/url/location.rs
index 73463cf..77184ef 100644
--- a/src/http/url/location.rs
+++ b/src/http/url/location.rs
@@ -132,6 +132,15 @@ impl Location {
         Location { path, query, fragment }
     }
 
+    /// 请求行中的资源定位，不包含片段
+    pub(crate) fn target(&self) -> String {
+        let path = if self.path.is_empty() { String::from("/") } else { self.path.clone() };
+        match self.query_string() {
+            Some(query) => path + "?" + &query,
+            None => path
+        }
+    }
+
     fn query_string(&self) -> Option<String> {
         let size = self.query.len();
         if size == 0 {
-- 
2.43.0


From a6323e08122e1213bfdbd9ee349c764ef6afc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 23/57] fix: a partially accepted write does not truncate the
 request

---
 src/http/responser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index a23d9e1..d883d00 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -332,9 +332,9 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         }
     }
 
-    fn write(&mut self, buf: &[u8]) -> StarryResult<usize> {
-        match self.stream.write(buf) {
-            Ok(src) => Ok(src),
+    fn write(&mut self, buf: &[u8]) -> StarryResult<()> {
+        match self.stream.write_all(buf) {
+            Ok(_) => Ok(()),
             Err(err) => Err(Errs::strs("stream write to request failed!", err)),
         }
     }
-- 
2.43.0


From 9ef80ef6ce36c4c982716bd22ee9ca2531bfc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 24/57] fix: responses whose reason phrase has several words
 are accepted

'404 Not Found' made the client fail.
---
 src/http/responser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index d883d00..f328050 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -137,7 +137,7 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
                                 }
                                 Err(err) => return Err(Errs::strs("parse response status code failed!", err))
                             }
-                            _ => return Err(Errs::str("parse response failed!"))
+                            _ => data.push(*b)
                         }
                         b'\r' | b'\n' => match step {
                             3 => match status_op.clone() { // OK
-- 
2.43.0


From 8e7b452620dfc2be4bdd20bc021c98f3ea94088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 25/57] fix: response headers are read like request headers,
 and repeated ones are all kept

A header without a space after its colon was merged into the next one; of several Set-Cookie only the last survived.
---
 src/http/responser.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index f328050..7338d3b 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -173,8 +173,6 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         let mut key: String = String::from("");
         // 是否轮到key解析
         let mut key_time = true;
-        // 即将开始value解析
-        let mut pre_value_time = false;
         // 是否轮到value解析
         let mut value_time = false;
         // 是否结束解析。当连续出现两次"\n\r"后结束解析
@@ -187,30 +185,24 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
                         b':' => if key_time {
                             key = String::from_utf8_lossy(&data).to_string();
                             key_time = false;
-                            pre_value_time = true;
+                            value_time = true;
+                            end_time = false;
                             data.clear()
                         } else {
                             data.push(*b)
                         }
-                        b' ' => if key_time {
-                            data.push(*b)
-                        } else if pre_value_time {
-                            end_time = false;
-                            pre_value_time = false;
-                            value_time = true
-                        } else if value_time {
-                            data.push(*b)
-                        },
                         b'\r' => {}
-                        b'\n' => if end_time {
+                        b'\n' => if end_time && data.is_empty() {
                             break;
                         } else if value_time {
-                            self.response.set_header(key.clone(), String::from_utf8_lossy(&data).to_string());
+                            self.response.add_header(key.clone(), String::from_utf8_lossy(&data).trim().to_string());
                             key.clear();
                             data.clear();
                             key_time = true;
                             value_time = false;
                             end_time = true
+                        } else { // 没有':'的行不是有效header
+                            data.clear()
                         }
                         _ => data.push(*b),
                     }
-- 
2.43.0


From 05fd83eb80f3facf4cda063433487b0a78f70228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 26/57] fix: a response body is exactly its Content-Length
 bytes, or everything up to the close

Leading line breaks were dropped, bytes past the length were kept, and a body without a length was lost.
---
 src/http/responser.rs | 62 ++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index 7338d3b..9d8cd77 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -225,54 +225,26 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         }
     }
 
-    fn fill_body(&mut self, iter: &mut Iter<u8>, mut size: usize) -> StarryResult<()> {
-        let mut bytes = vec![];
-        loop {
-            match iter.next() {
-                Some(b) => {
-                    match b {
-                        b'\r' | b'\n' => size -= 1,
-                        _ => {
-                            bytes.push(*b);
-                            size -= 1;
-                            break;
-                        }
-                    }
-                }
-                None => return Ok(())
-            }
-        }
-        // iter.next(); // 请求，过滤换行符
-        // size -= 1;
-
-        match self.response.header.get_content_length() {
+    fn fill_body(&mut self, iter: &mut Iter<u8>, size: usize) -> StarryResult<()> {
+        let rest = &iter.as_ref()[..size.min(iter.as_ref().len())];
+        let body = match self.response.header.get_content_length() {
             Some(content_len) => match content_len.parse::<isize>() {
-                Ok(mut len) => {
-                    if len > 0 { // 读取到"Content-Length"大于0
-                        // 因为前面内容多读取了一个字节，所以len = len - 1
-                        len = len - 1;
-                        // Body数据存在，新建写流，将body数据进行填充
-                        let mut bw = BytesMut::new().writer();
-                        self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                        self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
-                        self.response.set_body(bw.into_inner());
-                    } else if len == 0 {  // 读取到"Content-Length"等于0
-                        return Ok(());
-                    } else if len == -1 {  // 读取到"Content-Length"小于0
-                        // Body数据存在，长度未知，新建写流，将body数据进行填充
-                        let mut bw = BytesMut::new().writer();
-                        self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                        self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
-                        self.response.set_body(bw.into_inner());
-                    } else {
-                        return Err(Errs::string(format!("content len {} invalid from header failed!", len)));
-                    }
-                    Ok(())
-                }
+                Ok(len) => if len >= 0 { // 读取"Content-Length"指定长度
+                    &rest[..rest.len().min(len as usize)]
+                } else if len == -1 { // 长度未知，读取到连接关闭为止
+                    rest
+                } else {
+                    return Err(Errs::string(format!("content len {} invalid from header failed!", len)));
+                },
                 Err(err) => return Err(Errs::strings(format!("content len {} parse usize from header failed!", content_len), err))
             },
-            None => return Ok(())
-        }
+            None => rest // 长度未知，读取到连接关闭为止
+        };
+        // Body数据存在，新建写流，将body数据进行填充
+        let mut bw = BytesMut::new().writer();
+        self.write_bytes(bw.borrow_mut(), body)?;
+        self.response.set_body(bw.into_inner());
+        Ok(())
     }
 
     fn write_bytes(&mut self, bw: &mut Writer<BytesMut>, src: &[u8]) -> StarryResult<usize> {
-- 
2.43.0


From 929dfe26e2ed73abb06fe60a57cf4c821b11f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 27/57] fix: a url without a scheme keeps the first character
 of its host

The character that told 'example.com' from 'http' was consumed.
---
 src/http/url/url.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/http/url/url.rs b/src/http/url/url.rs
index 2417ce4..a9ce093 100644
--- a/src/http/url/url.rs
+++ b/src/http/url/url.rs
@@ -90,6 +90,7 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.push(*src);
                         break;
                     }
                     1 => if src.eq(&b't') {
@@ -99,6 +100,7 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.push(*src);
                         break;
                     }
                     2 => if src.eq(&b't') {
@@ -108,6 +110,7 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.push(*src);
                         break;
                     }
                     3 => if src.eq(&b'p') {
@@ -117,6 +120,7 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.push(*src);
                         break;
                     }
                     4 => if src.eq(&b':') {
-- 
2.43.0


From db3cf7c8b887f6638302e33143f1000e638570dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 28/57] fix: a url without a path keeps its port, and https
 with user info defaults to 443

'http://host:8080' was taken for host 8080.
---
 src/http/url/url.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/http/url/url.rs b/src/http/url/url.rs
index a9ce093..75d8d24 100644
--- a/src/http/url/url.rs
+++ b/src/http/url/url.rs
@@ -246,9 +246,13 @@ impl URL {
                     _ => tmp.push(*src)
                 },
                 None => {
-                    // 解析到头则只存在情况：example.com
-                    // 此时如果用户名为空，则port默认80
-                    if scheme.eq(&Scheme::HTTPS) {
+                    if !key.is_empty() {
+                        // 解析到头则只存在情况：example.com:123
+                        match String::from_utf8_lossy(tmp.as_slice()).to_string().parse::<u16>() {
+                            Ok(src) => addr = Addr::from(key.clone(), src),
+                            Err(err) => return Err(Errs::strs("url protocol parse port failed!", err))
+                        }
+                    } else if scheme.eq(&Scheme::HTTPS) {
                         addr = Addr::from(String::from_utf8_lossy(tmp.as_slice()).to_string(), 443);
                     } else {
                         addr = Addr::from(String::from_utf8_lossy(tmp.as_slice()).to_string(), 80);
@@ -274,7 +278,11 @@ impl URL {
                             }
                             b'/' => if key.is_empty() { // 如果host为空，解析到"/"说明不存在port
                                 key.push_str(String::from_utf8_lossy(tmp.as_slice()).as_ref());
-                                addr = Addr::from(key.clone(), 80);
+                                if scheme.eq(&Scheme::HTTPS) {
+                                    addr = Addr::from(key.clone(), 443);
+                                } else {
+                                    addr = Addr::from(key.clone(), 80);
+                                }
                                 tmp.clear();
                                 // 追加新解析内容
                                 tmp.push(b'/');
-- 
2.43.0


From 2016d8124ffc2d30c623b6b50eacd74dcfcb9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 29/57] fix: the ipv6 address of a request is its ipv6 address

---
 src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 334b8b8..acb7dd0 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -188,7 +188,7 @@ impl Request {
     }
 
     pub fn socket_addr_ipv6(&self) -> StarryResult<SocketAddr> {
-        self.url.authority.addr.socket_addr_ipv4()
+        self.url.authority.addr.socket_addr_ipv6()
     }
 
     pub fn path(&self) -> String {
-- 
2.43.0


From 4490dc14ed4c724441913c7d3d6d70f0dd3cbacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 30/57] fix: the client address of a request is the peer's, not
 the server's own

---
 src/server/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/context.rs b/src/server/context.rs
index f7dd7b6..6b76009 100644
--- a/src/server/context.rs
+++ b/src/server/context.rs
@@ -64,7 +64,7 @@ impl Context {
     }
 
     pub fn req_client_addr(&self) -> Addr {
-        self.requester.addr()
+        self.requester.client()
     }
 
     /// 如果请求头指示客户端正在发起websocket握手，则IsWebsocket返回true
-- 
2.43.0


From b2c998e4ed316a3d4f50edd6fae2b375bcec9a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 31/57] fix: a request is answered once, also when its form is
 malformed

---
 src/server/context.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/server/context.rs b/src/server/context.rs
index 6b76009..888a6d1 100644
--- a/src/server/context.rs
+++ b/src/server/context.rs
@@ -106,7 +106,8 @@ impl Context {
         K: Borrow<K>,
         K: Hash + Eq,
         String: Borrow<K>, {
-        self.requester.form_value(k)
+        let res = self.requester.form_value(k);
+        self.parsed(res)
     }
 
     /// 返回对应于请求表单中定义的参数存在性。
@@ -114,12 +115,14 @@ impl Context {
         K: Borrow<K>,
         K: Hash + Eq,
         String: Borrow<K>, {
-        self.requester.have_form_value(k)
+        let res = self.requester.have_form_value(k);
+        self.parsed(res)
     }
 
     /// 请求表单中定义的参数数量
     pub fn req_count_form(&mut self) -> StarryResult<usize> {
-        self.requester.count_form_value()
+        let res = self.requester.count_form_value();
+        self.parsed(res)
     }
 
     /// 返回对应于URI请求参数中定义参数值的引用。
@@ -176,7 +179,16 @@ impl Context {
         K: Borrow<K>,
         K: Hash + Eq,
         String: Borrow<K>, {
-        Ok(self.requester.multipart_form()?.get(k))
+        let res = self.requester.form_file_value(k);
+        self.parsed(res)
+    }
+
+    /// 表单解析失败时已经向客户端返回错误应答，不能再次执行应答
+    fn parsed<T>(&mut self, res: StarryResult<T>) -> StarryResult<T> {
+        if res.is_err() {
+            self.executed = true
+        }
+        res
     }
 }
 
@@ -235,6 +247,9 @@ impl Context {
     }
 
     pub fn response(&mut self) {
+        if self.executed {
+            return;
+        }
         self.executed = true;
         match self.requester.response(self.response.clone()) {
             Ok(()) => {}
-- 
2.43.0


From 86fb89a58d4f2448b449935f649ec0f25421fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 32/57] fix: a websocket handshake is recognised whatever the
 case of its headers

---
 src/server/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/context.rs b/src/server/context.rs
index 888a6d1..f69a323 100644
--- a/src/server/context.rs
+++ b/src/server/context.rs
@@ -79,13 +79,13 @@ impl Context {
     /// ```
     pub fn req_is_web_socket(&self) -> bool {
         match self.req_header_get("Connection") {
-            Some(src) => if src.ne("upgrade") {
+            Some(src) => if !src.split(",").any(|src| src.trim().eq_ignore_ascii_case("upgrade")) {
                 return false;
             },
             None => return false,
         }
         match self.req_header_get("Upgrade") {
-            Some(src) => if src.eq("websocket") {
+            Some(src) => if src.eq_ignore_ascii_case("websocket") {
                 return true;
             },
             None => return false,
-- 
2.43.0


From e6a149a20f5e29f97d6a5e361aa79f58293000b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 33/57] fix: an error response on a kept-alive connection
 announces its empty body

---
 src/http/requester.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index d7c76bb..22744ec 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -768,7 +768,8 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
     }
 
     /// 中断操作，返回报错和对应应答
-    fn interrupt(&mut self, response: Response, error: Error) -> Error {
+    fn interrupt(&mut self, mut response: Response, error: Error) -> Error {
+        response.header.set_content_length(0);
         match self.response(response) {
             Ok(()) => error,
             Err(err) => {
-- 
2.43.0


From e8c1cb96d966907c2ee783ba11a5d6b2e0b0aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 34/57] fix: a compressed body is labelled with
 Content-Encoding, an uncompressed one is not

---
 src/http/header/header.rs | 8 ++++++--
 src/http/response.rs      | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index bfb60a6..f496c29 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -77,12 +77,16 @@ impl Header {
         self.del("Content-Type")
     }
 
-    pub(crate) fn set_accept_encoding(&mut self, encode_type: AcceptEncoding) {
+    pub(crate) fn set_content_encoding(&mut self, encode_type: AcceptEncoding) {
         if encode_type.ne("") && encode_type.ne("br") {
-            self.set("Accept-Encoding".to_string(), encode_type.to_string())
+            self.set("Content-Encoding".to_string(), encode_type.to_string())
         }
     }
 
+    pub(crate) fn del_content_encoding(&mut self) -> Option<String> {
+        self.del("Content-Encoding")
+    }
+
     pub(crate) fn get_accept_encoding(&self) -> Option<AcceptEncoding> {
         match self.get("Accept-Encoding") {
             Some(src) => AcceptEncoding::best(src),
diff --git a/src/http/response.rs b/src/http/response.rs
index 90a3f36..fe0be0a 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -89,12 +89,15 @@ impl Response {
     fn set_this_encode(&mut self, content_length: usize, content_type: ContentType, accept_encoding: AcceptEncoding) {
         self.header.set_content_length(content_length);
         self.header.set_content_type(content_type);
-        self.header.set_accept_encoding(accept_encoding)
+        self.header.set_content_encoding(accept_encoding)
     }
 
     fn set_this(&mut self, content_length: usize, content_type: ContentType) {
         self.header.set_content_length(content_length);
         self.header.set_content_type(content_type);
+        if self.compress { // 不再是之前写入的压缩数据
+            self.header.del_content_encoding();
+        }
     }
 
     pub(crate) fn set_body(&mut self, bm: BytesMut) {
-- 
2.43.0


From 490600157cd002362cdc0a6e39c032d25de6f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 35/57] fix: header names are recognised whatever their case

---
 src/http/header/header.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index f496c29..043d62b 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -21,14 +21,27 @@ use crate::utils::errors::StarryResult;
 pub type Header = Values;
 
 impl Header {
+    /// 返回指定header的所有值，header名称大小写不敏感
+    fn find(&self, name: &str) -> Option<Vec<String>> {
+        match self.vec(name) {
+            Some(src) => Some(src),
+            None => self.map().into_iter().find(|(key, _)| key.eq_ignore_ascii_case(name)).map(|(_, values)| values)
+        }
+    }
+
+    /// 返回指定header的第一个值，header名称大小写不敏感
+    fn find_first(&self, name: &str) -> Option<String> {
+        self.find(name).map(|values| values[0].clone())
+    }
+
     /// read_cookie 解析头header中的所有“Cookie”值，并返回成功解析的Cookie。
     /// 如果filter不为空，则只返回该名称的cookie
     pub(crate) fn read_cookies(&self) -> StarryResult<Vec<Cookie>> {
-        Cookie::read_cookies(self.vec("Cookie"), "")
+        Cookie::read_cookies(self.find("Cookie"), "")
     }
 
     pub(crate) fn read_set_cookies(&self) -> StarryResult<Vec<Cookie>> {
-        Cookie::read_set_cookies(self.vec("Set-Cookie"))
+        Cookie::read_set_cookies(self.find("Set-Cookie"))
     }
 
     pub fn add_set_cookie(&mut self, cookie: Cookie) {
@@ -40,7 +53,7 @@ impl Header {
     }
 
     pub(crate) fn get_content_length(&self) -> Option<String> {
-        self.get("Content-Length")
+        self.find_first("Content-Length")
     }
 
     pub(crate) fn del_content_length(&mut self) -> Option<String> {
@@ -48,7 +61,7 @@ impl Header {
     }
 
     pub(crate) fn get_userinfo(&self) -> StarryResult<Option<Userinfo>> {
-        match self.get("Authorization") {
+        match self.find_first("Authorization") {
             Some(src) => match Userinfo::from_basic(src.to_string()) {
                 Ok(src) => Ok(Some(src)),
                 Err(err) => Err(err)
@@ -58,7 +71,7 @@ impl Header {
     }
 
     pub(crate) fn get_host(&self) -> Option<String> {
-        self.get("Host")
+        self.find_first("Host")
     }
 
     pub(crate) fn set_connection(&mut self) {
@@ -70,7 +83,7 @@ impl Header {
     }
 
     pub(crate) fn get_content_type(&self) -> Option<String> {
-        self.get("Content-Type")
+        self.find_first("Content-Type")
     }
 
     pub(crate) fn del_content_type(&mut self) -> Option<String> {
@@ -88,7 +101,7 @@ impl Header {
     }
 
     pub(crate) fn get_accept_encoding(&self) -> Option<AcceptEncoding> {
-        match self.get("Accept-Encoding") {
+        match self.find_first("Accept-Encoding") {
             Some(src) => AcceptEncoding::best(src),
             None => None
         }
@@ -105,7 +118,7 @@ impl Header {
         }
         let close;
         // 检查header是否存在'close'
-        match self.get("Connection") {
+        match self.find_first("Connection") {
             Some(src) => match src.as_str() {
                 "close" => close = true,
                 "keep-alive" => close = false,
-- 
2.43.0


From 386e21e2921473ebf5d20d0134ead83482333924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 36/57] fix: an error response is an HTTP/1.1 response

---
 src/http/response.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http/response.rs b/src/http/response.rs
index fe0be0a..589a734 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -341,7 +341,7 @@ impl Response {
 
 fn fill(status: Status) -> Response {
     Response {
-        version: Default::default(),
+        version: Version::HTTP_11,
         status,
         header: Header::new(),
         cookies: vec![],
@@ -354,7 +354,7 @@ fn fill(status: Status) -> Response {
 impl Default for Response {
     fn default() -> Self {
         Self {
-            version: Default::default(),
+            version: Version::HTTP_11,
             status: Status::BAD_REQUEST,
             header: Header::new(),
             cookies: vec![],
-- 
2.43.0


From c28e5c9b193c8c63061054d4399c07083edfa6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 37/57] fix: SameSite=None is read back from a cookie

---
 src/http/header/cookie.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header/cookie.rs b/src/http/header/cookie.rs
index 08857f4..d5f748a 100644
--- a/src/http/header/cookie.rs
+++ b/src/http/header/cookie.rs
@@ -158,7 +158,7 @@ impl Cookie {
                             "httponly" => cookie.httponly = true,
                             "samesite" => cookie.same_site = if parts_len == 2 {
                                 match parts[1].to_lowercase().as_str() {
-                                    "node" => Some(SameSite::None),
+                                    "none" => Some(SameSite::None),
                                     "strict" => Some(SameSite::Strict),
                                     "lax" => Some(SameSite::Lax),
                                     _ => None
-- 
2.43.0


From a5eeb591e3e68246ebef62c44e2372e4da9cbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 38/57] fix: a cookie value may contain '='

---
 src/http/header/cookie.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/http/header/cookie.rs b/src/http/header/cookie.rs
index d5f748a..76dbf6f 100644
--- a/src/http/header/cookie.rs
+++ b/src/http/header/cookie.rs
@@ -121,11 +121,8 @@ impl Cookie {
                     let mut cookie = Cookie::default();
                     let res = s.trim().split(";");
                     for v in res {
-                        let parts: Vec<&str> = v.trim().split("=").collect();
+                        let parts: Vec<&str> = v.trim().splitn(2, "=").collect();
                         let parts_len = parts.len();
-                        if parts_len > 2 {
-                            return Err(Errs::string(format!("cookie's value invalid! can not support {}", v)));
-                        }
                         let key = parts[0].to_string();
                         match key.to_lowercase().as_str() {
                             "path" => cookie.path = if parts_len == 2 {
@@ -191,7 +188,7 @@ impl Cookie {
                 for s in src {
                     let res = s.trim().split(";");
                     for v in res {
-                        let kv: Vec<&str> = v.trim().split("=").collect();
+                        let kv: Vec<&str> = v.trim().splitn(2, "=").collect();
                         if kv.len() != 2 {
                             return Err(Errs::string(format!("cookie's value invalid! can not support {}", v)));
                         }
-- 
2.43.0


From ffda02f9a7c69c7d9f82e72db5e2b5b7ab249370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 39/57] fix: an unknown cookie attribute does not replace the
 cookie's name and value

---
 src/http/header/cookie.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header/cookie.rs b/src/http/header/cookie.rs
index 76dbf6f..cca9d45 100644
--- a/src/http/header/cookie.rs
+++ b/src/http/header/cookie.rs
@@ -163,7 +163,7 @@ impl Cookie {
                             } else {
                                 None
                             },
-                            _ => if parts_len == 2 {
+                            _ => if parts_len == 2 && cookie.name.is_empty() {
                                 cookie.name = key;
                                 cookie.value = parts[1].to_string();
                             } else {
-- 
2.43.0


From 8f7c44353057a0740db563ccf2d72501852bacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 40/57] fix: an encoding after a comma and a space is
 recognised

---
 src/http/header/encode_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header/encode_type.rs b/src/http/header/encode_type.rs
index 5a9744a..d7892b0 100644
--- a/src/http/header/encode_type.rs
+++ b/src/http/header/encode_type.rs
@@ -26,7 +26,7 @@ impl AcceptEncoding {
         let mut res = None;
         let split = src.trim().split(",");
         for src in split {
-            let this = AcceptEncoding::from(src);
+            let this = AcceptEncoding::from(src.trim());
             if this.ne("") {
                 if this.eq(&AcceptEncoding::GZip) {
                     res = Some(AcceptEncoding::GZip);
-- 
2.43.0


From 81a64ed3b43be8742933fc92a1052a13cccc6f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 41/57] fix: the reason phrase of 203 is Non-Authoritative
 Information

---
 src/http/status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/status.rs b/src/http/status.rs
index 692d57b..f30faaf 100644
--- a/src/http/status.rs
+++ b/src/http/status.rs
@@ -63,7 +63,7 @@ impl Status {
     /// 非授权信息：服务器已成功处理了请求，但返回的信息可能来自另一来源。
     ///
     /// 参见[[RFC7231, Section 6.3.4](https://tools.ietf.org/html/rfc7231#section-6.3.4)]
-    pub const NON_AUTHORITATIVE_INFORMATION: Status = Status(203, "Non Authoritative Information");
+    pub const NON_AUTHORITATIVE_INFORMATION: Status = Status(203, "Non-Authoritative Information");
     /// 204 No Content
     ///
     /// 无内容：服务器成功处理了请求，但没有 返回任何内容。
-- 
2.43.0


From b45c80957f955a88c1df3bbaa85998bf39edfc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 42/57] fix: a request head is read to its end, not only as far
 as the first read

---
 src/http/requester.rs | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 22744ec..8b5c5bf 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -32,6 +32,9 @@ use crate::http::version::Protocol;
 use crate::server::node::{Node, Root};
 use crate::utils::errors::{Error, Errs, StarryResult};
 
+/// 请求头的最大长度
+const HEAD_MAX: usize = 64 * 1024;
+
 pub(crate) const SERVER_TCP_STREAM_HAD_NO_DATA: &str = "server request tcp stream had no data!";
 
 /// [`Request`]的封装
@@ -239,24 +242,35 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
     /// 解析请求行信息
     fn parse(&mut self, root: Arc<RwLock<Root>>, peer: Addr, local: Addr) -> StarryResult<(Node, HashMap<String, String>)> {
         let mut buffer = [0; 1024];
-        let mut iter;
+        // 请求头可能分多次到达，读到空行为止
+        let mut head: Vec<u8> = vec![];
         // 当前读取总长度
         let mut count = 0;
-        // 剩余待读取数据的总长度
-        let mut size;
-        match self.stream.read(&mut buffer) {
-            Ok(src) => {
-                log::trace!("request stream read size = {}", src);
-                if src == 0 { // 没有数据进入
-                    return Err(Errs::str(SERVER_TCP_STREAM_HAD_NO_DATA));
+        while !head_complete(&head) {
+            if head.len() > HEAD_MAX {
+                return Err(self.interrupt(
+                    Response::bad_request(),
+                    Errs::str("the head of the request is too large!")));
+            }
+            match self.stream.read(&mut buffer) {
+                Ok(src) => {
+                    log::trace!("request stream read size = {}", src);
+                    if src == 0 {
+                        if head.is_empty() { // 没有数据进入
+                            return Err(Errs::str(SERVER_TCP_STREAM_HAD_NO_DATA));
+                        }
+                        break;
+                    }
+                    head.extend_from_slice(&buffer[..src]);
                 }
-                size = src;
-                iter = buffer[..src].iter()
+                Err(err) => return Err(self.interrupt(
+                    Response::bad_request(),
+                    Errs::strs("read failed while parse request with error!", err)))
             }
-            Err(err) => return Err(self.interrupt(
-                Response::bad_request(),
-                Errs::strs("read failed while parse request with error!", err)))
         }
+        // 剩余待读取数据的总长度
+        let mut size = head.len();
+        let mut iter = head.iter();
 
         // 解析请求行信息 POST /path/data?key=value&key2=value2 HTTP/1.1
         let (location, len) = self.parse_request_line(iter.borrow_mut())?;
@@ -780,6 +794,11 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
     }
 }
 
+/// 是否已读到请求头末尾的空行
+fn head_complete(head: &[u8]) -> bool {
+    head.windows(2).any(|w| w == b"\n\n") || head.windows(3).any(|w| w == b"\n\r\n")
+}
+
 /// 获取form-data中形如`name="1"`的值
 fn quoted(src: &str, prefix: &str) -> Option<String> {
     match src.trim().strip_prefix(prefix) {
-- 
2.43.0


From d45d1767bcc2998aa6ea62c6913f3688d3d79668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 43/57] fix: Basic credentials with an empty user name are
 refused also when the password has colons

---
 src/http/url/authority/userinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/url/authority/userinfo.rs b/src/http/url/authority/userinfo.rs
index 27d4b70..189e50b 100644
--- a/src/http/url/authority/userinfo.rs
+++ b/src/http/url/authority/userinfo.rs
@@ -71,12 +71,14 @@ impl Userinfo {
         };
         let bytes = Base64::decode(authorization)?;
         let mut username = String::from("");
+        let mut split = false;
         let password;
         let mut data = vec![];
         for b in bytes {
             match b {
-                b':' if username.is_empty() => {
+                b':' if !split => {
                     username = Strings::from_utf8(data.clone())?;
+                    split = true;
                     data.clear()
                 }
                 _ => data.push(b)
-- 
2.43.0


From 466e17c492d0e0955e75dc714596b5db2a11b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 44/57] fix: a url whose host or user is a short prefix of
 http(s) keeps its parts

---
 src/http/url/url.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/http/url/url.rs b/src/http/url/url.rs
index 75d8d24..9641489 100644
--- a/src/http/url/url.rs
+++ b/src/http/url/url.rs
@@ -98,9 +98,10 @@ impl URL {
                         tmp.push(b't');
                         read_count += 1;
                     } else {
-                        // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
+                        // 非"http"协议起始，从头解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
-                        tmp.push(*src);
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     2 => if src.eq(&b't') {
@@ -108,9 +109,10 @@ impl URL {
                         tmp.push(b't');
                         read_count += 1;
                     } else {
-                        // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
+                        // 非"http"协议起始，从头解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
-                        tmp.push(*src);
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     3 => if src.eq(&b'p') {
@@ -118,9 +120,10 @@ impl URL {
                         tmp.push(b'p');
                         read_count += 1;
                     } else {
-                        // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
+                        // 非"http"协议起始，从头解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
-                        tmp.push(*src);
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     4 => if src.eq(&b':') {
@@ -152,9 +155,10 @@ impl URL {
                         tmp.push(b's');
                         read_count += 1;
                     } else {
-                        // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
+                        // 非"http"协议起始，从头解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
-                        tmp.push(*src);
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     5 => if src.eq(&b':') {
@@ -183,14 +187,23 @@ impl URL {
                             None => return Err(Errs::str("url protocol parse https none failed!"))
                         }
                     } else {
-                        // 非"https"协议起始，直接略过协议解析，并指定协议为HTTP
+                        // 非"https"协议起始，从头解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
-                        tmp.push(*src);
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     },
                     _ => return Err(Errs::str("url protocol parse src failed!"))
                 }
-                None => return Err(Errs::str("url protocol parse from failed!"))
+                None => if tmp.is_empty() {
+                    return Err(Errs::str("url protocol parse from failed!"));
+                } else {
+                    // 非"http"协议起始，从头解析，并指定协议为HTTP
+                    scheme = Scheme::HTTP;
+                    tmp.clear();
+                    cs = url.as_bytes().iter();
+                    break;
+                }
             }
         }
         // 继续对用户名及后续起始判断
-- 
2.43.0


From 990bc3dd797b013094ecaefcbe981d3772a86a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:35 +0000
Subject: [PATCH 45/57] fix: a websocket handshake is recognised whatever the
 letter case of its header names

---
 src/http/header/header.rs | 2 +-
 src/server/context.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index 043d62b..33ffed9 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -30,7 +30,7 @@ impl Header {
     }
 
     /// 返回指定header的第一个值，header名称大小写不敏感
-    fn find_first(&self, name: &str) -> Option<String> {
+    pub(crate) fn find_first(&self, name: &str) -> Option<String> {
         self.find(name).map(|values| values[0].clone())
     }
 
diff --git a/src/server/context.rs b/src/server/context.rs
index f69a323..4bb2548 100644
--- a/src/server/context.rs
+++ b/src/server/context.rs
@@ -78,13 +78,13 @@ impl Context {
     /// Upgrade: websocket
     /// ```
     pub fn req_is_web_socket(&self) -> bool {
-        match self.req_header_get("Connection") {
+        match self.req_header().find_first("Connection") {
             Some(src) => if !src.split(",").any(|src| src.trim().eq_ignore_ascii_case("upgrade")) {
                 return false;
             },
             None => return false,
         }
-        match self.req_header_get("Upgrade") {
+        match self.req_header().find_first("Upgrade") {
             Some(src) => if src.eq_ignore_ascii_case("websocket") {
                 return true;
             },
-- 
2.43.0


From 38f1bc10b43d224bdbf9858fec2cdf1f3ad5e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:35 +0000
Subject: [PATCH 46/57] fix: a cookie with an empty value is sent with its name

---
 src/http/header/cookie.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/http/header/cookie.rs b/src/http/header/cookie.rs
index cca9d45..166716c 100644
--- a/src/http/header/cookie.rs
+++ b/src/http/header/cookie.rs
@@ -249,11 +249,7 @@ impl ToString for Cookie {
         if self.name.is_empty() {
             cookie_string = "".to_string();
         } else {
-            if self.value.is_empty() {
-                cookie_string = "".to_string();
-            } else {
-                cookie_string = format!("{}={}", self.name, self.value);
-            }
+            cookie_string = format!("{}={}", self.name, self.value);
         }
         match self.path.clone() {
             Some(path) => cookie_string = format!("{}; Path={}", cookie_string, path),
-- 
2.43.0


From 2b57854f00eeca3ffd8423fc92769012d013b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 47/57] fix: a time beyond the year 2262 is parsed instead of
 panicking

---
 src/utils/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/time.rs b/src/utils/time.rs
index 088abfc..98041ce 100644
--- a/src/utils/time.rs
+++ b/src/utils/time.rs
@@ -100,7 +100,7 @@ impl Time {
     pub fn parse_from_str(s: &str, fmt: &str) -> StarryResult<Self> {
         match NaiveDateTime::parse_from_str(s, fmt) {
             Ok(src) => Ok(Time {
-                duration: Duration::nanoseconds(src.timestamp_nanos()),
+                duration: Duration::seconds(src.timestamp()).add(Duration::nanoseconds(src.timestamp_subsec_nanos() as i64)),
             }),
             Err(err) => Err(Errs::err(err))
         }
-- 
2.43.0


From 394c6adf581cabfff51af415584eeac9def6b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 48/57] fix: a cookie named like an attribute is read back as a
 cookie

---
 src/http/header/cookie.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http/header/cookie.rs b/src/http/header/cookie.rs
index 166716c..b4a1d31 100644
--- a/src/http/header/cookie.rs
+++ b/src/http/header/cookie.rs
@@ -120,10 +120,15 @@ impl Cookie {
                 for s in src {
                     let mut cookie = Cookie::default();
                     let res = s.trim().split(";");
-                    for v in res {
+                    for (i, v) in res.enumerate() {
                         let parts: Vec<&str> = v.trim().splitn(2, "=").collect();
                         let parts_len = parts.len();
                         let key = parts[0].to_string();
+                        if i == 0 && parts_len == 2 { // 第一项始终是cookie的名称与值
+                            cookie.name = key;
+                            cookie.value = parts[1].to_string();
+                            continue;
+                        }
                         match key.to_lowercase().as_str() {
                             "path" => cookie.path = if parts_len == 2 {
                                 Some(parts[1].to_string())
-- 
2.43.0


From 6f8d7fda163cd97e0a62c51ef4554133bf2c648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 49/57] fix: a limit does not store up permits while idle, and
 counts a request when it passes

---
 src/server/limit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/limit.rs b/src/server/limit.rs
index 27fe6be..15f45e2 100644
--- a/src/server/limit.rs
+++ b/src/server/limit.rs
@@ -41,7 +41,8 @@ impl Limit {
     /// * count 请求限定的时间段内允许的请求次数
     /// * interval 请求允许的最小间隔时间（毫秒），小于等于0表示不限
     pub fn new(section: i64, count: usize, interval: i64) -> Self {
-        let channel = Arc::new(Channel::bounded(count));
+        // 零容量通道：空闲时不积累放行次数，每次放行都对应一个正在等待的请求
+        let channel = Arc::new(Channel::bounded(0));
         let mut times = vec![];
         let un_interval =
             if interval <= 0 {
@@ -73,7 +74,7 @@ impl Limit {
                     Ok(_) => {
                         // 重置时间集合
                         times.remove(0);
-                        times.push(time_now)
+                        times.push(Time::now().num_milliseconds())
                     }
                     Err(err) => log::error!("request limit fetch error! {}", err)
                 }
-- 
2.43.0


From 073e02d13ea556155dd1994d78c858c30d96756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 50/57] fix: the route tree is not kept locked while a 404
 response is written

---
 src/http/requester.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 8b5c5bf..b8abe98 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -282,7 +282,9 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         let fields;
         // println!("path = {:#?}, method = {:#?}", location.path(), self.method());
         // 根据资源信息获取请求方法，判断请求有效性，如无效，则放弃后续解析操作
-        match root.read().unwrap().fetch(location.path(), self.method()) {
+        // 先释放读锁，再向客户端写入可能的错误响应
+        let fetched = root.read().unwrap().fetch(location.path(), self.method());
+        match fetched {
             Some((src1, src2)) => {
                 node = src1;
                 fields = src2;
-- 
2.43.0


From a7985aabde7e3bf15babe284f44568013bfb9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:42 +0000
Subject: [PATCH 51/57] fix: a pooled client connection is obtained and
 returned without holding the pool locked

---
 src/client/client.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/client.rs b/src/client/client.rs
index a8a71d3..6611582 100644
--- a/src/client/client.rs
+++ b/src/client/client.rs
@@ -98,7 +98,11 @@ impl HttpClient {
                     if responser.response.close {
                         tcp_streamer.channel.send(Check::Break)?;
                     } else {
-                        CLIENT_STREAM_MAP.read().unwrap().get(&self.request.host).unwrap().write().unwrap().send(tcp_streamer).unwrap_or(());
+                        let channel_op = CLIENT_STREAM_MAP.read().unwrap().get(&self.request.host).cloned();
+                        if let Some(channel) = channel_op {
+                            // 如果stream池已满，则放弃复用
+                            channel.read().unwrap().try_send(tcp_streamer).unwrap_or(());
+                        }
                     }
                     Ok(responser.response)
                 }
@@ -110,14 +114,14 @@ impl HttpClient {
     /// 通过复用方式直接获取可用stream
     fn obtain(&self, keepalive: i64) -> StarryResult<TcpStreamer> {
         // 如果要复用，则先判断是否存在已有stream（建立复用池）
-        let map_read = CLIENT_STREAM_MAP.read().unwrap();
-        let channel_op = map_read.get(&self.request.host);
+        let channel_op = CLIENT_STREAM_MAP.read().unwrap().get(&self.request.host).cloned();
         // 则先判断是否存在已有stream池
         match channel_op {
             // 如果存在stream池，则继续取出
             Some(channel) => {
                 loop {
-                    match channel.read().unwrap().try_recv() {
+                    let streamer = channel.read().unwrap().try_recv();
+                    match streamer {
                         // 如果池中存在可用stream，则取出
                         Ok(src) => {
                             if src.alive.load(Ordering::Acquire) {
-- 
2.43.0


From 7defcd559b29fff7dba5b5b223007f4294ab1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:51 +0000
Subject: [PATCH 52/57] fix: a time before 1970 with a fraction of a second is
 shown as the second it lies in

---
 src/utils/time.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/time.rs b/src/utils/time.rs
index 98041ce..8790643 100644
--- a/src/utils/time.rs
+++ b/src/utils/time.rs
@@ -137,7 +137,12 @@ impl Time {
     /// assert_eq!(format!("{}", time.format("around %l %p on %b %-d")), "around 11 PM on Sep 5");
     /// ```
     pub fn format<'a>(&self, fmt: &'a str) -> DelayedFormat<StrftimeItems<'a>> {
-        let time_from_stamp = NaiveDateTime::from_timestamp(self.duration.num_seconds(), 0);
+        let mut secs = self.duration.num_seconds();
+        // num_seconds向零取整，1970年之前的不足一秒部分应归入前一秒
+        if self.duration < Duration::seconds(secs) {
+            secs -= 1;
+        }
+        let time_from_stamp = NaiveDateTime::from_timestamp(secs, 0);
         time_from_stamp.format(fmt)
     }
 
-- 
2.43.0


From 12b3b85f986c8ef50e087dd32605da55da80a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:05 +0000
Subject: [PATCH 53/57] fix: a request head that ends before its empty line is
 answered with 400

---
 src/http/requester.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index b8abe98..d19852e 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -259,7 +259,10 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                         if head.is_empty() { // 没有数据进入
                             return Err(Errs::str(SERVER_TCP_STREAM_HAD_NO_DATA));
                         }
-                        break;
+                        // 请求头不完整
+                        return Err(self.interrupt(
+                            Response::bad_request(),
+                            Errs::str("the head of the request ends early!")));
                     }
                     head.extend_from_slice(&buffer[..src]);
                 }
-- 
2.43.0


From 0646cfef830d70ba2aae0dd2c2edb5b836062724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:35 +0000
Subject: [PATCH 54/57] fix: the head of a request without header lines ends at
 its empty line

---
 src/http/requester.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index d19852e..2b7cc36 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -367,6 +367,10 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                             3 => match Version::from_bytes(data.as_slice()) { // HTTP/1.1...
                                 Ok(src) => {
                                     self.request.set_version(src);
+                                    if b'\r'.eq(b) && iter.as_slice().first() == Some(&b'\n') { // "\r\n"是同一个行尾
+                                        iter.next();
+                                        count += 1;
+                                    }
                                     break;
                                 }
                                 Err(err) => return Err(self.interrupt(
@@ -398,8 +402,8 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         let mut key_time = true;
         // 是否轮到value解析
         let mut value_time = false;
-        // 是否结束解析。当连续出现两次"\n\r"后结束解析
-        let mut end_time = false;
+        // 是否结束解析。当出现空行后结束解析
+        let mut end_time = true;
         loop {
             match iter.next() {
                 Some(b) => {
-- 
2.43.0


From d48ed300994113c1fbc2d80efa4b6e8f3b68e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 55/57] fix: the body of a response without header lines is its
 body, not a header

---
 src/http/responser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index 9d8cd77..237c468 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -145,6 +145,10 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
                                     let res = Strings::from_utf8(data.clone())?;
                                     if status.eq(&res) {
                                         self.response.status = status;
+                                        if b'\r'.eq(b) && iter.as_slice().first() == Some(&b'\n') { // "\r\n"是同一个行尾
+                                            iter.next();
+                                            count += 1;
+                                        }
                                         break;
                                     } else {
                                         return Err(Errs::str("parse response failed while status code unmatch msg!"));
@@ -175,8 +179,8 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         let mut key_time = true;
         // 是否轮到value解析
         let mut value_time = false;
-        // 是否结束解析。当连续出现两次"\n\r"后结束解析
-        let mut end_time = false;
+        // 是否结束解析。当出现空行后结束解析
+        let mut end_time = true;
         loop {
             match iter.next() {
                 Some(b) => {
-- 
2.43.0


From f47289accddfb678341a5313e0a8b7de8f2e465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:26 +0000
Subject: [PATCH 56/57] fix: a response that ends before its head or body is
 complete is an error

---
 src/http/requester.rs | 2 +-
 src/http/responser.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 2b7cc36..c73ed04 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -804,7 +804,7 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
 }
 
 /// 是否已读到请求头末尾的空行
-fn head_complete(head: &[u8]) -> bool {
+pub(crate) fn head_complete(head: &[u8]) -> bool {
     head.windows(2).any(|w| w == b"\n\n") || head.windows(3).any(|w| w == b"\n\r\n")
 }
 
diff --git a/src/http/responser.rs b/src/http/responser.rs
index 237c468..e5290ae 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -21,6 +21,7 @@ use bytes::{BufMut, BytesMut};
 use bytes::buf::Writer;
 
 use crate::{Request, Response, Status, Version};
+use crate::http::requester::head_complete;
 use crate::http::url::Scheme;
 use crate::utils::errors::{Errs, StarryResult};
 use crate::utils::Strings;
@@ -73,6 +74,9 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
                     return Err(Errs::str(CLIENT_TCP_STREAM_HAD_NO_DATA));
                 }
                 size = src;
+                if !head_complete(&data) { // 返回头不完整
+                    return Err(Errs::str("the head of the response ends early!"));
+                }
                 iter = data.iter()
             }
             Err(err) => return Err(Errs::strs("read failed while parse request with error!", err))
@@ -234,7 +238,10 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         let body = match self.response.header.get_content_length() {
             Some(content_len) => match content_len.parse::<isize>() {
                 Ok(len) => if len >= 0 { // 读取"Content-Length"指定长度
-                    &rest[..rest.len().min(len as usize)]
+                    if rest.len() < len as usize { // 返回体不完整
+                        return Err(Errs::string(format!("the body of the response ends early, {} of {}!", rest.len(), len)));
+                    }
+                    &rest[..len as usize]
                 } else if len == -1 { // 长度未知，读取到连接关闭为止
                     rest
                 } else {
-- 
2.43.0


From 5b99a1de01c43d5864055928b41a8cfe2b6e52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:19 +0000
Subject: [PATCH 57/57] fix: a url without a scheme whose user is "http" or
 "https" may have an empty password

---
 src/http/url/url.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/http/url/url.rs b/src/http/url/url.rs
index 9641489..76372d2 100644
--- a/src/http/url/url.rs
+++ b/src/http/url/url.rs
@@ -140,12 +140,9 @@ impl URL {
                                     return Err(Errs::str("url protocol parse http failed!"));
                                 }
                             } else {
-                                // 首字符不为"/"，后续只做用户名解析
-                                key.push_str(String::from_utf8_lossy(tmp.as_slice()).as_ref());
-                                // 清空已有部分
+                                // 首字符不为"/"，后续只做用户名解析，从头解析
                                 tmp.clear();
-                                // 追加新解析内容
-                                tmp.push(*src);
+                                cs = url.as_bytes().iter();
                                 break;
                             },
                             None => return Err(Errs::str("url protocol parse http none failed!"))
@@ -176,12 +173,9 @@ impl URL {
                                 }
                             } else {
                                 scheme = Scheme::HTTP;
-                                // 首字符不为"/"，后续只做用户名解析
-                                key.push_str(String::from_utf8_lossy(tmp.as_slice()).as_ref());
-                                // 清空已有部分
+                                // 首字符不为"/"，后续只做用户名解析，从头解析
                                 tmp.clear();
-                                // 追加新解析内容
-                                tmp.push(*src);
+                                cs = url.as_bytes().iter();
                                 break;
                             },
                             None => return Err(Errs::str("url protocol parse https none failed!"))
-- 
2.43.0

