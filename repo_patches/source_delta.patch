From 8a27cbfe03ed03c3680d473114dbc313a955b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:09 +0000
Subject: [PATCH 1/9] fix: report Zip as terminated once either input stream
 has ended

Zip returns None as soon as one of its streams is done, but is_terminated()
kept returning false until both were, so that select_next_some() and select!
loops polled a finished Zip forever.
---
 futures-util/src/stream/stream/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/zip.rs b/futures-util/src/stream/stream/zip.rs
index 9f074ee..2bfa0dd 100644
--- a/futures-util/src/stream/stream/zip.rs
+++ b/futures-util/src/stream/stream/zip.rs
@@ -67,7 +67,7 @@ where
     St2: Stream,
 {
     fn is_terminated(&self) -> bool {
-        self.stream1.is_terminated() && self.stream2.is_terminated()
+        self.stream1.is_terminated() || self.stream2.is_terminated()
     }
 }
 
-- 
2.43.0


From 9f388d686431b44ad168b7b04c31b47aebea7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:36 +0000
Subject: [PATCH 2/9] fix: drop the pending item of TrySkipWhile when the
 predicate fails

The item stayed buffered after the predicate's error had been yielded, so that
is_terminated() returned false forever once the stream had ended.
---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
-- 
2.43.0


From ff947b6a6c29a94fcb02e8f22849a9ae4fb2041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:36 +0000
Subject: [PATCH 3/9] fix: drop the pending item of TryTakeWhile when the
 predicate fails

The item stayed buffered after the predicate's error had been yielded, so that
is_terminated() returned false forever once the stream had ended.
---
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From 98ecc097a586f8a75dcfdaec68ef68f98d16f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:38 +0000
Subject: [PATCH 4/9] fix: stream_select! size_hint must not overflow

Adding the bounds of endless streams panicked in debug builds and
wrapped in release builds; saturate the lower bound and report an
overflowing upper bound as unknown.
---
 futures-macro/src/stream_select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..f30b6ad 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -97,9 +97,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                     let mut s = (0, Some(0));
                     #(
                         if let Some(new_hint) = self.#field_indices.as_ref().map(|s| s.size_hint()) {
-                            s.0 += new_hint.0;
+                            s.0 = usize::saturating_add(s.0, new_hint.0);
                             // We can change this out for `.zip` when the MSRV is 1.46.0 or higher.
-                            s.1 = s.1.and_then(|a| new_hint.1.map(|b| a + b));
+                            s.1 = s.1.and_then(|a| new_hint.1.and_then(|b| usize::checked_add(a, b)));
                         }
                     )*
                     s
-- 
2.43.0


From 3757479c718119fae482c5c7364a527b50047c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:15 +0000
Subject: [PATCH 5/9] fix: stream_select! must not poll an ended stream again

When one stream ended in the same poll in which another yielded an item,
the early return skipped clearing the ended stream, which was then polled
after its end by the next call.
---
 futures-macro/src/stream_select.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index f30b6ad..160a646 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut ready = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -64,7 +65,8 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
                                     r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                        ready = Some(r);
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +88,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if let Some(ready) = ready {
+                        ready
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From b6ebbfda57c147c814e38db4b4065d6d924ea92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:41 +0000
Subject: [PATCH 6/9] fix: Scan::size_hint must account for early ends and
 pending futures

The callback may end the stream at any item, so the lower bound of the
inner stream does not apply; an item whose future is still pending will
be yielded in addition to what the inner stream still holds.
---
 futures-util/src/stream/stream/scan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..f084042 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,13 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            let pending_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(pending_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 938c9f33b4d535181fb168c82c2788e05aef848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:41 +0000
Subject: [PATCH 7/9] fix: TakeUntil::size_hint must not promise a lower bound

The stopping future can end the stream before the inner stream has
yielded the number of items it promises.
---
 futures-util/src/stream/stream/take_until.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 82d18ab..302d418 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -145,7 +145,10 @@ where
             return (0, Some(0));
         }
 
-        self.stream.size_hint()
+        let (lower, upper) = self.stream.size_hint();
+        // the stopping future can end the stream at any time
+        let lower = if self.fut.is_some() { 0 } else { lower };
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From a5c8890287136d1f36ef9ffb9aa604ad4b34578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:41 +0000
Subject: [PATCH 8/9] fix: stream::PollImmediate::size_hint has no upper bound

The stream yields an item for every time the inner stream is pending, so
it can yield more items than the inner stream does.
---
 futures-util/src/stream/poll_immediate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/poll_immediate.rs b/futures-util/src/stream/poll_immediate.rs
index e153b81..7400a6b 100644
--- a/futures-util/src/stream/poll_immediate.rs
+++ b/futures-util/src/stream/poll_immediate.rs
@@ -43,7 +43,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.stream.as_ref().map_or((0, Some(0)), Stream::size_hint)
+        // every time the inner stream is pending yields an item as well
+        self.stream.as_ref().map_or((0, Some(0)), |stream| (stream.size_hint().0, None))
     }
 }
 
-- 
2.43.0


From 2ff67b6cbbbd5b3e4f8df6cb78c0f7cd6e170a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:04 +0000
Subject: [PATCH 9/9] fix: IntoSink: report a writer that accepts no bytes as
 WriteZero instead of looping forever

---
 futures-util/src/io/into_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..d680b10 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -50,6 +50,9 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
                 if buffer.offset == bytes.len() {
                     break;
                 }
+                if written == 0 {
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
             }
         }
         *this.buffer = None;
-- 
2.43.0

