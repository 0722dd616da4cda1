From f96eb6f3764b5f6fe97c300a205ba40024a83318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 01/30] fix: CircularBuffer::Add reported a full buffer on a
 stale tail

A consumer that ran between the reads of tail_ and head_ made head - tail
look like a full buffer although there was room, so spans were dropped.
---
 src/common/circular_buffer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/circular_buffer.h b/src/common/circular_buffer.h
index e198787..dbbcb54 100644
--- a/src/common/circular_buffer.h
+++ b/src/common/circular_buffer.h
@@ -74,7 +74,12 @@ class CircularBuffer {
 
       // The circular buffer is full, so return false.
       if (static_cast<size_t>(head - tail) >= capacity_ - 1) {
-        return false;
+        // The buffer is only known to be full if nothing was consumed between
+        // reading the tail and the head.
+        if (tail_ == tail) {
+          return false;
+        }
+        continue;
       }
 
       int64_t head_index = head % capacity_;
-- 
2.43.0


From d26877aed1ff0fc9c2520811c7a18836ca738533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 02/30] fix: a chained stream without bytes announced no
 fragments but yielded one

Consuming a chain with such a link positioned the following stream one
fragment too far, or failed an assertion.
---
 src/common/chained_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 4a7fb92..0c40af4 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -72,7 +72,7 @@ bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {
   assert(output_closed_);
   assert(fragment_index_ >= 0 && fragment_index_ <= num_blocks_);
 
-  if (num_blocks_ == 0) {
+  if (num_bytes_written_ == 0) {
     return true;
   }
 
-- 
2.43.0


From 5de2fe508d7c8b75cf055f429f64baa0747b379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 03/30] fix: a finished span's coded stream touched the stream
 handed to the recorder

---
 src/tracer/span.cpp | 27 ++++++++++++++-------------
 src/tracer/span.h   |  4 +++-
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index 8396c5d..f056c85 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -24,16 +24,17 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
            const opentracing::StartSpanOptions& options)
     : chained_stream_{new ChainedStream{}},
       header_fragment_{tracer->recorder().ReserveHeaderSpace(*chained_stream_)},
-      coded_stream_{chained_stream_.get()},
+      coded_stream_{
+          new google::protobuf::io::CodedOutputStream{chained_stream_.get()}},
       tracer_{std::move(tracer)} {
-  WriteOperationName(coded_stream_, operation_name);
+  WriteOperationName(*coded_stream_, operation_name);
 
   // Set the start timestamps.
   std::chrono::system_clock::time_point start_timestamp;
   std::tie(start_timestamp, start_steady_) = ComputeStartTimestamps(
       tracer_->recorder(), options.start_system_timestamp,
       options.start_steady_timestamp);
-  WriteStartTimestamp(coded_stream_, start_timestamp);
+  WriteStartTimestamp(*coded_stream_, start_timestamp);
 
   // Set any span references.
   trace_flags_ = 0;
@@ -63,7 +64,7 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
 
   // Set tags.
   for (auto& tag : options.tags) {
-    WriteTag(coded_stream_, tag.first, tag.second);
+    WriteTag(*coded_stream_, tag.first, tag.second);
 
     // If sampling_priority is set, it overrides whatever sampling decision was
     // derived from the referenced spans.
@@ -101,7 +102,7 @@ void Span::SetOperationName(opentracing::string_view name) noexcept try {
   if (is_finished_) {
     return;
   }
-  WriteOperationName(coded_stream_, name);
+  WriteOperationName(*coded_stream_, name);
 } catch (const std::exception& e) {
   tracer_->logger().Error("SetOperationName failed: ", e.what());
 }
@@ -115,7 +116,7 @@ void Span::SetTag(opentracing::string_view key,
   if (is_finished_) {
     return;
   }
-  WriteTag(coded_stream_, key, value);
+  WriteTag(*coded_stream_, key, value);
   if (key == SamplingPriorityKey) {
     trace_flags_ =
         SetTraceFlag<SampledFlagMask>(trace_flags_, is_sampled(value));
@@ -168,7 +169,7 @@ void Span::Log(std::initializer_list<
   if (is_finished_) {
     return;
   }
-  WriteLog(coded_stream_, timestamp, fields.begin(), fields.end());
+  WriteLog(*coded_stream_, timestamp, fields.begin(), fields.end());
 } catch (const std::exception& e) {
   tracer_->logger().Error("Log failed: ", e.what());
 }
@@ -214,7 +215,7 @@ bool Span::SetSpanReference(
   }
   trace_id_high = referenced_context->trace_id_high();
   trace_id = referenced_context->trace_id_low();
-  WriteSpanReference(coded_stream_, reference.first, trace_id,
+  WriteSpanReference(*coded_stream_, reference.first, trace_id,
                      referenced_context->span_id());
   trace_flags_ |= referenced_context->trace_flags();
   AppendTraceState(trace_state_, referenced_context->trace_state());
@@ -247,23 +248,23 @@ void Span::FinishImpl(
 
   // Set timing information.
   auto duration = finish_timestamp - start_steady_;
-  WriteDuration(coded_stream_, duration);
+  WriteDuration(*coded_stream_, duration);
 
   // Set logs
   for (auto& log_record : options.log_records) {
     try {
-      WriteLog(coded_stream_, log_record.timestamp, log_record.fields.data(),
+      WriteLog(*coded_stream_, log_record.timestamp, log_record.fields.data(),
                log_record.fields.data() + log_record.fields.size());
     } catch (const std::exception& e) {
       tracer_->logger().Error("Dropping log record: ", e.what());
     }
   }
 
-  WriteSpanContext(coded_stream_, trace_id_, span_id_, baggage_.as_vector());
+  WriteSpanContext(*coded_stream_, trace_id_, span_id_, baggage_.as_vector());
 
   // Record the span
-  tracer_->recorder().WriteFooter(coded_stream_);
-  coded_stream_.Trim();
+  tracer_->recorder().WriteFooter(*coded_stream_);
+  coded_stream_.reset();
   tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));
 } catch (const std::exception& e) {
   tracer_->logger().Error("FinishWithOptions failed: ", e.what());
diff --git a/src/tracer/span.h b/src/tracer/span.h
index 476d163..de9346b 100644
--- a/src/tracer/span.h
+++ b/src/tracer/span.h
@@ -100,7 +100,9 @@ class Span final : public opentracing::Span, public LightStepSpanContext {
 
   std::unique_ptr<ChainedStream> chained_stream_;
   Fragment header_fragment_;
-  google::protobuf::io::CodedOutputStream coded_stream_;
+  // Released before the stream is handed to the recorder: its destructor touches
+  // the stream it writes to.
+  std::unique_ptr<google::protobuf::io::CodedOutputStream> coded_stream_;
 
   std::chrono::steady_clock::time_point start_steady_;
   std::atomic<bool> is_finished_{false};
-- 
2.43.0


From 9b9163287e718d538955d766e015c3465ffd2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 04/30] fix: a lost DNS query was never retried or timed out

AresDnsResolver only armed its timer after socket activity, so when every
answer to the first query was lost nothing drove c-ares' retries.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 3300220..76cf432 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -123,9 +123,13 @@ AresDnsResolver::~AresDnsResolver() noexcept { ares_destroy(channel_); }
 // Resolve
 //--------------------------------------------------------------------------------------------------
 void AresDnsResolver::Resolve(const char* name, int family,
-                              DnsResolutionCallback& callback) noexcept {
+                              DnsResolutionCallback& callback) noexcept try {
   ares_gethostbyname(channel_, name, family, OnDnsResolution,
                      static_cast<void*>(&callback));
+  // A query is only retried and timed out if the timer runs.
+  UpdateTimer();
+} catch (const std::exception& e) {
+  logger_.Error("failed to schedule ares timeout: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From d4a09b26347006b2a2073c3908747e5f6b8a2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 05/30] fix: writing to a connection closed by the satellite
 raised SIGPIPE in the host process

---
 src/common/platform/network_unix.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/common/platform/network_unix.cpp b/src/common/platform/network_unix.cpp
index 4d3e32b..b1aff3c 100644
--- a/src/common/platform/network_unix.cpp
+++ b/src/common/platform/network_unix.cpp
@@ -1,5 +1,6 @@
 #include "common/platform/network.h"
 
+#include <cerrno>
 #include <climits>
 
 #include <fcntl.h>
@@ -32,7 +33,18 @@ int Read(FileDescriptor socket, void* data, size_t size) noexcept {
 // WriteV
 //--------------------------------------------------------------------------------------------------
 int WriteV(FileDescriptor socket, const IoVec* iov, int iovcnt) noexcept {
-  return ::writev(socket, iov, iovcnt);
+#ifdef MSG_NOSIGNAL
+  // Writing to a connection that the peer closed must not raise SIGPIPE in the
+  // host process.
+  msghdr message = {};
+  message.msg_iov = const_cast<IoVec*>(iov);
+  message.msg_iovlen = static_cast<size_t>(iovcnt);
+  auto rcode = ::sendmsg(socket, &message, MSG_NOSIGNAL);
+  if (rcode >= 0 || errno != ENOTSOCK) {
+    return static_cast<int>(rcode);
+  }
+#endif
+  return static_cast<int>(::writev(socket, iov, iovcnt));
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From edb886b34f60d3d62ffb87e1d91c77845c116017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 06/30] fix: a connection that failed while writing spans left
 the partly written span to another connection

---
 .../stream_recorder/connection_stream.cpp     | 44 +++++++++++++------
 .../stream_recorder/connection_stream.h       |  2 +
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 5567598..43108cb 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -76,17 +76,18 @@ bool ConnectionStream::Flush(Writer writer) {
     return FlushShutdown(writer);
   }
   span_stream_.Allot();
-  if (span_remnant_ == nullptr) {
-    auto result = writer({&header_stream_, &span_stream_});
-    span_remnant_ = span_stream_.ConsumeRemnant();
+  try {
+    auto result = span_remnant_ == nullptr
+                      ? writer({&header_stream_, &span_stream_})
+                      : writer({&header_stream_, span_remnant_.get(),
+                                &span_stream_});
+    UpdateRemnant();
     return result;
+  } catch (...) {
+    // The writer can fail after it wrote some of the spans.
+    UpdateRemnant();
+    throw;
   }
-  auto result = writer({&header_stream_, span_remnant_.get(), &span_stream_});
-  if (span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansSent(1);
-    span_remnant_ = span_stream_.ConsumeRemnant();
-  }
-  return result;
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -129,12 +130,27 @@ bool ConnectionStream::FlushShutdown(Writer writer) {
   if (span_remnant_ == nullptr) {
     return writer({&header_stream_, &terminal_stream_});
   }
-  auto result =
-      writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
-  if (span_remnant_->empty()) {
+  try {
+    auto result =
+        writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
+    UpdateRemnant();
+    return result;
+  } catch (...) {
+    UpdateRemnant();
+    throw;
+  }
+}
+
+//--------------------------------------------------------------------------------------------------
+// UpdateRemnant
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::UpdateRemnant() noexcept {
+  if (span_remnant_ != nullptr) {
+    if (!span_remnant_->empty()) {
+      return;
+    }
     span_stream_.metrics().OnSpansSent(1);
-    span_remnant_.reset();
   }
-  return result;
+  span_remnant_ = span_stream_.ConsumeRemnant();
 }
 }  // namespace lightstep
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index 4e80b4c..27460cc 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -79,5 +79,7 @@ class ConnectionStream {
   void InitializeStream();
 
   bool FlushShutdown(Writer writer);
+
+  void UpdateRemnant() noexcept;
 };
 }  // namespace lightstep
-- 
2.43.0


From 7fb48296726b39c994eb1efb0a946e54a8b4b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 07/30] fix: a failure while closing a stream scheduled two
 connects, splicing two requests

Flush() failing inside InitiateReconnect scheduled a retry and still armed the
graceful shutdown timer, so the connection was connected twice and the second
socket continued the first one's stream.
---
 .../stream_recorder/satellite_connection.cpp      | 15 +++++++++++----
 .../stream_recorder/satellite_connection.h        |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 3ec8316..9ba2960 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -27,6 +27,11 @@ SatelliteConnection::SatelliteConnection(SatelliteStreamer& streamer)
           MakeTimerCallback<SatelliteConnection,
                             &SatelliteConnection::InitiateReconnect>(),
           static_cast<void*>(this)},
+      retry_timer_{
+          streamer_.event_base(), -1, 0,
+          MakeTimerCallback<SatelliteConnection,
+                            &SatelliteConnection::Connect>(),
+          static_cast<void*>(this)},
       graceful_shutdown_timeout_{
           streamer.event_base(), -1, 0,
           MakeTimerCallback<SatelliteConnection,
@@ -126,6 +131,7 @@ void SatelliteConnection::FreeSocket() {
   read_event_ = Event{};
   write_event_ = Event{};
   reconnect_timer_.Remove();
+  retry_timer_.Remove();
   graceful_shutdown_timeout_.Remove();
   writable_ = false;
   connection_stream_.Reset();
@@ -142,10 +148,7 @@ void SatelliteConnection::HandleFailure() noexcept try {
     was_shutdown_ = true;
     return;
   }
-  streamer_.event_base().OnTimeout(
-      streamer_.recorder_options().satellite_failure_retry_period,
-      MakeTimerCallback<SatelliteConnection, &SatelliteConnection::Connect>(),
-      static_cast<void*>(this));
+  retry_timer_.Add(streamer_.recorder_options().satellite_failure_retry_period);
 } catch (const std::exception& e) {
   streamer_.logger().Error("HandleFailure failed: ", e.what());
 }
@@ -173,6 +176,10 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
   if (writable_) {
     Flush();
   }
+  if (!connection_stream_.shutting_down()) {
+    // The flush failed and its failure is already handled.
+    return;
+  }
   graceful_shutdown_timeout_.Add(
       streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
diff --git a/src/recorder/stream_recorder/satellite_connection.h b/src/recorder/stream_recorder/satellite_connection.h
index abbf717..0b94646 100644
--- a/src/recorder/stream_recorder/satellite_connection.h
+++ b/src/recorder/stream_recorder/satellite_connection.h
@@ -59,6 +59,7 @@ class SatelliteConnection : private Noncopyable {
   Event read_event_;
   Event write_event_;
   Event reconnect_timer_;
+  Event retry_timer_;
   Event graceful_shutdown_timeout_;
 
   void Connect() noexcept;
-- 
2.43.0


From 6796889ea996e3754fb4a7d5f27f52a50accb9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 08/30] fix: a shut down connection could reconnect, and
 shutdown before connecting never completed

---
 .../stream_recorder/satellite_connection.cpp  | 31 ++++++++++++++++---
 .../stream_recorder/satellite_connection.h    |  2 ++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 9ba2960..a653c24 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -53,7 +53,12 @@ SatelliteConnection::~SatelliteConnection() noexcept {
 //--------------------------------------------------------------------------------------------------
 // Start
 //--------------------------------------------------------------------------------------------------
-void SatelliteConnection::Start() noexcept { Connect(); }
+void SatelliteConnection::Start() noexcept {
+  if (is_shutting_down_) {
+    return;
+  }
+  Connect();
+}
 
 //--------------------------------------------------------------------------------------------------
 // Flush
@@ -84,8 +89,15 @@ bool SatelliteConnection::Flush() noexcept try {
 // InitiateShutdown
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::InitiateShutdown() noexcept {
-  InitiateReconnect();
+  if (is_shutting_down_) {
+    return;
+  }
   is_shutting_down_ = true;
+  if (socket_.file_descriptor() == InvalidSocket) {
+    // There's no connection to close, only one that would be made later.
+    return Reconnect();
+  }
+  StartGracefulShutdown();
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -166,12 +178,19 @@ void SatelliteConnection::ScheduleReconnect() {
 //--------------------------------------------------------------------------------------------------
 // InitiateReconnect
 //--------------------------------------------------------------------------------------------------
-void SatelliteConnection::InitiateReconnect() noexcept try {
+void SatelliteConnection::InitiateReconnect() noexcept {
   if (is_shutting_down_) {
     // If we're shutting down, then we've already scheduled a reconnect so do
     // nothing.
     return;
   }
+  StartGracefulShutdown();
+}
+
+//--------------------------------------------------------------------------------------------------
+// StartGracefulShutdown
+//--------------------------------------------------------------------------------------------------
+void SatelliteConnection::StartGracefulShutdown() noexcept try {
   connection_stream_.Shutdown();
   if (writable_) {
     Flush();
@@ -183,7 +202,7 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
   graceful_shutdown_timeout_.Add(
       streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
-  streamer_.logger().Error("InitiateReconnect failed: ", e.what());
+  streamer_.logger().Error("StartGracefulShutdown failed: ", e.what());
   return HandleFailure();
 }
 
@@ -285,6 +304,10 @@ void SatelliteConnection::OnWritable(FileDescriptor file_descriptor,
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::OnSocketError() noexcept try {
   FreeSocket();
+  if (is_shutting_down_) {
+    was_shutdown_ = true;
+    return;
+  }
   Connect();
 } catch (const std::exception& e) {
   streamer_.logger().Error("OnSocketError failed: ", e.what());
diff --git a/src/recorder/stream_recorder/satellite_connection.h b/src/recorder/stream_recorder/satellite_connection.h
index 0b94646..4a76206 100644
--- a/src/recorder/stream_recorder/satellite_connection.h
+++ b/src/recorder/stream_recorder/satellite_connection.h
@@ -72,6 +72,8 @@ class SatelliteConnection : private Noncopyable {
 
   void InitiateReconnect() noexcept;
 
+  void StartGracefulShutdown() noexcept;
+
   void Reconnect() noexcept;
 
   void GracefulShutdownTimeout() noexcept;
-- 
2.43.0


From fceaed9b1fe5b691714c2a408e3e120ee6ce8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 09/30] fix: forking or destroying a connection lost its drop
 counts and partly written span

---
 .../stream_recorder/connection_stream.cpp     | 28 +++++++++++++------
 .../stream_recorder/connection_stream.h       | 10 +++++++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 43108cb..38f1b67 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -47,18 +47,16 @@ ConnectionStream::ConnectionStream(Fragment host_header_fragment,
   InitializeStream();
 }
 
+//--------------------------------------------------------------------------------------------------
+// destructor
+//--------------------------------------------------------------------------------------------------
+ConnectionStream::~ConnectionStream() noexcept { ReleaseMetrics(); }
+
 //--------------------------------------------------------------------------------------------------
 // Reset
 //--------------------------------------------------------------------------------------------------
 void ConnectionStream::Reset() {
-  if (!header_stream_.empty()) {
-    // We weren't able to upload the metrics so add the counters back
-    span_stream_.metrics().UnconsumeDroppedSpans(
-        embedded_metrics_message_.num_dropped_spans());
-  }
-  if (span_remnant_ != nullptr && !span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansDropped(1);
-  }
+  ReleaseMetrics();
   span_remnant_.reset();
   InitializeStream();
 }
@@ -115,6 +113,20 @@ void ConnectionStream::InitializeStream() {
       EndOfLineFragment};
 }
 
+//--------------------------------------------------------------------------------------------------
+// ReleaseMetrics
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::ReleaseMetrics() noexcept {
+  if (!header_stream_.empty()) {
+    // We weren't able to upload the metrics so add the counters back
+    span_stream_.metrics().UnconsumeDroppedSpans(
+        embedded_metrics_message_.num_dropped_spans());
+  }
+  if (span_remnant_ != nullptr && !span_remnant_->empty()) {
+    span_stream_.metrics().OnSpansDropped(1);
+  }
+}
+
 //--------------------------------------------------------------------------------------------------
 // first_chunk_position
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index 27460cc..bad6d65 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -27,6 +27,14 @@ class ConnectionStream {
   ConnectionStream(Fragment host_header_fragment,
                    Fragment header_common_fragment, SpanStream& span_stream);
 
+  ConnectionStream(const ConnectionStream&) = delete;
+  ConnectionStream(ConnectionStream&&) = delete;
+
+  ~ConnectionStream() noexcept;
+
+  ConnectionStream& operator=(const ConnectionStream&) = delete;
+  ConnectionStream& operator=(ConnectionStream&&) = delete;
+
   /**
    * Reset so as to begin a new streaming session.
    */
@@ -78,6 +86,8 @@ class ConnectionStream {
 
   void InitializeStream();
 
+  void ReleaseMetrics() noexcept;
+
   bool FlushShutdown(Writer writer);
 
   void UpdateRemnant() noexcept;
-- 
2.43.0


From 948c82559d5dc32b030ba42fc901b78a5d6b7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 10/30] fix: a datagram the resolver ignored kept it from
 hearing the answers after it

---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 76cf432..a65d2fa 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -141,7 +141,9 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
     socket_events_.erase(file_descriptor);
     return;
   }
-  short options = 0;
+  // Keep the event after it fires: ares expects to hear about every datagram
+  // that arrives, and one that it ignores changes no socket state.
+  short options = EV_PERSIST;
   if (read == 1) {
     options |= EV_READ;
   }
-- 
2.43.0


From 7f33b01fb4e17e58f83f1edcb4624c92f74c6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 11/30] fix: a report's number of fragments left out its header
 and metrics

---
 src/recorder/serialization/report_request.cpp | 1 +
 src/recorder/serialization/report_request.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/recorder/serialization/report_request.cpp b/src/recorder/serialization/report_request.cpp
index bfb9e70..07a39a8 100644
--- a/src/recorder/serialization/report_request.cpp
+++ b/src/recorder/serialization/report_request.cpp
@@ -16,6 +16,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
   metrics->set_num_dropped_spans(num_dropped_spans);
   metrics_fragment_ = metrics->MakeFragment();
   num_bytes_ += metrics_fragment_.second;
+  ++num_fragments_;
 }
 
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/serialization/report_request.h b/src/recorder/serialization/report_request.h
index 2bfc5dd..be78787 100644
--- a/src/recorder/serialization/report_request.h
+++ b/src/recorder/serialization/report_request.h
@@ -50,7 +50,7 @@ class ReportRequest final : public BufferChain {
 
   int num_bytes_{0};
   int num_spans_{0};
-  int num_fragments_{0};
+  int num_fragments_{1};  // the header
   std::unique_ptr<ChainedStream> spans_;
 };
 }  // namespace lightstep
-- 
2.43.0


From d9a5d3dae7f85ca28850ef0ee46d9ab3153877c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 12/30] fix: a send that threw left the older recorder waiting
 for ever and lost drop counts

---
 src/recorder/legacy_manual_recorder.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index be696b4..e33387c 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -85,9 +85,15 @@ bool LegacyManualRecorder::FlushOne() noexcept try {
   return true;
 } catch (const std::exception& e) {
   logger_.Error("Failed to Flush: ", e.what());
-  options_.metrics_observer->OnSpansDropped(saved_pending_spans_);
-  dropped_spans_ += saved_pending_spans_;
-  active_request_.Clear();
+  // If the report was neither handed over nor completed by one of the callbacks,
+  // nothing will complete it.
+  if (IsReportInProgress()) {
+    ++flushed_seqno_;
+    active_request_.Clear();
+    options_.metrics_observer->OnSpansDropped(
+        static_cast<int>(saved_pending_spans_));
+    dropped_spans_ += saved_dropped_spans_ + saved_pending_spans_;
+  }
   return false;
 }
 
-- 
2.43.0


From 2057a70377a69a477db18d876f84e00e85c4501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 13/30] fix: the older recorder could send a report after the
 collector disabled it

---
 src/recorder/legacy_manual_recorder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index e33387c..73d08e3 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -35,9 +35,11 @@ void LegacyManualRecorder::RecordSpan(
     // here if max_buffered_spans was dynamically decreased.
     //
     // Otherwise, drop the span.
-    if (!IsReportInProgress()) {
+    auto is_report_in_progress = IsReportInProgress();
+    if (!is_report_in_progress) {
       FlushOne();
-    } else {
+    }
+    if (is_report_in_progress || disabled_) {
       dropped_spans_++;
       options_.metrics_observer->OnSpansDropped(1);
       return;
-- 
2.43.0


From 0015139adc01361a55e9ba525ed474c4800a2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 14/30] fix: a legacy span ignored baggage set again for the
 same key

---
 src/tracer/legacy/legacy_span.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index 4f07c32..2c6e93b 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -163,8 +163,7 @@ void LegacySpan::SetBaggageItem(opentracing::string_view restricted_key,
   auto lowercase_key = ToLower(restricted_key);
   std::lock_guard<std::mutex> lock_guard{mutex_};
   auto& baggage = *span_.mutable_span_context()->mutable_baggage();
-  baggage.insert(
-      BaggageProtobufMap::value_type(std::move(lowercase_key), value));
+  baggage[lowercase_key] = std::string{value};
 } catch (const std::exception& e) {
   logger_.Error("SetBaggageItem failed: ", e.what());
 }
-- 
2.43.0


From 7632fd693f45c880dfa12e9934c258f1a015f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 15/30] fix: waiting with a very long timeout gave up at once

---
 src/common/condition_variable_wrapper.h         | 17 ++++++++++++++++-
 src/recorder/auto_recorder.cpp                  |  1 +
 .../stream_recorder/stream_recorder.cpp         | 11 +++++++----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/common/condition_variable_wrapper.h b/src/common/condition_variable_wrapper.h
index b1f4a39..9ecee41 100644
--- a/src/common/condition_variable_wrapper.h
+++ b/src/common/condition_variable_wrapper.h
@@ -1,11 +1,25 @@
 #pragma once
 
+#include <algorithm>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
 #include <mutex>
 
 namespace lightstep {
+/**
+ * Waiting computes the time of the timeout by adding its duration to the
+ * current time. Bound the duration so that this can't overflow when someone
+ * passes something like std::chrono::hours::max() to wait for ever.
+ * @param duration the requested duration.
+ * @return a duration that can safely be added to the current time.
+ */
+inline std::chrono::steady_clock::duration BoundWaitDuration(
+    std::chrono::steady_clock::duration duration) noexcept {
+  return std::min<std::chrono::steady_clock::duration>(
+      duration, std::chrono::hours{24 * 365});
+}
+
 // ConditionVariableWrapper is used to support testing. It allows for a custom
 // condition variable implementation and artificial clock so that tests can be
 // run without blocking timeout.
@@ -43,7 +57,8 @@ class StandardConditionVariableWrapper : public ConditionVariableWrapper {
   bool WaitFor(std::unique_lock<std::mutex>& lock,
                const std::chrono::steady_clock::duration& duration,
                std::function<bool()> predicate) override {
-    return condition_variable_.wait_for(lock, duration, predicate);
+    return condition_variable_.wait_for(lock, BoundWaitDuration(duration),
+                                        predicate);
   }
 
   bool WaitUntil(std::unique_lock<std::mutex>& lock,
diff --git a/src/recorder/auto_recorder.cpp b/src/recorder/auto_recorder.cpp
index 94e3c20..e0f770b 100644
--- a/src/recorder/auto_recorder.cpp
+++ b/src/recorder/auto_recorder.cpp
@@ -27,6 +27,7 @@ AutoRecorder::AutoRecorder(
   if (options_.metrics_observer == nullptr) {
     options_.metrics_observer.reset(new MetricsObserver{});
   }
+  options_.reporting_period = BoundWaitDuration(options_.reporting_period);
   max_buffered_spans_snapshot_ = options_.max_buffered_spans.value();
   writer_ = std::thread(&AutoRecorder::Write, this);
 }
diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0bdaee6..30a7d6a 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -4,6 +4,7 @@
 #include <exception>
 
 #include "common/chunked_http_framing.h"
+#include "common/condition_variable_wrapper.h"
 #include "common/protobuf.h"
 #include "common/report_request_framing.h"
 
@@ -119,9 +120,10 @@ bool StreamRecorder::FlushWithTimeout(
     return true;
   }
   ++pending_flush_counter_;
-  flush_condition_variable_.wait_for(lock, timeout, [this, num_spans_produced] {
-    return exit_ || num_spans_consumed_ >= num_spans_produced;
-  });
+  flush_condition_variable_.wait_for(
+      lock, BoundWaitDuration(timeout), [this, num_spans_produced] {
+        return exit_ || num_spans_consumed_ >= num_spans_produced;
+      });
   return num_spans_consumed_ >= num_spans_produced;
 } catch (const std::exception& e) {
   logger_.Error("StreamRecorder::FlushWithTimeout failed: ", e.what());
@@ -136,7 +138,8 @@ bool StreamRecorder::ShutdownWithTimeout(
   std::unique_lock<std::mutex> lock{shutdown_mutex_};
   ++shutdown_counter_;
   shutdown_condition_variable_.wait_for(
-      lock, timeout, [this] { return exit_ || !last_is_active_; });
+      lock, BoundWaitDuration(timeout),
+      [this] { return exit_ || !last_is_active_; });
   return !last_is_active_;
 } catch (const std::exception& e) {
   logger_.Error("StreamRecorder::FlushWithTimeout failed: ", e.what());
-- 
2.43.0


From 5886d071662d70bbd11016897cc781e8a4f64c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 16/30] fix: a fork after shutdown reopened the satellite
 connections

---
 .../stream_recorder/stream_recorder.cpp       | 20 +++++++++++++++----
 .../stream_recorder/stream_recorder.h         | 11 +++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 30a7d6a..fe7a042 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -136,6 +136,7 @@ bool StreamRecorder::FlushWithTimeout(
 bool StreamRecorder::ShutdownWithTimeout(
     std::chrono::system_clock::duration timeout) noexcept try {
   std::unique_lock<std::mutex> lock{shutdown_mutex_};
+  shutdown_requested_ = true;
   ++shutdown_counter_;
   shutdown_condition_variable_.wait_for(
       lock, BoundWaitDuration(timeout),
@@ -158,9 +159,7 @@ void StreamRecorder::PrepareForFork() noexcept {
 //--------------------------------------------------------------------------------------------------
 // OnForkedParent
 //--------------------------------------------------------------------------------------------------
-void StreamRecorder::OnForkedParent() noexcept {
-  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
-}
+void StreamRecorder::OnForkedParent() noexcept { Restart(); }
 
 //--------------------------------------------------------------------------------------------------
 // OnForkedChild
@@ -173,7 +172,7 @@ void StreamRecorder::OnForkedChild() noexcept {
   num_spans_consumed_ = span_buffer_.production_count();
   pending_flush_counter_ = 0;
 
-  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
+  Restart();
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -202,6 +201,19 @@ void StreamRecorder::Poll(StreamRecorderImpl& stream_recorder_impl) noexcept {
   }
 }
 
+//--------------------------------------------------------------------------------------------------
+// Restart
+//--------------------------------------------------------------------------------------------------
+void StreamRecorder::Restart() noexcept {
+  if (shutdown_requested_) {
+    // The connections went down with PrepareForFork: leave them so.
+    std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};
+    last_is_active_ = false;
+    return;
+  }
+  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
+}
+
 //--------------------------------------------------------------------------------------------------
 // MakeStreamRecorder
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/stream_recorder.h b/src/recorder/stream_recorder/stream_recorder.h
index 44f4c3c..e2198f8 100644
--- a/src/recorder/stream_recorder/stream_recorder.h
+++ b/src/recorder/stream_recorder/stream_recorder.h
@@ -102,14 +102,16 @@ class StreamRecorder : public ForkAwareRecorder, private Noncopyable {
       std::chrono::system_clock::duration timeout) noexcept override;
 
   int64_t ComputeSystemSteadyTimestampDelta() const noexcept override {
-    return stream_recorder_impl_->timestamp_delta();
+    // There's no implementation if it wasn't restarted after a fork.
+    return stream_recorder_impl_ != nullptr
+               ? stream_recorder_impl_->timestamp_delta()
+               : lightstep::ComputeSystemSteadyTimestampDelta();
   }
 
   std::chrono::system_clock::time_point ComputeCurrentSystemTimestamp(
       std::chrono::steady_clock::time_point steady_now) const
       noexcept override {
-    return ToSystemTimestamp(stream_recorder_impl_->timestamp_delta(),
-                             steady_now);
+    return ToSystemTimestamp(ComputeSystemSteadyTimestampDelta(), steady_now);
   }
 
   const MetricsObserver* metrics_observer() const noexcept override {
@@ -142,11 +144,14 @@ class StreamRecorder : public ForkAwareRecorder, private Noncopyable {
   std::mutex shutdown_mutex_;
   std::condition_variable shutdown_condition_variable_;
   std::atomic<int> shutdown_counter_{0};
+  std::atomic<bool> shutdown_requested_{false};
 
   // Used by polling to track when the satellite connections become inactive so
   // that any threads waiting on shutdown can be notified.
   bool last_is_active_{true};
 
   std::unique_ptr<StreamRecorderImpl> stream_recorder_impl_;
+
+  void Restart() noexcept;
 };
 }  // namespace lightstep
-- 
2.43.0


From 8b336109bf21d9efd8a53f72ae0b03f133ab89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 17/30] fix: failing to restart the stream recorder after a
 fork terminated the process

---
 .../stream_recorder/stream_recorder.cpp       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index fe7a042..6c0cee3 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -205,13 +205,24 @@ void StreamRecorder::Poll(StreamRecorderImpl& stream_recorder_impl) noexcept {
 // Restart
 //--------------------------------------------------------------------------------------------------
 void StreamRecorder::Restart() noexcept {
-  if (shutdown_requested_) {
-    // The connections went down with PrepareForFork: leave them so.
-    std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};
-    last_is_active_ = false;
-    return;
+  if (!shutdown_requested_) {
+    try {
+      last_is_active_ = true;
+      stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
+      return;
+    } catch (const std::exception& e) {
+      logger_.Error("StreamRecorder: failed to restart after a fork: ",
+                    e.what());
+    }
   }
-  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
+  // PrepareForFork took down the connections: leave them so. Nothing polls now,
+  // so account for what was sent before that.
+  {
+    std::lock_guard<std::mutex> lock_guard{flush_mutex_};
+    num_spans_consumed_ = span_buffer_.consumption_count();
+  }
+  std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};
+  last_is_active_ = false;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 6ebb2f6fd75c72422265ea2cf70ed79d698dea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 18/30] fix: generating an identifier without entropy
 terminated the process

---
 src/common/random.cpp | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index bd0375e..e924652 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -1,6 +1,8 @@
 #include "common/random.h"
 
 #include <cassert>
+#include <chrono>
+#include <exception>
 
 #include "common/platform/fork.h"
 
@@ -14,6 +16,32 @@ namespace lightstep {
 // See https://stackoverflow.com/q/51882689/4447365 and
 //     https://github.com/opentracing-contrib/nginx-opentracing/issues/52
 namespace {
+// Used when the system can't provide entropy: seeds with the time, the thread's
+// engine, and what the engine would have produced next.
+class FallbackSeedSequence {
+ public:
+  explicit FallbackSeedSequence(FastRandomNumberGenerator& engine) noexcept
+      : state_{engine() ^ static_cast<uint64_t>(
+                              std::chrono::steady_clock::now()
+                                  .time_since_epoch()
+                                  .count()) ^
+               (static_cast<uint64_t>(reinterpret_cast<uintptr_t>(&engine))
+                << 20)} {}
+
+  void generate(uint32_t* first, uint32_t* last) noexcept {
+    // See http://prng.di.unimi.it/splitmix64.c
+    for (; first != last; ++first) {
+      auto z = (state_ += 0x9e3779b97f4a7c15ull);
+      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
+      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
+      *first = static_cast<uint32_t>((z ^ (z >> 31)) >> 32);
+    }
+  }
+
+ private:
+  uint64_t state_;
+};
+
 class TlsRandomNumberGenerator {
  public:
   TlsRandomNumberGenerator() {
@@ -29,10 +57,16 @@ class TlsRandomNumberGenerator {
   static void OnFork() noexcept { Seed(); }
 
   static void Seed() noexcept {
-    std::random_device random_device;
-    std::seed_seq seed_seq{random_device(), random_device(), random_device(),
-                           random_device()};
-    engine_.seed(seed_seq);
+    try {
+      std::random_device random_device;
+      std::seed_seq seed_seq{random_device(), random_device(), random_device(),
+                             random_device()};
+      engine_.seed(seed_seq);
+    } catch (const std::exception& /*e*/) {
+      // For example, the process ran out of file descriptors.
+      FallbackSeedSequence seed_sequence{engine_};
+      engine_.seed(seed_sequence);
+    }
   }
 };
 
-- 
2.43.0


From 6bf0e13c4596ac15575df75c1c91c9cbb650b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 19/30] fix: a span buffer too large to allocate terminated the
 process

---
 src/common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/circular_buffer.h b/src/common/circular_buffer.h
index dbbcb54..3fb64ee 100644
--- a/src/common/circular_buffer.h
+++ b/src/common/circular_buffer.h
@@ -15,7 +15,7 @@ namespace lightstep {
 template <class T>
 class CircularBuffer {
  public:
-  explicit CircularBuffer(size_t max_size) noexcept
+  explicit CircularBuffer(size_t max_size)
       : data_{new AtomicUniquePtr<T>[max_size + 1]}, capacity_{max_size + 1} {}
 
   /**
-- 
2.43.0


From dc1e54857faff43d5d5a34b05df523a5ce6653f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 20/30] fix: an allocation failure could truncate the header
 sent with every report

---
 src/recorder/serialization/report_request_header.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/recorder/serialization/report_request_header.cpp b/src/recorder/serialization/report_request_header.cpp
index 6c87a28..39efb72 100644
--- a/src/recorder/serialization/report_request_header.cpp
+++ b/src/recorder/serialization/report_request_header.cpp
@@ -1,5 +1,7 @@
 #include "recorder/serialization/report_request_header.h"
 
+#include <new>
+
 #include "common/protobuf.h"
 #include "common/utility.h"
 #include "lightstep-tracer-common/collector.pb.h"
@@ -31,6 +33,10 @@ std::string WriteReportRequestHeader(
     WriteEmbeddedMessage(coded_stream,
                          collector::ReportRequest::kAuthFieldNumber, auth);
   }
+  if (!oss) {
+    // The stream swallows a failure to allocate.
+    throw std::bad_alloc{};
+  }
 
   return oss.str();
 }
-- 
2.43.0


From 080b77a7ecad5b817a3dbf4aa5fa6c6e646452b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 21/30] fix: running out of memory could end name resolution
 for good

---
 .../ares_dns_resolver/ares_dns_resolver.cpp   |  3 ++
 .../satellite_dns_resolution_manager.cpp      | 48 ++++++++++++-------
 .../satellite_dns_resolution_manager.h        | 14 +++++-
 3 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index a65d2fa..86b519f 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -130,6 +130,8 @@ void AresDnsResolver::Resolve(const char* name, int family,
   UpdateTimer();
 } catch (const std::exception& e) {
   logger_.Error("failed to schedule ares timeout: ", e.what());
+  // Nothing would end the query.
+  ares_cancel(channel_);
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -172,6 +174,7 @@ void AresDnsResolver::OnEvent(FileDescriptor file_descriptor,
   UpdateTimer();
 } catch (const std::exception& e) {
   logger_.Error("failed to process ares event: ", e.what());
+  ares_cancel(channel_);
 }
 
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp b/src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp
index 5ab5203..b8ef3cb 100644
--- a/src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp
+++ b/src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp
@@ -1,6 +1,7 @@
 #include "recorder/stream_recorder/satellite_dns_resolution_manager.h"
 
 #include "common/random.h"
+#include "common/utility.h"
 #include "network/timer_event.h"
 
 namespace lightstep {
@@ -12,10 +13,14 @@ SatelliteDnsResolutionManager::SatelliteDnsResolutionManager(
     const StreamRecorderOptions& recorder_options, int family, const char* name,
     std::function<void()> on_ready_callback)
     : logger_{logger},
-      event_base_{event_base},
+      recorder_options_{recorder_options},
+      refresh_timer_{
+          event_base, recorder_options.dns_failure_retry_period,
+          MakeTimerCallback<SatelliteDnsResolutionManager,
+                            &SatelliteDnsResolutionManager::OnRefresh>(),
+          static_cast<void*>(this)},
       dns_resolver_{MakeDnsResolver(logger, event_base,
                                     recorder_options.dns_resolver_options)},
-      recorder_options_{recorder_options},
       family_{family},
       name_{name},
       on_ready_callback_{std::move(on_ready_callback)} {}
@@ -26,7 +31,7 @@ SatelliteDnsResolutionManager::SatelliteDnsResolutionManager(
 void SatelliteDnsResolutionManager::Start() noexcept {
   logger_.Info("Resolving ", name_, " for ",
                family_ == AF_INET ? "ipv4" : "ipv6");
-  dns_resolver_->Resolve(name_, family_, *this);
+  Resolve();
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -35,6 +40,7 @@ void SatelliteDnsResolutionManager::Start() noexcept {
 void SatelliteDnsResolutionManager::OnDnsResolution(
     const DnsResolution& dns_resolution,
     opentracing::string_view error_message) noexcept try {
+  is_resolving_ = false;
   if (!error_message.empty()) {
     logger_.Debug("Failed to resolve ", name_, ": ", error_message);
     return OnFailure();
@@ -61,22 +67,37 @@ void SatelliteDnsResolutionManager::OnDnsResolution(
   OnFailure();
 }
 
+//--------------------------------------------------------------------------------------------------
+// Resolve
+//--------------------------------------------------------------------------------------------------
+void SatelliteDnsResolutionManager::Resolve() noexcept {
+  is_resolving_ = true;
+  dns_resolver_->Resolve(name_, family_, *this);
+}
+
+//--------------------------------------------------------------------------------------------------
+// ScheduleResolve
+//--------------------------------------------------------------------------------------------------
+void SatelliteDnsResolutionManager::ScheduleResolve(
+    std::chrono::microseconds delay) {
+  auto tv = ToTimeval(delay);
+  refresh_timer_.Reset(&tv);
+}
+
 //--------------------------------------------------------------------------------------------------
 // OnRefresh
 //--------------------------------------------------------------------------------------------------
 void SatelliteDnsResolutionManager::OnRefresh() noexcept {
-  dns_resolver_->Resolve(name_, family_, *this);
+  if (!is_resolving_) {
+    Resolve();
+  }
 }
 
 //--------------------------------------------------------------------------------------------------
 // OnFailure
 //--------------------------------------------------------------------------------------------------
 void SatelliteDnsResolutionManager::OnFailure() noexcept try {
-  event_base_.OnTimeout(
-      recorder_options_.dns_failure_retry_period,
-      MakeTimerCallback<SatelliteDnsResolutionManager,
-                        &SatelliteDnsResolutionManager::OnRefresh>(),
-      static_cast<void*>(this));
+  ScheduleResolve(recorder_options_.dns_failure_retry_period);
 } catch (const std::exception& e) {
   logger_.Error("OnFailure failed: ", e.what());
 }
@@ -85,14 +106,9 @@ void SatelliteDnsResolutionManager::OnFailure() noexcept try {
 // SetupRefresh
 //--------------------------------------------------------------------------------------------------
 void SatelliteDnsResolutionManager::ScheduleRefresh() noexcept try {
-  auto refresh_timeout = GenerateRandomDuration(
+  ScheduleResolve(GenerateRandomDuration(
       recorder_options_.min_dns_resolution_refresh_period,
-      recorder_options_.max_dns_resolution_refresh_period);
-  event_base_.OnTimeout(
-      refresh_timeout,
-      MakeTimerCallback<SatelliteDnsResolutionManager,
-                        &SatelliteDnsResolutionManager::OnRefresh>(),
-      static_cast<void*>(this));
+      recorder_options_.max_dns_resolution_refresh_period));
 } catch (const std::exception& e) {
   logger_.Error("ScheduleRefresh failed: ", e.what());
 }
diff --git a/src/recorder/stream_recorder/satellite_dns_resolution_manager.h b/src/recorder/stream_recorder/satellite_dns_resolution_manager.h
index 1eb2f4d..e4b3741 100644
--- a/src/recorder/stream_recorder/satellite_dns_resolution_manager.h
+++ b/src/recorder/stream_recorder/satellite_dns_resolution_manager.h
@@ -48,15 +48,25 @@ class SatelliteDnsResolutionManager final : public DnsResolutionCallback,
 
  private:
   Logger& logger_;
-  EventBase& event_base_;
-  std::unique_ptr<DnsResolver> dns_resolver_;
   const StreamRecorderOptions& recorder_options_;
+
+  // Always armed, so that rescheduling needs no memory and can't fail; it's
+  // ignored while a resolution is under way.
+  TimerEvent refresh_timer_;
+  bool is_resolving_{false};
+
+  // Destroying it ends a resolution under way, which uses the members above.
+  std::unique_ptr<DnsResolver> dns_resolver_;
   int family_;
   const char* name_;
   std::function<void()> on_ready_callback_;
 
   std::vector<IpAddress> ip_addresses_;
 
+  void Resolve() noexcept;
+
+  void ScheduleResolve(std::chrono::microseconds delay);
+
   void OnRefresh() noexcept;
 
   void OnFailure() noexcept;
-- 
2.43.0


From dc46d4e219c56110dd9709f36e6260c802f787a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 22/30] fix: running out of memory could end a satellite
 connection for good

---
 src/recorder/serialization/embedded_metrics_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/recorder/serialization/embedded_metrics_message.cpp b/src/recorder/serialization/embedded_metrics_message.cpp
index 7f79dd9..83aa3e9 100644
--- a/src/recorder/serialization/embedded_metrics_message.cpp
+++ b/src/recorder/serialization/embedded_metrics_message.cpp
@@ -11,6 +11,10 @@ namespace lightstep {
 EmbeddedMetricsMessage::EmbeddedMetricsMessage()
     : dropped_spans_count_{*message_.add_counts()} {
   dropped_spans_count_.set_name("spans.dropped");
+  // Make the buffer large enough for any count: a connection's stream is set up
+  // anew while handling failures and must not run out of memory then.
+  dropped_spans_count_.set_int_value(-1);
+  MakeFragment();
   dropped_spans_count_.set_int_value(0);
 }
 
-- 
2.43.0


From a7305013303025bf49b544cceca1f5fa334c6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 23/30] fix: running out of memory could lose a timer for good

---
 src/network/event_base.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/network/event_base.cpp b/src/network/event_base.cpp
index 5dc7b92..abf1518 100644
--- a/src/network/event_base.cpp
+++ b/src/network/event_base.cpp
@@ -3,12 +3,30 @@
 #include <cassert>
 #include <sstream>
 #include <stdexcept>
+#include <vector>
 
 #include "common/utility.h"
 
 #include <event2/event.h>
 
 namespace lightstep {
+//------------------------------------------------------------------------------
+// ReserveTimers
+//------------------------------------------------------------------------------
+// libevent allocates memory for a timer only if more are registered than ever
+// before. Register some, so that there's room later when timers are needed to
+// recover from running out of memory.
+static void ReserveTimers(const EventBase& event_base) {
+  const int num_timers = 64;
+  std::vector<Event> timers;
+  timers.reserve(num_timers);
+  for (int i = 0; i < num_timers; ++i) {
+    timers.emplace_back(
+        event_base, -1, 0, [](FileDescriptor, short, void*) {}, nullptr);
+    timers.back().Add(std::chrono::hours{1});
+  }
+}
+
 //------------------------------------------------------------------------------
 // constructor
 //------------------------------------------------------------------------------
@@ -17,6 +35,12 @@ EventBase::EventBase() {
   if (event_base_ == nullptr) {
     throw std::runtime_error{"event_base_new failed"};
   }
+  try {
+    ReserveTimers(*this);
+  } catch (...) {
+    event_base_free(event_base_);
+    throw;
+  }
 }
 
 EventBase::EventBase(EventBase&& other) noexcept {
-- 
2.43.0


From 573b2942db94e253d2a2dcc9c9eee5d84e61efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 24/30] fix: never record a negative span duration

A start time given in system time only is converted with the current
difference of the clocks. If the system clock was set back in between, the
start lies after the finish and the negative difference was written as an
unsigned number of microseconds, about 580,000 years.
---
 src/tracer/legacy/legacy_span.cpp | 8 +++++++-
 src/tracer/span.cpp               | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index 2c6e93b..aa1cdcc 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -1,5 +1,7 @@
 #include "tracer/legacy/legacy_span.h"
 
+#include <algorithm>
+
 #include "common/random.h"
 #include "common/utility.h"
 #include "tracer/tag.h"
@@ -107,7 +109,11 @@ void LegacySpan::FinishWithOptions(
   }
 
   // Set timing information.
-  auto duration = finish_timestamp - start_steady_;
+  //
+  // Note: If the system clock was set back, a start given in system time can be
+  // later than the finish.
+  auto duration =
+      std::max(finish_timestamp - start_steady_, SteadyClock::duration{0});
   span_.set_duration_micros(
       std::chrono::duration_cast<std::chrono::microseconds>(duration).count());
 
diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index f056c85..eb4f8f5 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -1,5 +1,6 @@
 #include "tracer/span.h"
 
+#include <algorithm>
 #include <tuple>
 
 #include "common/random.h"
@@ -247,7 +248,11 @@ void Span::FinishImpl(
   }
 
   // Set timing information.
-  auto duration = finish_timestamp - start_steady_;
+  //
+  // Note: If the system clock was set back, a start given in system time can be
+  // later than the finish.
+  auto duration =
+      std::max(finish_timestamp - start_steady_, SteadyClock::duration{0});
   WriteDuration(*coded_stream_, duration);
 
   // Set logs
-- 
2.43.0


From b228f21d0a1e163ee90c3512a5d6357cac20b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 25/30] fix: running out of memory in a flush lost the count of
 dropped spans

ManualRecorder::FlushWithTimeout took the counter before it allocated the report
that carries it. If that allocation failed, the spans dropped so far were never
reported.
---
 src/recorder/manual_recorder.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/recorder/manual_recorder.cpp b/src/recorder/manual_recorder.cpp
index 0c92cf1..5538c96 100644
--- a/src/recorder/manual_recorder.cpp
+++ b/src/recorder/manual_recorder.cpp
@@ -82,8 +82,16 @@ void ManualRecorder::RecordSpan(
 //--------------------------------------------------------------------------------------------------
 bool ManualRecorder::FlushWithTimeout(
     std::chrono::system_clock::duration /*timeout*/) noexcept try {
-  std::unique_ptr<ReportRequest> report_request{new ReportRequest{
-      report_request_header_, metrics_.ConsumeDroppedSpans()}};
+  std::unique_ptr<ReportRequest> report_request;
+  auto num_dropped_spans = metrics_.ConsumeDroppedSpans();
+  try {
+    report_request.reset(
+        new ReportRequest{report_request_header_, num_dropped_spans});
+  } catch (...) {
+    // There's no report to carry the counter so add it back
+    metrics_.UnconsumeDroppedSpans(num_dropped_spans);
+    throw;
+  }
   {
     std::lock_guard<std::mutex> lock_guard{flush_mutex_};
     auto num_spans = span_buffer_.size();
-- 
2.43.0


From 79e04999f12b739c067f7d535cdffc3c01a07bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 26/30] fix: a status line that never ends was kept without
 bound

---
 src/recorder/stream_recorder/status_line_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/stream_recorder/status_line_parser.cpp b/src/recorder/stream_recorder/status_line_parser.cpp
index 42428d2..eef8807 100644
--- a/src/recorder/stream_recorder/status_line_parser.cpp
+++ b/src/recorder/stream_recorder/status_line_parser.cpp
@@ -5,6 +5,8 @@
 #include <stdexcept>
 
 namespace lightstep {
+static const size_t MaxStatusLineSize = 1 << 16;
+
 //--------------------------------------------------------------------------------------------------
 // Reset
 //--------------------------------------------------------------------------------------------------
@@ -25,6 +27,9 @@ void StatusLineParser::Parse(opentracing::string_view s) {
   complete_ = i != s.end();
   if (complete_) {
     ParseFields();
+  } else if (line_.size() > MaxStatusLineSize) {
+    Reset();
+    throw std::runtime_error{"Http status line too long"};
   }
 }
 
-- 
2.43.0


From f4fea40568f6823e1dbb1a0c5327f18d1ee6ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 27/30] fix: numbers after an escaped character were written to
 JSON values in hexadecimal

---
 src/common/utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index dda85bc..a9c8039 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -77,7 +77,7 @@ static void WriteEscapedString(std::ostringstream& writer,
             c <= static_cast<signed char>('\x1f')) {
           writer << R"(\u)";
           writer << std::hex << std::setw(4) << std::setfill('0')
-                 << static_cast<int>(c);
+                 << static_cast<int>(c) << std::dec;
         } else {
           writer << c;
         }
-- 
2.43.0


From 9fd833b686fd74ff5719abd354f1554454083700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 28/30] fix: running out of memory while tagging a span
 corrupted it or crashed

---
 src/common/chained_stream.cpp | 8 +++++++-
 src/tracer/span.cpp           | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 0c40af4..f5b1e0b 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -1,6 +1,7 @@
 #include "common/chained_stream.h"
 
 #include <cassert>
+#include <new>
 
 namespace lightstep {
 //--------------------------------------------------------------------------------------------------
@@ -31,7 +32,12 @@ bool ChainedStream::Next(void** data, int* size) {
     current_block_->size = BlockSize;
     return true;
   }
-  current_block_->next.reset(new Block{});
+  // Note: protobuf's streams can't be used any more after an exception, so
+  // failure is reported by the return value.
+  current_block_->next.reset(new (std::nothrow) Block{});
+  if (current_block_->next == nullptr) {
+    return false;
+  }
   current_block_ = current_block_->next.get();
   current_block_->size = BlockSize;
   current_block_position_ = BlockSize;
diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index eb4f8f5..d51c581 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -269,6 +269,10 @@ void Span::FinishImpl(
 
   // Record the span
   tracer_->recorder().WriteFooter(*coded_stream_);
+  if (coded_stream_->HadError()) {
+    tracer_->logger().Error("Dropping span: failed to allocate memory");
+    return;
+  }
   coded_stream_.reset();
   tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));
 } catch (const std::exception& e) {
-- 
2.43.0


From 2cc000a5872565d206aff6538c4f75d03ba1e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 29/30] fix: a satellite that sends without end kept the event
 loop from doing anything else

---
 src/recorder/stream_recorder/satellite_connection.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index a653c24..4fc6af4 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -13,6 +13,8 @@
 #include <event2/event.h>
 
 namespace lightstep {
+static const int MaxReadsPerEvent = 64;
+
 //--------------------------------------------------------------------------------------------------
 // constructor
 //--------------------------------------------------------------------------------------------------
@@ -241,7 +243,10 @@ void SatelliteConnection::OnReadable(FileDescriptor file_descriptor,
   int rcode;
 
   // Read satellite response
-  while (true) {
+  //
+  // Note: the number of reads is bounded so that a satellite that sends without
+  // end can't keep the event loop from doing anything else.
+  for (int i = 0; i < MaxReadsPerEvent; ++i) {
     rcode =
         Read(file_descriptor, static_cast<void*>(buffer.data()), buffer.size());
     if (rcode <= 0) {
@@ -251,6 +256,9 @@ void SatelliteConnection::OnReadable(FileDescriptor file_descriptor,
         opentracing::string_view{buffer.data(), static_cast<size_t>(rcode)});
   }
 
+  if (rcode > 0) {
+    return read_event_.Add(nullptr);
+  }
   if (rcode == 0) {
     if (!status_line_parser_.completed()) {
       streamer_.logger().Error("No status line from satellite response");
-- 
2.43.0


From 6f4647e7ab79ee7f061055b08ca9ce796865fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:43 +0000
Subject: [PATCH 30/30] fix: each thread that generated an identifier
 registered another fork handler

---
 src/common/random.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e924652..d631bf0 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -44,13 +44,16 @@ class FallbackSeedSequence {
 
 class TlsRandomNumberGenerator {
  public:
-  TlsRandomNumberGenerator() {
-    Seed();
-    AtFork(nullptr, nullptr, OnFork);
-  }
+  TlsRandomNumberGenerator() { Seed(); }
 
   static FastRandomNumberGenerator& engine() noexcept { return engine_; }
 
+  // Fork handlers can't be removed, so there's one for all threads: it reseeds
+  // the generator of the thread that forked, the only one in the child.
+  static int RegisterForkHandler() noexcept {
+    return AtFork(nullptr, nullptr, OnFork);
+  }
+
  private:
   static thread_local FastRandomNumberGenerator engine_;
 
@@ -71,6 +74,9 @@ class TlsRandomNumberGenerator {
 };
 
 thread_local FastRandomNumberGenerator TlsRandomNumberGenerator::engine_{};
+
+const int fork_handler_registration =
+    TlsRandomNumberGenerator::RegisterForkHandler();
 }  // namespace
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0

