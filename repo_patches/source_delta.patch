From 512106329941bca1672f7f6bed9fce092e83e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:35 +0000
Subject: [PATCH 01/28] fix: close and remove lock file if adjusting its
 permissions fails

---
 score/memory/shared/lock_file.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/lock_file.cpp b/score/memory/shared/lock_file.cpp
index 6db8448..b8169dc 100644
--- a/score/memory/shared/lock_file.cpp
+++ b/score/memory/shared/lock_file.cpp
@@ -45,6 +45,10 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << create_result.error().ToString();
         return {};
     }
+    // From here on the handle closes and removes the file that was just created, also if a following step fails.
+    constexpr bool owns_file{true};
+    LockFile lock_file{path, create_result.value(), owns_file};
+
     auto result = score::os::Stat::instance().chmod(path.data(), kReadAccessForAll);
     if (!result.has_value())
     {
@@ -52,8 +56,7 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << result.error().ToString();
         return {};
     }
-    constexpr bool owns_file{true};
-    return LockFile{std::move(path), create_result.value(), owns_file};
+    return std::optional<LockFile>{std::move(lock_file)};
 }
 
 std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_ownership) noexcept
@@ -76,6 +79,9 @@ std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_owner
     {
         score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        // The file might have been created by somebody else, so it is only closed, but not removed.
+        // NOLINTNEXTLINE(score-banned-function): See above.
+        score::cpp::ignore = ::score::os::Unistd::instance().close(create_result.value());
         return {};
     }
     return LockFile{std::move(path), create_result.value(), take_ownership};
-- 
2.43.0


From fa8c1c42256b8f19affd67b662617a9063d88d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:14 +0000
Subject: [PATCH 02/28] fix: return queued send commands to the pool when the
 client connection stops

---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2cd2e44..55f4036 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -598,8 +598,10 @@ void ClientConnection::SwitchToStopState() noexcept
     }
     while (!send_queue_.empty())
     {
-        auto callback = std::move(send_queue_.front().callback);
+        SendCommand& send = send_queue_.front();
         send_queue_.pop_front();
+        auto callback = std::move(send.callback);
+        send_pool_.push_front(send);
         if (!callback.empty())
         {
             lock.unlock();
-- 
2.43.0


From 1fb0d2f6ec26073223f9fe48e3fe05dca39e3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:14 +0000
Subject: [PATCH 03/28] fix: release the reply slot before re-arming the send
 queue after a failed SendWaitReply

---
 score/message_passing/client_connection.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 55f4036..d815103 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -210,14 +210,10 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
         lock.lock();
         if (!expected.has_value())
         {
-            if (send_queue_.empty())
-            {
-                // no one managed to get into queue while we were blocking it
-                waiting_for_reply_.reset();
-            }
-            else
+            waiting_for_reply_.reset();
+            if (!send_queue_.empty())
             {
-                // unblock the queue
+                // someone managed to get into queue while we were blocking it; unblock the queue
                 ArmSendQueueUnderLock();
             }
             return score::cpp::make_unexpected(expected.error());
-- 
2.43.0


From 1aa57b9cf6dc3073f6a33f33bcd508bc44f65da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:14 +0000
Subject: [PATCH 04/28] fix: treat a reply without an outstanding request as a
 protocol error even while the send queue is armed

---
 score/message_passing/client_connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index d815103..6ba20bb 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -469,7 +469,8 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
         case score::cpp::to_underlying(ServerToClient::REPLY):
         {
             std::unique_lock<std::mutex> lock{send_mutex_};
-            if (waiting_for_reply_.has_value())
+            // an empty callback only occupies the slot on behalf of the send queue; there is no request to reply to
+            if (waiting_for_reply_.has_value() && !waiting_for_reply_->empty())
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
-- 
2.43.0


From f49aa1676fa065d40af66e9668d03cf027e036e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 05/28] fix: wait for a reply callback already taken by the
 callback thread when SendWaitReply fails to send

---
 score/message_passing/client_connection.cpp | 8 +++++++-
 score/message_passing/client_connection.h   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 6ba20bb..e460dd3 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -58,6 +58,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       send_pool_{},
       send_queue_{},
       waiting_for_reply_{},
+      sync_reply_owner_{nullptr},
       connection_timer_{},
       disconnection_command_{},
       async_send_command_{},
@@ -204,12 +205,15 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     else
     {
         waiting_for_reply_ = std::move(callback);
+        sync_reply_owner_ = &result;
         lock.unlock();
         const auto expected =
             engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
-        if (!expected.has_value())
+        // if the callback has been taken by the callback thread in the meantime, we need to wait for its completion
+        if (!expected.has_value() && (sync_reply_owner_ == &result))
         {
+            sync_reply_owner_ = nullptr;
             waiting_for_reply_.reset();
             if (!send_queue_.empty())
             {
@@ -474,6 +478,7 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
+                sync_reply_owner_ = nullptr;
                 ProcessSendQueueUnderLock(lock);
                 lock.unlock();
                 callback(message);
@@ -586,6 +591,7 @@ void ClientConnection::SwitchToStopState() noexcept
     {
         auto callback = std::move(*waiting_for_reply_);
         waiting_for_reply_.reset();
+        sync_reply_owner_ = nullptr;
         lock.unlock();
         if (!callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 36cce14..b3e32a0 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -132,6 +132,8 @@ class ClientConnection final : public IClientConnection
     score::containers::intrusive_list<SendCommand> send_queue_;
 
     std::optional<ReplyCallback> waiting_for_reply_;
+    // identifies the SendWaitReply() call that stored its own callback in waiting_for_reply_, if any
+    const void* sync_reply_owner_;
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
-- 
2.43.0


From 01e8d34a72d9aa93efd7e039bfa7a824db1c652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 06/28] fix: refuse to send messages whose length does not fit
 into the frame header

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index c01611a..0f9523c 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -15,6 +15,7 @@
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
 #include <future>
+#include <limits>
 #include <tuple>
 
 namespace score::message_passing
@@ -192,6 +193,12 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     std::uint8_t code,
     const score::cpp::span<const std::uint8_t> message) noexcept
 {
+    if (message.size() > std::numeric_limits<std::uint16_t>::max())
+    {
+        // the length would not fit into the frame header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
+    }
+
     struct msghdr msg;
     std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
     constexpr auto kVectorCount = 3UL;
-- 
2.43.0


From 33faae0239610185adf2fed543cd2b2922b28587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 07/28] fix: report a partially sent frame as an error

---
 .../unix_domain/unix_domain_engine.cpp                | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 0f9523c..f04e282 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -218,11 +218,16 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     using MessageFlag = ::score::os::Socket::MessageFlag;
     const auto result_expected =
         os_resources_.socket->sendmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
-    if (result_expected.has_value())
+    if (!result_expected.has_value())
     {
-        return {};
+        return score::cpp::make_unexpected(result_expected.error());
+    }
+    if (static_cast<std::size_t>(result_expected.value()) != sizeof(code) + sizeof(size) + message.size())
+    {
+        // only a part of the frame was sent
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EIO));
     }
-    return score::cpp::make_unexpected(result_expected.error());
+    return {};
 }
 
 score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> UnixDomainEngine::ReceiveProtocolMessage(
-- 
2.43.0


From 50a4d9e5442f73256e6e91e586a9ee2fe223d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 08/28] fix: do not process a frame whose header was only
 partially received

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index f04e282..a7a6e53 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -259,6 +259,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
         // other side disconnected
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
     }
+    if (static_cast<std::size_t>(size_expected.value()) != sizeof(code) + sizeof(size))
+    {
+        // other side disconnected in the middle of the frame header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EIO));
+    }
     if (size == 0)
     {
         return {};
-- 
2.43.0


From 6ca963099bca5ad681d0592929bacc32c565c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 09/28] fix: compare the frame length with the whole receive
 buffer size

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index a7a6e53..97df39c 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -268,7 +268,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
     {
         return {};
     }
-    if (size > static_cast<std::uint16_t>(posix_receive_buffer_.size()))
+    if (size > posix_receive_buffer_.size())
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
-- 
2.43.0


From da957ba81ab83bafef55b2d9e38d12d7ae64e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 10/28] fix: do not wait indefinitely for a command that became
 due while the queue was processed

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 97df39c..53a959e 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -369,6 +369,11 @@ std::int32_t UnixDomainEngine::ProcessTimerQueue() noexcept
     {
         return INT32_MAX;
     }
+    if (distance_ms < 0)
+    {
+        // the entry became due in the meantime; a negative timeout would make poll() wait indefinitely
+        return 0;
+    }
     // At this point distance_ms < INT32_MAX, so adding 1 cannot overflow.
     return static_cast<std::int32_t>(distance_ms + 1);
 }
-- 
2.43.0


From 6372c1b7c98f6b556090f05a2e027593e80c218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 11/28] fix: survive a failed accept on the server socket

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index eb87c2d..fa00977 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -237,7 +237,13 @@ void UnixDomainServer::ProcessConnect() noexcept
 {
     auto& socket = engine_->GetOsResources().socket;
 
-    const std::int32_t data_fd = socket->accept(server_fd_, nullptr, nullptr).value();
+    const auto accept_expected = socket->accept(server_fd_, nullptr, nullptr);
+    if (!accept_expected.has_value())
+    {
+        // e.g. the client has already given up, or the process ran out of descriptors
+        return;
+    }
+    const std::int32_t data_fd = accept_expected.value();
 #ifdef __QNX__
     // no support for SO_PEERCRED on QNX
     ClientIdentity identity{0, 0, 0};
-- 
2.43.0


From c971ef67b7efe705f04888969daac8dc80e4c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 12/28] fix: reject subscriptions whose sample count sum does
 not fit into the subscription state

---
 .../impl/bindings/lola/event_subscription_control.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/event_subscription_control.cpp b/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
index 7bf0af3..005bf06 100644
--- a/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
+++ b/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
@@ -14,6 +14,8 @@
 #include "score/language/safecpp/safe_math/safe_math.h"
 #include "score/mw/log/logging.h"
 
+#include <limits>
+
 namespace score::mw::com::impl::lola
 {
 namespace
@@ -93,6 +95,15 @@ auto EventSubscriptionControl<AtomicIndirectorType>::Subscribe(SlotNumberType sl
             return SubscribeResult::kSlotOverflow;
         }
 
+        // Even if the configured maximum isn't enforced, the sum has to be representable: a wrapped sum would make the
+        // later Unsubscribe() calls fail.
+        if ((current_subscribed_slots + slot_count) > std::numeric_limits<SlotNumberType>::max())
+        {
+            mw::log::LogInfo("lola") << "EventSubscriptionControl<>::Subscribe() rejected as the number of subscribed "
+                                        "slots would overflow.";
+            return SubscribeResult::kSlotOverflow;
+        }
+
         std::uint32_t new_state = CreateState(static_cast<SubscriberCountType>(current_subscribers + 1U),
                                               // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An
                                               // integer expression shall not lead to data loss.". The check above
-- 
2.43.0


From f305ea9a7637a702d8fcc9468cda9489ebf7e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 13/28] fix: compare the full sample count when subscribing
 again while the subscription is pending

---
 .../lola/subscription_subscription_pending_states.cpp     | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
index 2fbdd4b..02664d6 100644
--- a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
@@ -30,13 +30,7 @@ namespace score::mw::com::impl::lola
 
 Result<void> SubscriptionPendingState::SubscribeEvent(const std::size_t max_sample_count)
 {
-    // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
-    // not lead to data loss.".
-    // This is an in purpose casting and below we do check on the max_sample_count and an error reported in case of
-    // different max_sample_count.
-    // coverity[autosar_cpp14_a4_7_1_violation]
-    const auto max_sample_count_uint8 = static_cast<std::uint8_t>(max_sample_count);
-    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count_uint8)
+    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count)
     {
         ::score::mw::log::LogWarn("lola")
             << CreateLoggingString("Calling SubscribeEvent() while subscription is pending has no effect.",
-- 
2.43.0


From 483f692795d74667b2da38baeedb5550d31e3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:33 +0000
Subject: [PATCH 14/28] fix: reject sample counts that a subscription cannot
 represent

---
 .../lola/subscription_not_subscribed_states.cpp      | 12 ++++++++++++
 .../bindings/lola/subscription_subscribed_states.cpp |  8 +-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp b/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
index c593af3..cda1fb1 100644
--- a/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
@@ -24,6 +24,9 @@
 
 #include <score/utility.hpp>
 
+#include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <sstream>
 #include <utility>
@@ -37,6 +40,15 @@ namespace score::mw::com::impl::lola
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 Result<void> NotSubscribedState::SubscribeEvent(const std::size_t max_sample_count)
 {
+    if (max_sample_count > static_cast<std::size_t>(std::numeric_limits<std::uint16_t>::max()))
+    {
+        ::score::mw::log::LogError("lola") << CreateLoggingString(
+            "Subscribe was rejected as the max_sample_count exceeds the number of samples that can be subscribed.",
+            state_machine_.GetElementFqId(),
+            state_machine_.GetCurrentStateNoLock());
+        return MakeUnexpected(ComErrc::kMaxSampleCountNotRealizable);
+    }
+
     auto transaction_log_registration_guard_result = state_machine_.transaction_log_set_.RegisterProxyElement(
         state_machine_.transaction_log_id_, state_machine_.event_data_control_local_);
     if (!(transaction_log_registration_guard_result.has_value()))
diff --git a/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp b/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
index 86d1ef1..2877437 100644
--- a/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
@@ -28,13 +28,7 @@ namespace score::mw::com::impl::lola
 
 Result<void> SubscribedState::SubscribeEvent(const std::size_t max_sample_count)
 {
-    // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
-    // not lead to data loss.".
-    // This is an in purpose casting and below we do check on the max_sample_count and an error reported in case of
-    // different max_sample_count.
-    // coverity[autosar_cpp14_a4_7_1_violation]
-    const auto max_sample_count_uint16 = static_cast<std::uint16_t>(max_sample_count);
-    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count_uint16)
+    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count)
     {
         ::score::mw::log::LogWarn("lola")
             << CreateLoggingString("Calling SubscribeEvent() while already subscribed has no effect.",
-- 
2.43.0


From 535cb38734f30d08ace992097f164b4dc456dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 15/28] fix: compare inter-VM settings in
 LolaServiceInstanceDeployment::operator==

Two deployments which differ in inter_vm_support_ or inter_vm_forwarded_
compared equal although both members are configured independently and
serialized.
---
 .../impl/configuration/lola_service_instance_deployment.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/configuration/lola_service_instance_deployment.cpp b/score/mw/com/impl/configuration/lola_service_instance_deployment.cpp
index 873ac6a..9753d3d 100644
--- a/score/mw/com/impl/configuration/lola_service_instance_deployment.cpp
+++ b/score/mw/com/impl/configuration/lola_service_instance_deployment.cpp
@@ -129,7 +129,8 @@ bool operator==(const LolaServiceInstanceDeployment& lhs, const LolaServiceInsta
             (lhs.control_qm_memory_size_ == rhs.control_qm_memory_size_) && (lhs.events_ == rhs.events_) &&
             (lhs.fields_ == rhs.fields_) && (lhs.methods_ == rhs.methods_) &&
             (lhs.strict_permissions_ == rhs.strict_permissions_) && (lhs.allowed_consumer_ == rhs.allowed_consumer_) &&
-            (lhs.allowed_provider_ == rhs.allowed_provider_));
+            (lhs.allowed_provider_ == rhs.allowed_provider_) && (lhs.inter_vm_support_ == rhs.inter_vm_support_) &&
+            (lhs.inter_vm_forwarded_ == rhs.inter_vm_forwarded_));
 }
 
 bool operator<(const LolaServiceInstanceDeployment& lhs, const LolaServiceInstanceDeployment& rhs) noexcept
-- 
2.43.0


From d4456dba47093473f437c2946d7a645025c0cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 16/28] fix: make operator< of ServiceInstanceDeployment a
 strict weak order

The ASIL level was looked at only if the binding information compared
equal, but the order of the binding information is coarser than its
equality. Deployments that differ in binding information of the same
instance were unordered whatever their ASIL level, so that
incomparability was not transitive.
---
 .../impl/configuration/service_instance_deployment.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/impl/configuration/service_instance_deployment.cpp b/score/mw/com/impl/configuration/service_instance_deployment.cpp
index 23c82be..c744c05 100644
--- a/score/mw/com/impl/configuration/service_instance_deployment.cpp
+++ b/score/mw/com/impl/configuration/service_instance_deployment.cpp
@@ -74,11 +74,15 @@ auto operator==(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeplo
 
 auto operator<(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeployment& rhs) -> bool
 {
-    if (lhs.bindingInfo_ == rhs.bindingInfo_)
+    if (lhs.bindingInfo_ < rhs.bindingInfo_)
     {
-        return lhs.asilLevel_ < rhs.asilLevel_;
+        return true;
     }
-    return lhs.bindingInfo_ < rhs.bindingInfo_;
+    if (rhs.bindingInfo_ < lhs.bindingInfo_)
+    {
+        return false;
+    }
+    return lhs.asilLevel_ < rhs.asilLevel_;
 }
 
 auto areCompatible(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeployment& rhs) -> bool
-- 
2.43.0


From a11a43a6928de439e6f97052c692e8a122b12675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 17/28] fix: compare the sizes of shared memory vector and
 std::vector

Comparing with a shorter vector read behind its end, comparing with a
longer one with the same prefix reported equality.
---
 score/memory/shared/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/vector.h b/score/memory/shared/vector.h
index f12d2df..bf37e27 100644
--- a/score/memory/shared/vector.h
+++ b/score/memory/shared/vector.h
@@ -33,7 +33,7 @@ template <typename T>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(const Vector<T>& lhs, std::vector<T> rhs) noexcept
 {
-    return (std::equal(lhs.begin(), lhs.end(), rhs.begin()) == true);
+    return (std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()) == true);
 }
 
 template <typename T>
@@ -45,7 +45,7 @@ template <typename T>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(std::vector<T> lhs, const Vector<T>& rhs) noexcept
 {
-    return (std::equal(lhs.begin(), lhs.end(), rhs.begin()) == true);
+    return (std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()) == true);
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From 96e53d4a1ca07420ba3080057aca58fb5e37b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 18/28] fix: compare shared memory string and std::string over
 their whole length

The right hand side was taken as a null-terminated string: equal strings
with an embedded null character compared unequal.
---
 score/memory/shared/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/string.h b/score/memory/shared/string.h
index caec462..14a8d9a 100644
--- a/score/memory/shared/string.h
+++ b/score/memory/shared/string.h
@@ -44,7 +44,7 @@ template <typename CharT, typename Traits>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(const BasicString<CharT, Traits>& lhs, const std::string& rhs) noexcept
 {
-    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data()) == 0));
+    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data(), rhs.size()) == 0));
 }
 
 template <typename CharT, typename Traits>
@@ -64,7 +64,7 @@ template <typename CharT, typename Traits>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(const std::string& lhs, const BasicString<CharT, Traits>& rhs) noexcept
 {
-    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data()) == 0));
+    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data(), rhs.size()) == 0));
 }
 
 template <typename CharT, typename Traits>
-- 
2.43.0


From f70768a49534c4f7d5bf59569a84aeb106c248fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 19/28] fix: take a proxy's instance id from its handle for its
 methods

The deployment of a handle found via a find-any search contains no instance id: a proxy with methods for such a
handle accessed the empty optional (respectively failed the assertion in GetMethodChannelShmName) and aborted.
---
 score/mw/com/impl/bindings/lola/proxy.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/proxy.cpp b/score/mw/com/impl/bindings/lola/proxy.cpp
index 589126b..8543c99 100644
--- a/score/mw/com/impl/bindings/lola/proxy.cpp
+++ b/score/mw/com/impl/bindings/lola/proxy.cpp
@@ -155,6 +155,14 @@ const LolaServiceInstanceDeployment& GetLoLaInstanceDeployment(const score::mw::
     return GetServiceInstanceDeploymentBinding<LolaServiceInstanceDeployment>(service_instance_deployment);
 }
 
+// The instance id has to be taken from the handle: the deployment contains none if the service instance was found via a
+// find any search.
+LolaServiceInstanceId::InstanceId GetLolaServiceInstanceId(const score::mw::com::impl::HandleType& handle)
+{
+    const auto service_instance_id = handle.GetInstanceId();
+    return GetServiceInstanceIdBinding<LolaServiceInstanceId>(service_instance_id).GetId();
+}
+
 const LolaServiceTypeDeployment& GetLoLaServiceTypeDeployment(const score::mw::com::impl::HandleType& handle) noexcept
 {
     const auto& instance_identifier = InstanceIdentifierView{handle.GetInstanceIdentifier()};
@@ -526,7 +534,7 @@ void Proxy::ServiceAvailabilityChangeHandler(const bool is_service_available)
         auto& lola_message_passing = lola_runtime.GetLolaMessaging();
         const SkeletonInstanceIdentifier skeleton_instance_identifier{
             GetLoLaServiceTypeDeployment(handle_).service_id_,
-            LolaServiceInstanceId{GetLoLaInstanceDeployment(handle_).instance_id_.value()}.GetId()};
+            GetLolaServiceInstanceId(handle_)};
 
         const auto subscribe_service_method_result = lola_message_passing.SubscribeServiceMethod(
             quality_type_, skeleton_instance_identifier, proxy_instance_identifier_, GetSourcePid());
@@ -683,7 +691,7 @@ score::Result<void> Proxy::SetupMethods(const std::size_t additional_shm_size_by
     auto& lola_message_passing = lola_runtime.GetLolaMessaging();
     const SkeletonInstanceIdentifier skeleton_instance_identifier{
         GetLoLaServiceTypeDeployment(handle_).service_id_,
-        LolaServiceInstanceId{GetLoLaInstanceDeployment(handle_).instance_id_.value()}.GetId()};
+        GetLolaServiceInstanceId(handle_)};
 
     const auto method_shm_path_name = GetMethodChannelShmName();
 
@@ -763,7 +771,7 @@ void Proxy::CleanupMethods()
         auto& lola_message_passing = lola_runtime.GetLolaMessaging();
         const SkeletonInstanceIdentifier skeleton_instance_identifier{
             GetLoLaServiceTypeDeployment(handle_).service_id_,
-            LolaServiceInstanceId{GetLoLaInstanceDeployment(handle_).instance_id_.value()}.GetId()};
+            GetLolaServiceInstanceId(handle_)};
         const auto result = lola_message_passing.UnsubscribeServiceMethod(
             quality_type_, skeleton_instance_identifier, proxy_instance_identifier_, GetSourcePid());
         if (!(result.has_value()))
@@ -899,13 +907,9 @@ std::vector<TypeErasedCallQueue::TypeErasedElementInfo> Proxy::GetTypeErasedElem
 
 std::string Proxy::GetMethodChannelShmName() const
 {
-    const auto& lola_instance_deployment = GetLoLaInstanceDeployment(handle_);
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(lola_instance_deployment.instance_id_.has_value());
-    const auto lola_instance_id = lola_instance_deployment.instance_id_.value();
-
     const auto& lola_service_deployment = GetLoLaServiceTypeDeployment(handle_);
     ShmPathBuilder shm_path_builder{lola_service_deployment.service_id_};
-    return shm_path_builder.GetMethodChannelShmName(lola_instance_id.GetId(), proxy_instance_identifier_);
+    return shm_path_builder.GetMethodChannelShmName(GetLolaServiceInstanceId(handle_), proxy_instance_identifier_);
 }
 
 QualityType Proxy::GetQualityType() const noexcept
-- 
2.43.0


From 571aa791d9b25d4b5ee608e02da14ad397e60b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 20/28] fix: do not bounds check null offset pointers

Getting the address of a null OffsetPtr that lives close to the end of its
memory region terminated the process, because the null representation was
checked as if an object followed the OffsetPtr.
---
 score/memory/shared/offset_ptr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index cd30d87..e36245c 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -553,6 +553,12 @@ auto OffsetPtr<PointedType>::GetPointerWithBoundsCheck(
     const MemoryRegionBounds& offset_ptr_memory_bounds_when_not_in_shm,
     const std::size_t pointed_type_size) -> pointer
 {
+    // A null pointer does not point to any object, so there is nothing which could lie outside of a memory region.
+    if (offset == detail_offset_ptr::kNullPtrRepresentation)
+    {
+        return nullptr;
+    }
+
     if (detail_offset_ptr::IsBoundsCheckingEnabled())
     {
         const auto offset_ptr_bounds = MemoryResourceRegistry::getInstance().GetBoundsFromAddress(offset_ptr_address);
-- 
2.43.0


From c3562e447cdf509d131f42048feee2627113b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:41 +0000
Subject: [PATCH 21/28] fix: keep memory bounds of offset pointers when
 swapping them

---
 score/memory/shared/offset_ptr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index e36245c..f0702b2 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -1099,9 +1099,10 @@ template <typename T>
 // coverity[autosar_cpp14_m3_2_3_violation : FALSE] See rationale for autosar_cpp14_m3_2_3_violation above
 void swap(OffsetPtr<T>& left, OffsetPtr<T>& right) noexcept
 {
-    auto* const right_ptr = OffsetPtr<T>::GetPointerWithoutBoundsCheck(&right, right.offset_);
+    // Copying the OffsetPtr (instead of going via a raw pointer) preserves the memory bounds of both pointers.
+    const OffsetPtr<T> right_copy{right};
     right = left;
-    left = right_ptr;
+    left = right_copy;
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From 9703796f2d03d8990a9928f1d823a6afab3f5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:28 +0000
Subject: [PATCH 22/28] fix: a shared memory resource that was never registered
 removes no registration

---
 score/memory/shared/shared_memory_resource.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index cc67488..ad16d62 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -298,7 +298,12 @@ Stat::Mode SharedMemoryResource::calcStatModeForPermissions(const UserPermission
 // coverity[autosar_cpp14_a12_4_1_violation] only std::enable_shared_from_this has non-virtual destructor
 SharedMemoryResource::~SharedMemoryResource()
 {
-    MemoryResourceRegistry::getInstance().remove_resource(memory_identifier_);
+    // A resource is registered only once it is mapped. One that failed before must not remove the registration of
+    // another resource with the same identifier (e.g. one which is still used after its file was removed).
+    if (this->base_address_ != nullptr)
+    {
+        MemoryResourceRegistry::getInstance().remove_resource(memory_identifier_);
+    }
     if (this->file_descriptor_ != -1)
     {
         this->deinitalizeInternalsInSharedMemory();
-- 
2.43.0


From d5888f72a90984d8d52ab45aa4c77db62d3cf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:04 +0000
Subject: [PATCH 23/28] fix: compare the serialized argument itself, not a
 copy, with the target buffer

The overlap check took the argument by value and so examined the address of
its own copy; regions which only touch do not overlap.
---
 score/mw/com/impl/util/type_erased_storage.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/impl/util/type_erased_storage.h b/score/mw/com/impl/util/type_erased_storage.h
index f2bcbda..b0ad3be 100644
--- a/score/mw/com/impl/util/type_erased_storage.h
+++ b/score/mw/com/impl/util/type_erased_storage.h
@@ -119,7 +119,7 @@ void SerializeArgs(MemoryBufferAccessor& target_buffer, T& arg)
     std::size_t buffer_space_after_align = buffer_space_before_align;
     dest_ptr = std::align(alignof(T), sizeof(T), dest_ptr, buffer_space_after_align);
 
-    const auto AreRegionsOverlapping = [](MemoryBufferAccessor& destination_buffer, T source_object) {
+    const auto AreRegionsOverlapping = [](MemoryBufferAccessor& destination_buffer, const T& source_object) {
         using memory::shared::CastPointerToInteger;
         using memory::shared::AddOffsetToPointerAsInteger;
         const auto target_buffer_start_address = CastPointerToInteger(destination_buffer.buffer.data());
@@ -128,8 +128,8 @@ void SerializeArgs(MemoryBufferAccessor& target_buffer, T& arg)
         const auto arg_start_address = CastPointerToInteger(&source_object);
         const auto arg_end_address = AddOffsetToPointerAsInteger(arg_start_address, sizeof(source_object));
 
-        const bool is_arg_before_target_buffer = arg_end_address < target_buffer_start_address;
-        const bool is_arg_after_target_buffer = arg_start_address > target_buffer_end_address;
+        const bool is_arg_before_target_buffer = arg_end_address <= target_buffer_start_address;
+        const bool is_arg_after_target_buffer = arg_start_address >= target_buffer_end_address;
         return !(is_arg_before_target_buffer || is_arg_after_target_buffer);
     };
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(dest_ptr != nullptr, "Buffer too small");
-- 
2.43.0


From 8f4646fedfffd1e5b5bef47382b874ef0bfa1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:13 +0000
Subject: [PATCH 24/28] fix: remove the flag file again when its permissions
 cannot be set

A flag file whose permissions could not be changed stayed on disk although
offering the service failed, so the instance was found as offered forever.
---
 .../com/impl/bindings/lola/service_discovery/flag_file.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
index 2a9bd95..30fb167 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
@@ -215,6 +215,13 @@ auto FlagFile::Make(EnrichedInstanceIdentifier enriched_instance_identifier,
     {
         mw::log::LogError("lola") << "Failed to set permissions on flag file" << flag_file_path.Native() << ":"
                                   << permission_result.error();
+        // An offer which failed must not be found by anybody, hence the file just created must not remain.
+        const auto remove_result = filesystem.standard->Remove(flag_file_path);
+        if (!remove_result.has_value())
+        {
+            mw::log::LogError("lola") << "Failed to remove flag file" << flag_file_path.Native() << ":"
+                                      << remove_result.error();
+        }
         return score::MakeUnexpected(ComErrc::kBindingFailure, "Could not set permissions on flag file");
     }
     mw::log::LogDebug("lola") << "created flag file for service:" << flag_file_path.Native();
-- 
2.43.0


From bd2a771d9ac89ba700b3a56b61ccbfb9683c98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:37 +0000
Subject: [PATCH 25/28] fix: offering an already offered service must not tear
 down the running offer

---
 score/mw/com/impl/skeleton_base.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/score/mw/com/impl/skeleton_base.cpp b/score/mw/com/impl/skeleton_base.cpp
index b80c161..ad2fe05 100644
--- a/score/mw/com/impl/skeleton_base.cpp
+++ b/score/mw/com/impl/skeleton_base.cpp
@@ -155,6 +155,14 @@ auto SkeletonBase::OfferService() -> Result<void>
         return skeleton_mock_->OfferService();
     }
 
+    // Preparing an offer which is already running would end up in rolling it back, as the service discovery refuses to
+    // offer the same service instance twice. This must not tear down the running offer.
+    if (service_offered_flag_.IsSet())
+    {
+        score::mw::log::LogError("lola") << "SkeletonBinding::OfferService failed: service is already offered.";
+        return MakeUnexpected(ComErrc::kServiceInstanceAlreadyOffered);
+    }
+
     auto event_bindings = GetSkeletonEventBindingsMap(events_);
     auto field_bindings = GetSkeletonFieldBindingsMap(fields_);
 
-- 
2.43.0


From 47edbeb7df9748cfb90079d505afb7302694c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:37 +0000
Subject: [PATCH 26/28] fix: stop the offer of a GenericSkeleton when it is
 destroyed or assigned over

---
 score/mw/com/impl/generic_skeleton.cpp | 26 +++++++++++++++++++++++++-
 score/mw/com/impl/generic_skeleton.h   | 14 ++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/generic_skeleton.cpp b/score/mw/com/impl/generic_skeleton.cpp
index 800b77a..bb97d36 100644
--- a/score/mw/com/impl/generic_skeleton.cpp
+++ b/score/mw/com/impl/generic_skeleton.cpp
@@ -154,8 +154,32 @@ void GenericSkeleton::StopOfferService()
 
 GenericSkeleton::GenericSkeleton(const InstanceIdentifier& identifier, std::unique_ptr<SkeletonBinding> binding)
     : SkeletonBase(std::move(binding), identifier),
-      events_(std::make_unique<std::map<std::string_view, GenericSkeletonEvent>>())
+      events_(std::make_unique<std::map<std::string_view, GenericSkeletonEvent>>()),
+      is_service_owner_(true)
 {
 }
 
+GenericSkeleton::~GenericSkeleton()
+{
+    if (is_service_owner_.IsSet())
+    {
+        SkeletonBase::StopOfferService();
+    }
+}
+
+GenericSkeleton& GenericSkeleton::operator=(GenericSkeleton&& other) noexcept
+{
+    if (&other != this)
+    {
+        if (is_service_owner_.IsSet())
+        {
+            SkeletonBase::StopOfferService();
+        }
+        SkeletonBase::operator=(std::move(static_cast<SkeletonBase&&>(other)));
+        events_ = std::move(other.events_);
+        is_service_owner_ = std::move(other.is_service_owner_);
+    }
+    return *this;
+}
+
 }  // namespace score::mw::com::impl
diff --git a/score/mw/com/impl/generic_skeleton.h b/score/mw/com/impl/generic_skeleton.h
index 08bb848..e142438 100644
--- a/score/mw/com/impl/generic_skeleton.h
+++ b/score/mw/com/impl/generic_skeleton.h
@@ -49,6 +49,17 @@ class GenericSkeleton : public SkeletonBase
 {
   public:
     using EventMapView = ServiceElementMapView<GenericSkeletonEvent>;
+
+    /// \brief Stops offering the service instance, if it is still offered.
+    ~GenericSkeleton() override;
+
+    GenericSkeleton(const GenericSkeleton&) = delete;
+    GenericSkeleton& operator=(const GenericSkeleton&) = delete;
+
+    GenericSkeleton(GenericSkeleton&& other) noexcept = default;
+    /// \brief Stops offering the currently held service instance (if it is still offered) before taking over other.
+    GenericSkeleton& operator=(GenericSkeleton&& other) noexcept;
+
     /// \brief Creates a GenericSkeleton and all its service elements (events + fields) atomically.
     ///
     /// \contract
@@ -88,6 +99,9 @@ class GenericSkeleton : public SkeletonBase
     /// GenericSkeleton. This is required as we hand out views to this map (see GetEvents()), which need to be valid
     /// even after the GenericSkeleton instance has been moved.
     std::unique_ptr<ServiceElementMapViewFactory<GenericSkeletonEvent>::map_type> events_;
+
+    /// \brief Set as long as this object was not moved from, i.e. is responsible to stop offering the service instance.
+    FlagOwner is_service_owner_;
 };
 }  // namespace score::mw::com::impl
 
-- 
2.43.0


From 59991ee0e9d15bf01100601fa591bd0680c84ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:05 +0000
Subject: [PATCH 27/28] fix: send the names of service elements to the other
 gateway, not the addresses of the names

EventInfo holds a string_view. As it is trivially copyable, it was sent as raw bytes, so that the
receiving gateway got addresses of the sending process.
---
 .../sample/messages/gateway_messages.h        | 42 +++++++++++++++----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
index ec05266..e473fe4 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
@@ -25,6 +25,23 @@
 namespace score::mw::com::gateway
 {
 
+/// \brief Form in which a score::mw::com::EventInfo is sent. In contrast to EventInfo it owns the name, as a view into the
+/// memory of the sender has no meaning for the receiver.
+struct SerializableEventInfo
+{
+    std::string name{};
+    score::mw::com::DataTypeMetaInfo data_type_meta_info{};
+
+    auto GetSerializeMembers() const
+    {
+        return std::tie(name, data_type_meta_info);
+    }
+    auto GetSerializeMembers()
+    {
+        return std::tie(name, data_type_meta_info);
+    }
+};
+
 /// \brief Message to propagate service instance metadata (instance specifier + service element configurations)
 /// from the source gateway to the destination gateway. The destination gateway uses this information to create a
 /// (generic) skeleton for the given service instance.
@@ -36,8 +53,8 @@ class ProvideServiceRequest : public TransportMessage
         using SelfNoRef = std::remove_reference_t<Self>;
         using StringType = std::conditional_t<std::is_const_v<SelfNoRef>, const std::string, std::string>;
         using VectorType = std::conditional_t<std::is_const_v<SelfNoRef>,
-                                              const std::vector<score::mw::com::EventInfo>,
-                                              std::vector<score::mw::com::EventInfo>>;
+                                              const std::vector<SerializableEventInfo>,
+                                              std::vector<SerializableEventInfo>>;
         using Uint32Type = std::conditional_t<std::is_const_v<SelfNoRef>, const std::uint32_t, std::uint32_t>;
         return std::tuple<StringType&, VectorType&, Uint32Type&, Uint32Type&>(
             self.instance_specifier_, self.elements_, self.shm_control_size_, self.shm_data_size_);
@@ -47,15 +64,19 @@ class ProvideServiceRequest : public TransportMessage
     ProvideServiceRequest() : TransportMessage(MessageType::kProvideServiceRequest) {}
 
     ProvideServiceRequest(score::mw::com::InstanceSpecifier service_instance_specifier,
-                          std::vector<score::mw::com::EventInfo> service_elements,
+                          const std::vector<score::mw::com::EventInfo>& service_elements,
                           std::uint32_t shm_control_size = 0U,
                           std::uint32_t shm_data_size = 0U)
         : TransportMessage(MessageType::kProvideServiceRequest),
           instance_specifier_(std::string{service_instance_specifier.ToString()}),
-          elements_(std::move(service_elements)),
           shm_control_size_(shm_control_size),
           shm_data_size_(shm_data_size)
     {
+        elements_.reserve(service_elements.size());
+        for (const auto& element : service_elements)
+        {
+            elements_.push_back(SerializableEventInfo{std::string{element.name}, element.data_type_meta_info});
+        }
     }
 
     std::size_t Serialize(score::cpp::span<std::uint8_t> buffer) const override;
@@ -66,9 +87,16 @@ class ProvideServiceRequest : public TransportMessage
         return instance_specifier_;
     }
 
-    const std::vector<score::mw::com::EventInfo>& GetServiceElements() const
+    /// \return the service elements; their names are only valid as long as this message exists
+    std::vector<score::mw::com::EventInfo> GetServiceElements() const
     {
-        return elements_;
+        std::vector<score::mw::com::EventInfo> service_elements{};
+        service_elements.reserve(elements_.size());
+        for (const auto& element : elements_)
+        {
+            service_elements.push_back(score::mw::com::EventInfo{element.name, element.data_type_meta_info});
+        }
+        return service_elements;
     }
 
     std::uint32_t GetShmControlSize() const
@@ -92,7 +120,7 @@ class ProvideServiceRequest : public TransportMessage
 
   private:
     std::string instance_specifier_;
-    std::vector<score::mw::com::EventInfo> elements_;
+    std::vector<SerializableEventInfo> elements_;
     std::uint32_t shm_control_size_{0U};
     std::uint32_t shm_data_size_{0U};
 };
-- 
2.43.0


From 55a99b3bd884cf9ffd79e8b7c7aee99faf8d10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:05 +0000
Subject: [PATCH 28/28] fix: gateway threads must not miss the wake-up on
 shutdown and disconnect

The state a thread waits for was changed, and the thread notified, without the mutex of the wait. A
thread between looking and waiting missed it; the dispatching thread then waited for ever and
shutting down never ended.
---
 .../transport_layer/sample/bidirectional_transport.cpp      | 6 +++++-
 .../transport_layer/sample/pending_request_tracker.cpp      | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index a700aba..4308ae9 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -486,7 +486,11 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    dispatch_shutdown_ = true;
+    {
+        // without the lock the dispatching thread could miss the notification between looking and waiting
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
     dispatch_cv_.notify_all();
 
     threads_.Shutdown();
diff --git a/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp b/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
index 3f97b7e..71be2b3 100644
--- a/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
@@ -91,6 +91,8 @@ score::Result<void> PendingRequestTracker::WaitForAck(std::uint32_t sequence,
 
 void PendingRequestTracker::NotifyAll()
 {
+    // without the lock a waiting thread could miss the notification between looking and waiting
+    std::lock_guard<std::mutex> lock(pending_mutex_);
     pending_cv_.notify_all();
 }
 
-- 
2.43.0

