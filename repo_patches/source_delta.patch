From 6f4ce8cd7c3f526f6c87d2d03c5e4d4a10578689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 01/32] fix: do not report success for requests to a terminated
 state machine

After the machine entered the ERROR state its events are not processed any
more, and ChangeState returned the result of the last processed event.
---
 fairmq/StateMachine.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..b761345 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -259,6 +259,8 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
+        // a terminated state machine processes no events, do not report the result of the last one
+        fsm->fLastTransitionResult = false;
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From b027768672c7d9f48fa3e0bc941a0517618dcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 02/32] fix: announce the ERROR state only once to state change
 subscribers

When ERROR is entered with an ErrorFound transition, the subscribers were
called by the regular processing and once more when ProcessWork throws.
---
 fairmq/StateMachine.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index b761345..030608b 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -403,8 +403,11 @@ void StateMachine::ProcessWork()
         LOG(debug) << "Exception caught in ProcessWork(), going to Error state";
         {
             lock_guard<mutex> lock(fsm->fStateMtx);
-            fsm->fState = State::Error;
-            fsm->CallStateChangeCallbacks(State::Error);
+            // subscribers already know if the error state was entered via a transition
+            if (fsm->fState != State::Error) {
+                fsm->fState = State::Error;
+                fsm->CallStateChangeCallbacks(State::Error);
+            }
         }
         ChangeState(Transition::ErrorFound);
     });
-- 
2.43.0


From 1f702d6162e3cb3e0aa67199dcc131ac11f1ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 03/32] fix: replace state machine subscriptions made under the
 same key

The connection of the earlier subscription was lost, so its callback kept
being called after unsubscribing.
---
 fairmq/StateMachine.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 030608b..246f51d 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -317,7 +317,9 @@ void StateMachine::SubscribeToStateChange(const string& key, function<void(const
     int i = strtol(key.c_str(), nullptr, 10);
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fSubscriptionsMtx);
-    fsm->fStateChangeSignalsMap.insert({key, fsm->fStateChangeSignal.connect(i, callback)});
+    auto& connection = fsm->fStateChangeSignalsMap[key];
+    connection.disconnect();   // replace an existing subscription, it could not be unsubscribed any more
+    connection = fsm->fStateChangeSignal.connect(i, callback);
 }
 
 void StateMachine::UnsubscribeFromStateChange(const string& key)
@@ -365,7 +367,9 @@ void StateMachine::SubscribeToNewTransition(const string& key, function<void(con
 {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fSubscriptionsMtx);
-    fsm->fNewTransitionSignalsMap.insert({key, fsm->fNewTransitionSignal.connect(callback)});
+    auto& connection = fsm->fNewTransitionSignalsMap[key];
+    connection.disconnect();   // replace an existing subscription, it could not be unsubscribed any more
+    connection = fsm->fNewTransitionSignal.connect(callback);
 }
 
 void StateMachine::UnsubscribeFromNewTransition(const string& key)
-- 
2.43.0


From f7c884ba92e43121c917627a43da04eb9b6fadec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 04/32] fix: keep the custom predicate usable while waiting on
 a StateQueue

WaitForStateOrCustom passes its predicate on as an lvalue and uses it again, but
WaitForNextOrCustom moved from it: a std::function was empty afterwards and its
second use threw std::bad_function_call.
---
 fairmq/StateQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 1c1ad60..8192112 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -47,7 +47,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForNextOrCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [this, cp = std::move(customPredicate)] { return Predicate() || cp(); });
+        fCV.wait(lock, [this, &customPredicate] { return Predicate() || customPredicate(); });
         return ReturnPairUnsafe();
     }
 
@@ -55,7 +55,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [cp = std::move(customPredicate)] { return cp(); });
+        fCV.wait(lock, [&customPredicate] { return customPredicate(); });
         return ReturnPairUnsafe();
     }
 
-- 
2.43.0


From ad65c65f09ee938d2b726a270ed165af81cef72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 05/32] fix: wake up every waiter of a StateQueue

The waiters wait for different things: waking a single one loses the wake-up when
that one does not care (a custom predicate), and an error state, which stays queued
and is to be thrown at every waiter, reached only one of them.
---
 fairmq/StateQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 8192112..0e1041e 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -79,7 +79,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             fStates.push(state);
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -90,7 +90,7 @@ class StateQueue
             fStates.push(state);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -100,7 +100,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
-- 
2.43.0


From 2178b172b974f19d11cb24d2e999425d6e7bbd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 06/32] fix: announce the value that was written as text

SetProperty and UpdateProperty released the lock before reading the property back
as text: a concurrent write made them announce the text of another value, and a
concurrent DeleteProperty made them throw PropertyNotFoundError after the write.
---
 fairmq/ProgOptions.cxx | 5 +++++
 fairmq/ProgOptions.h   | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index ba13a8c..d003014 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -206,6 +206,11 @@ string ProgOptions::GetPropertyAsString(const string& key) const
     }
 }
 
+string ProgOptions::GetPropertyAsStringUnsafe(const string& key) const
+{
+    return ConvertVarValToString(fVarMap.at(key));
+}
+
 string ProgOptions::GetStringValue(const string& key) const
 {
     lock_guard<mutex> lock(fMtx);
diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..b3bfa6c 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -141,11 +141,12 @@ class ProgOptions
 
         if (fVarMap.count(key)) {
             SetVarMapValue<typename std::decay<T>::type>(key, val);
+            const std::string valAsString = GetPropertyAsStringUnsafe(key);
 
             lock.unlock();
 
             fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, valAsString);
             return true;
         } else {
             LOG(debug) << "UpdateProperty failed, no property found with key '" << key << "'";
@@ -248,6 +249,8 @@ class ProgOptions
   private:
     void ParseDefaults();
     std::unordered_map<std::string, int> GetChannelInfoImpl() const;
+    // must be called under locked fMtx
+    std::string GetPropertyAsStringUnsafe(const std::string& key) const;
 
     template<typename T>
     void SetVarMapValue(const std::string& key, const T& val)
@@ -271,11 +274,12 @@ void fair::mq::ProgOptions::SetProperty(const std::string& key, T val)
     std::unique_lock<std::mutex> lock(fMtx);
 
     SetVarMapValue<typename std::decay<T>::type>(key, val);
+    const std::string valAsString = GetPropertyAsStringUnsafe(key);
 
     lock.unlock();
 
     fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, valAsString);
 }
 
 extern template void fair::mq::ProgOptions::SetProperty<int>(const std::string& key, int val);
-- 
2.43.0


From 10207fedda6c0eecc93d8e84f7d679f6fec73930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 07/32] fix: keep the timeouts of a channel added to the
 configuration

ProgOptions::AddChannel left out sndTimeoutMs and rcvTimeoutMs, so a channel
given as an object got the default timeouts.
---
 fairmq/ProgOptions.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index d003014..4b49923 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -374,6 +374,8 @@ void ProgOptions::AddChannel(const string& name, const Channel& channel)
     SetVarMapValue<int>(string(prefix + "rcvBufSize"), channel.GetRcvBufSize());
     SetVarMapValue<int>(string(prefix + "sndKernelSize"), channel.GetSndKernelSize());
     SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());
+    SetVarMapValue<int>(string(prefix + "sndTimeoutMs"), channel.GetSndTimeout());
+    SetVarMapValue<int>(string(prefix + "rcvTimeoutMs"), channel.GetRcvTimeout());
     SetVarMapValue<int>(string(prefix + "linger"), channel.GetLinger());
     SetVarMapValue<int>(string(prefix + "rateLogging"), channel.GetRateLogging());
     SetVarMapValue<int>(string(prefix + "portRangeMin"), channel.GetPortRangeMin());
-- 
2.43.0


From c0d7e15b2f1fdb676341b40aaa4fec0e63acead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 08/32] fix: reject a channel name or address without a value

--channel-config name (or address) without a value dereferenced a null pointer.
---
 fairmq/SuboptParser.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/SuboptParser.cxx b/fairmq/SuboptParser.cxx
index 1d48563..c35ca11 100644
--- a/fairmq/SuboptParser.cxx
+++ b/fairmq/SuboptParser.cxx
@@ -99,6 +99,9 @@ Properties SuboptParser(const vector<string>& channelConfig, const string& devic
         while (subopts && *subopts != 0 && *subopts != ' ') {
             char* cur = subopts;
             int subopt = getsubopt(&subopts, (char**)channelOptionKeys, &value);
+            if ((subopt == NAME || subopt == ADDRESS) && value == nullptr) {
+                throw ParserError("missing value in argument of option --channel-config: " + token);
+            }
             if (subopt == NAME) {
                 channelName = value;
                 channelProperties.put("name", channelName);
-- 
2.43.0


From 1f6126938f8d99de0e794e2e1b41530f48f1d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 09/32] fix: wake up everybody who waits for the release of
 device control

With several threads in WaitForReleaseDeviceControl only one returned.
---
 fairmq/PluginServices.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginServices.cxx b/fairmq/PluginServices.cxx
index 44368c7..aa83e81 100644
--- a/fairmq/PluginServices.cxx
+++ b/fairmq/PluginServices.cxx
@@ -69,7 +69,7 @@ auto PluginServices::ReleaseDeviceControl(const string& controller) -> void
         }
     }
 
-    fReleaseDeviceControlCondition.notify_one();
+    fReleaseDeviceControlCondition.notify_all();
 }
 
 auto PluginServices::GetDeviceController() const -> boost::optional<string>
-- 
2.43.0


From 6cc4be087f65f6c61bc90771e18ed7a0ffba6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 10/32] fix: do not shrink a shared memory buffer that others
 still use

Reducing the used size of a message whose buffer is shared with copies, or of an unmanaged region message, must not touch the memory itself.
---
 fairmq/shmem/Message.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..1cb220d 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -196,6 +196,11 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            if (!fManaged || GetRefCount() > 1) {
+                // the buffer is not owned by this message alone, only the visible part is reduced
+                fSize = newSize;
+                return true;
+            }
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-- 
2.43.0


From b746dd1a7f94bb5f8bd99b0a4b2275adb45bf79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 11/32] fix: give up everything of the former content when a
 message is closed

A message that referred to an unmanaged region or to a segment of another process kept these properties after Rebuild, Copy or SetUsedSize(0), and treated its new buffer accordingly.
---
 fairmq/shmem/Message.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 1cb220d..173be8f 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -222,6 +222,7 @@ class Message final : public fair::mq::Message
                         char* userPtr = ShmHeader::UserPtr(ptr);
                         std::memcpy(userPtr, fLocalPtr, newSize);
                         fManager.Deallocate(fHandle, fSegmentId);
+                        fSegmentId = fManager.GetSegmentId();
                         fLocalPtr = userPtr;
                         fHandle = fManager.GetHandleFromAddress(ptr, fSegmentId);
                     }
@@ -402,6 +403,12 @@ class Message final : public fair::mq::Message
         fHandle = -1;
         fLocalPtr = nullptr;
         fSize = 0;
+        fHint = 0;
+        fShared = -1;
+        fRegionPtr = nullptr;
+        fRegionId = 0;
+        fSegmentId = fManager.GetSegmentId();
+        fManaged = true;
     }
 
     void ReleaseUnmanagedRegionBlock()
-- 
2.43.0


From 3bcecaefe6bcfd2c13930a35501207acb616de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 12/32] fix: release the former content of a message that is
 received into or copied to

Receive overwrote the reference to the buffer a used message still held, and Copy to a sent message kept the mark that its buffer has been handed over, so that the buffers were never released.
---
 fairmq/shmem/Message.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 173be8f..441b904 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -272,6 +272,7 @@ class Message final : public fair::mq::Message
         // if the other message is not initialized, close this one too and return
         if (otherMsg.fHandle < 0) {
             CloseMessage();
+            fQueued = false;
             return;
         }
 
@@ -279,6 +280,7 @@ class Message final : public fair::mq::Message
         if (fHandle >= 0) {
             CloseMessage();
         }
+        fQueued = false;
 
         // increment ref count
         if (otherMsg.fManaged) { // msg in managed segment
@@ -342,6 +344,8 @@ class Message final : public fair::mq::Message
 
     void SetMeta(const MetaHeader& meta)
     {
+        Deallocate();
+        fQueued = false;
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
-- 
2.43.0


From 46c73717c79b92e4b7389ddf1576b60c207bd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 13/32] fix: call the free function also for an empty user
 buffer

A shared memory message made of a user buffer of size zero never handed the buffer back.
---
 fairmq/shmem/Message.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 441b904..523f5e3 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -68,11 +68,11 @@ class Message final : public fair::mq::Message
     {
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
         fManager.IncrementMsgCounter();
     }
@@ -154,11 +154,11 @@ class Message final : public fair::mq::Message
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
     }
 
-- 
2.43.0


From 26827891fd3094237685cef05301db1b16882113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 14/32] fix: keep the alignment of a zeromq message that is
 received into repeatedly

Realigning the received buffer reset the alignment requested for the message, so that only the first unaligned buffer was realigned.
---
 fairmq/zeromq/Message.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..ea8a39e 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -243,10 +243,12 @@ class Message final : public fair::mq::Message
             // if buffer is valid && not already aligned with the given alignment
             if (data != nullptr && reinterpret_cast<uintptr_t>(GetData()) % fAlignment) {
                 // create new aligned buffer
-                auto ptrs = AllocateAligned(size, fAlignment);
+                const size_t alignment = fAlignment;
+                auto ptrs = AllocateAligned(size, alignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
                 // rebuild the message with the new buffer
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
-- 
2.43.0


From 4989adde44b6056ca938b30cb846a173eee0d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 15/32] fix: support alignments of 64 KiB and more in shared
 memory

The offset of the user buffer was stored in 16 bits.
---
 fairmq/shmem/Common.h  | 6 +++---
 fairmq/shmem/Message.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index ed35016..b31164a 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -89,7 +89,7 @@ struct ShmHeader
 {
     struct Hdr
     {
-        uint16_t userOffset;
+        uint32_t userOffset;
         std::atomic<uint16_t> refCount;
     };
 
@@ -113,7 +113,7 @@ struct ShmHeader
         return HdrPtr(ptr)->refCount;
     }
 
-    static uint16_t UserOffset(char* ptr)
+    static uint32_t UserOffset(char* ptr)
     {
         return HdrPartSize() + HdrPtr(ptr)->userOffset;
     }
@@ -148,7 +148,7 @@ struct ShmHeader
         memcpy(ptr, &hdrOffset, sizeof(hdrOffset));
 
         // offset to the beginning of the user buffer, store in Hdr together with the ref count
-        uint16_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
+        uint32_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
         new(ptr + sizeof(uint16_t) + hdrOffset) Hdr{ userOffset, std::atomic<uint16_t>(1) };
     }
 
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 523f5e3..380fb4b 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -204,7 +204,7 @@ class Message final : public fair::mq::Message
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-                    uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
+                    uint32_t userOffset = ShmHeader::UserOffset(oldPtr);
                     char* ptr = fManager.ShrinkInPlace(userOffset + newSize, oldPtr, fSegmentId);
                     fLocalPtr = ShmHeader::UserPtr(ptr);
                     fSize = newSize;
-- 
2.43.0


From 7cec09f60514c1341f783ac5e628cb1f6519656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 16/32] fix: deliver all acknowledgements before an unmanaged
 region goes away

The sender of the acknowledgements could miss the request to stop and hold back blocks for up to 500 ms, while the receiver had already left after the linger time.
---
 fairmq/shmem/UnmanagedRegion.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index fb4da9a..8bc51b0 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -60,6 +60,7 @@ struct UnmanagedRegion
         , fRemoveOnDestruction(cfg.removeOnDestruction)
         , fLinger(cfg.linger)
         , fStopAcks(false)
+        , fStopAcksReceiver(false)
         , fName(MakeShmName(shmId, "rg", cfg.id.value()))
         , fQueueName(MakeShmName(shmId, "rgq", cfg.id.value()))
         , fRefCountSegmentName(MakeShmName(shmId, "rrc", cfg.id.value()))
@@ -207,18 +208,9 @@ struct UnmanagedRegion
     ~UnmanagedRegion()
     {
         LOG(debug) << "~UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
-        fStopAcks = true;
-
-        if (fAcksSender.joinable()) {
-            fBlockSendCV.notify_one();
-            fAcksSender.join();
-        }
+        StopAcks();
 
         if (fControlling) {
-            if (fAcksReceiver.joinable()) {
-                fAcksReceiver.join();
-            }
-
             if (fRemoveOnDestruction) {
                 if (Monitor::RemoveObject(fName.c_str())) {
                     LOG(trace) << "Region '" << fName << "' destroyed.";
@@ -256,6 +248,7 @@ struct UnmanagedRegion
     bool fRemoveOnDestruction;
     uint32_t fLinger;
     std::atomic<bool> fStopAcks;
+    std::atomic<bool> fStopAcksReceiver;
     std::string fName;
     std::string fQueueName;
     std::string fRefCountSegmentName;
@@ -361,7 +354,7 @@ struct UnmanagedRegion
 
                 // try to get <fAckBunchSize> blocks
                 if (fBlocksToFree.size() < fAckBunchSize) {
-                    fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500));
+                    fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500), [this] { return fBlocksToFree.size() >= fAckBunchSize || fStopAcks; });
                 }
 
                 // send whatever blocks we have
@@ -405,7 +398,7 @@ struct UnmanagedRegion
         while (true) {
             uint32_t timeout = 100;
             bool leave = false;
-            if (fStopAcks) {
+            if (fStopAcksReceiver) {
                 timeout = fLinger;
                 leave = true;
             }
@@ -449,13 +442,19 @@ struct UnmanagedRegion
 
     void StopAcks()
     {
-        fStopAcks = true;
+        {
+            std::lock_guard<std::mutex> lock(fBlockMtx);
+            fStopAcks = true;
+        }
 
         if (fAcksSender.joinable()) {
             fBlockSendCV.notify_one();
             fAcksSender.join();
         }
 
+        // the receiver leaves only after everything has been sent
+        fStopAcksReceiver = true;
+
         if (fAcksReceiver.joinable()) {
             fAcksReceiver.join();
         }
-- 
2.43.0


From 59bd98fde71ae3964b402e876864531ab2fbf085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 17/32] fix: avoid a deadlock between looking up and creating
 or removing regions

GetRegion() waited for the shm mutex while holding the local mutex; CreateRegion() and RemoveRegion() take the two in the opposite order.
---
 fairmq/shmem/Manager.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..109bef9 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -397,10 +397,12 @@ class Manager
 
     UnmanagedRegion* GetRegion(uint16_t id)
     {
-        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-        auto it = fRegions.find(id);
-        if (it != fRegions.end()) {
-            return it->second.get();
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
         }
 
         try {
@@ -416,6 +418,12 @@ class Manager
             }
             // LOG(debug) << "Located remote region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
+            // never wait for the shm mutex while holding the local one: CreateRegion() and RemoveRegion() take them in the other order
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
             auto r = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, 0, false, std::move(cfg)));
             r.first->second->InitializeQueues();
             r.first->second->StartAckSender();
-- 
2.43.0


From 7356dcc9760418b4ef81df1f8353a8ebb264ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 18/32] fix: measure the time of a transfer instead of counting
 its interruptions by signals

---
 fairmq/shmem/Socket.h  | 17 +++++++++--------
 fairmq/zeromq/Common.h | 11 +++++++----
 fairmq/zeromq/Socket.h | 17 +++++++++--------
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2daa6fd..d798f4c 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -24,6 +24,7 @@
 
 #include <algorithm>         // for std::max
 #include <atomic>
+#include <chrono>
 #include <cstddef>           // for std::size_t
 #include <cstring>           // for std::memcpy
 #include <exception>         // for std::terminate
@@ -127,7 +128,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = std::chrono::steady_clock::now();
 
         MetaHeader meta{ shmMsg->fSize, shmMsg->fHint, shmMsg->fHandle, shmMsg->fShared, shmMsg->fRegionId, shmMsg->fSegmentId, shmMsg->fManaged };
 
@@ -146,7 +147,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -165,7 +166,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = std::chrono::steady_clock::now();
 
         while (true) {
             Message* shmMsg = static_cast<Message*>(msg.get());
@@ -189,7 +190,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -206,7 +207,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = std::chrono::steady_clock::now();
 
         // meta msg format: | n | MetaHeader 1 | ... | MetaHeader n | padded to fMetadataMsgSize |
         auto const n = msgVec.size();
@@ -247,7 +248,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -266,7 +267,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = std::chrono::steady_clock::now();
 
         zmq::ZMsg zmqMsg;
 
@@ -300,7 +301,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 51d009b..4d17d0a 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -8,6 +8,8 @@
 #ifndef FAIR_MQ_ZMQ_COMMON_H
 #define FAIR_MQ_ZMQ_COMMON_H
 
+#include <cerrno>
+#include <chrono>
 #include <fairlogger/Logger.h>
 #include <fairmq/Error.h>
 #include <fairmq/tools/Strings.h>
@@ -61,18 +63,19 @@ inline bool Connect(void* socket, const std::string& address, const std::string&
     return true;
 }
 
-inline bool ShouldRetry(int flags, int socketTimeout, int userTimeout, int& elapsed)
+/// decides if a transfer that ended with EAGAIN or EINTR is to be repeated
+/// @param start time at which the transfer was started (a call can end early because of a signal)
+inline bool ShouldRetry(int flags, int userTimeout, std::chrono::steady_clock::time_point start)
 {
     if ((flags & ZMQ_DONTWAIT) == 0) {
         if (userTimeout > 0) {
-            elapsed += socketTimeout;
-            if (elapsed >= userTimeout) {
+            if (std::chrono::steady_clock::now() - start >= std::chrono::milliseconds(userTimeout)) {
                 return false;
             }
         }
         return true;
     } else {
-        return false;
+        return zmq_errno() == EINTR;
     }
 }
 
diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..ab0650f 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -21,6 +21,7 @@
 #include <zmq.h>
 
 #include <atomic>
+#include <chrono>
 #include <functional>
 #include <memory> // unique_ptr, make_unique
 #include <string_view>
@@ -100,7 +101,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = std::chrono::steady_clock::now();
 
         int64_t actualBytes = zmq_msg_size(static_cast<Message*>(msg.get())->GetMessage());
 
@@ -113,7 +114,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fCtx.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -130,7 +131,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = std::chrono::steady_clock::now();
 
         while (true) {
             int nbytes = zmq_msg_recv(static_cast<Message*>(msg.get())->GetMessage(), fSocket, flags);
@@ -143,7 +144,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fCtx.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -165,7 +166,7 @@ class Socket final : public fair::mq::Socket
 
         // Sending vector typicaly handles more then one part
         if (vecSize > 1) {
-            int elapsed = 0;
+            auto const start = std::chrono::steady_clock::now();
 
             while (true) {
                 int64_t totalSize = 0;
@@ -178,7 +179,7 @@ class Socket final : public fair::mq::Socket
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
-                        } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                        } else if (zmq::ShouldRetry(flags, timeout, start)) {
                             repeat = true;
                             break;
                         } else {
@@ -212,7 +213,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = std::chrono::steady_clock::now();
 
         while (true) {
             int64_t totalSize = 0;
@@ -230,7 +231,7 @@ class Socket final : public fair::mq::Socket
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-                    } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                    } else if (zmq::ShouldRetry(flags, timeout, start)) {
                         repeat = true;
                         break;
                     } else {
-- 
2.43.0


From 04641260145fa67e9cd66de5986af9d08c2eda11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:11 +0000
Subject: [PATCH 19/32] fix: do not tear multipart messages apart when a signal
 arrives

---
 fairmq/zeromq/Socket.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index ab0650f..7a83e85 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -176,6 +176,8 @@ class Socket final : public fair::mq::Socket
                     int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
                     if (nbytes >= 0) {
                         totalSize += nbytes;
+                    } else if (zmq_errno() == EINTR && i > 0) {
+                        --i; // the message is partly handed over, go on with this part
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
@@ -228,6 +230,8 @@ class Socket final : public fair::mq::Socket
                     static_cast<Message*>(part.get())->Realign();
                     msgVec.push_back(std::move(part));
                     totalSize += nbytes;
+                } else if (zmq_errno() == EINTR && more) {
+                    continue; // the message is partly received, go on with the same part
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-- 
2.43.0


From 32ed2ef5730db0077a7920fe6abdbb4828e9904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 20/32] fix: refuse messages whose full size overflows

---
 fairmq/shmem/Manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 109bef9..def44b2 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -687,7 +687,7 @@ class Manager
         while (!ptr) {
             try {
                 size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(fSegmentId));
-                if (fullSize > segmentSize) {
+                if (fullSize > segmentSize || fullSize < size) { // (the full size of very large requests overflows)
                     throw MessageBadAlloc(tools::ToString("Requested message size (", fullSize, ") exceeds segment size (", segmentSize, ")"));
                 }
 
-- 
2.43.0


From 6f331db4f7c2ece79200bfb784d0dd2902a6d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 21/32] fix: tell new subscribers of region events about the
 existing regions

---
 fairmq/shmem/Manager.h  | 3 +++
 fairmq/zeromq/Context.h | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index def44b2..db7a4aa 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -544,6 +544,9 @@ class Manager
             fRegionEventThread.join();
         }
         std::lock_guard<std::mutex> lock(fRegionEventsMtx);
+        // a new subscriber hears about everything that exists already
+        fObservedRegionEvents.clear();
+        fNumObservedEvents = 0;
         fRegionEventCallback = callback;
         fRegionEventsSubscriptionActive = true;
         fRegionEventThread = std::thread(&Manager::RegionEventsSubscription, this);
diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index a02b679..6b8c7b6 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -52,8 +52,6 @@ class Context
             LOG(error) << "failed configuring context, reason: " << zmq_strerror(errno);
             throw ContextError(tools::ToString("failed configuring context, reason: ", zmq_strerror(errno)));
         }
-
-        fRegionEvents.emplace(true, 0, nullptr, 0, 0, RegionEvent::local_only);
     }
 
     Context(const Context&) = delete;
@@ -73,6 +71,12 @@ class Context
             fRegionEventThread.join();
         }
         std::lock_guard<std::mutex> lock(fMtx);
+        // a new subscriber hears about everything that exists already, and not about what is gone
+        fRegionEvents = std::queue<RegionInfo>();
+        fRegionEvents.emplace(true, 0, nullptr, 0, 0, RegionEvent::local_only);
+        for (const auto& info : fRegionInfos) {
+            fRegionEvents.push(info);
+        }
         fRegionEventCallback = callback;
         fRegionEventsSubscriptionActive = true;
         fRegionEventThread = std::thread(&Context::RegionEventsSubscription, this);
-- 
2.43.0


From 49b5206eb1ef6777e6cab1690cc59ee4bfcfb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 22/32] fix: give concurrently created zeromq regions different
 ids

---
 fairmq/zeromq/Context.h         | 5 ++---
 fairmq/zeromq/UnmanagedRegion.h | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index 6b8c7b6..1ddb37b 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -116,17 +116,16 @@ class Context
         return fRegionInfos;
     }
 
-    uint16_t RegionCount() const
+    uint16_t NextRegionId()
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        return fRegionCounter;
+        return fRegionCounter++;
     }
 
     void AddRegion(bool managed, uint16_t id, void* ptr, size_t size, int64_t userFlags, RegionEvent event)
     {
         {
             std::lock_guard<std::mutex> lock(fMtx);
-            ++fRegionCounter;
             fRegionInfos.emplace_back(managed, id, ptr, size, userFlags, event);
             fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
         }
diff --git a/fairmq/zeromq/UnmanagedRegion.h b/fairmq/zeromq/UnmanagedRegion.h
index 41e518d..b73c059 100644
--- a/fairmq/zeromq/UnmanagedRegion.h
+++ b/fairmq/zeromq/UnmanagedRegion.h
@@ -38,7 +38,7 @@ class UnmanagedRegion final : public fair::mq::UnmanagedRegion
                     fair::mq::RegionConfig cfg)
         : fair::mq::UnmanagedRegion(factory)
         , fCtx(ctx)
-        , fId(fCtx.RegionCount())
+        , fId(fCtx.NextRegionId())
         , fBuffer(malloc(size))
         , fSize(size)
         , fUserFlags(userFlags)
-- 
2.43.0


From db00279f695affe91819e2f173de8585b35ef0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 23/32] fix: do not assign region ids that have been taken
 explicitly

---
 fairmq/shmem/Manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index db7a4aa..97932a7 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -319,6 +319,11 @@ class Manager
                         LOG(trace) << "initialized region counter with: " << rc->fCount;
                     }
 
+                    // skip ids that have been chosen explicitly
+                    while (fShmRegions->find(rc->fCount) != fShmRegions->end()) {
+                        (rc->fCount)++;
+                    }
+
                     cfg.id = rc->fCount;
                 }
 
-- 
2.43.0


From 82241914af0160371b5efc775a1e1da56ccdfe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 24/32] fix: refuse the id of a destroyed region without
 leaving its memory behind

---
 fairmq/shmem/Manager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 97932a7..84d5814 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -329,6 +329,12 @@ class Manager
 
                 const uint16_t id = cfg.id.value();
 
+                auto used = fShmRegions->find(id);
+                if (used != fShmRegions->end() && used->second.fDestroyed) {
+                    LOG(error) << "Unmanaged Region with id " << id << " has already been used. Only unique IDs per session are allowed.";
+                    throw TransportError(tools::ToString("Unmanaged Region with id ", id, " has already been used. Only unique IDs per session are allowed."));
+                }
+
                 std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
 
                 UnmanagedRegion* region = nullptr;
-- 
2.43.0


From 7875d0f968e16c635a7e4db753cc013a6e9752bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:14 +0000
Subject: [PATCH 25/32] fix: survive a region going away while it is being
 looked up

---
 fairmq/shmem/Manager.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 84d5814..246c5d2 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -515,6 +515,7 @@ class Manager
             }
         }
 
+        std::set<uint64_t> gone;
         // do another iteration outside of shm lock, to fill ptr+size of unmanaged regions
         for (auto& info : result) {
             if (!info.managed && info.event == RegionEvent::created) {
@@ -526,10 +527,16 @@ class Manager
                     if (it != fRegions.end()) {
                         region = it->second.get();
                     } else {
-                        auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
-                        region = r.first->second.get();
-                        region->InitializeQueues();
-                        region->StartAckSender();
+                        try {
+                            auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
+                            region = r.first->second.get();
+                            region->InitializeQueues();
+                            region->StartAckSender();
+                        } catch (const std::exception& e) {
+                            LOG(debug) << "region " << info.id << " went away while it was looked up: " << e.what();
+                            gone.insert(info.id);
+                            continue;
+                        }
                     }
 
                     info.ptr = region->GetData();
@@ -541,6 +548,10 @@ class Manager
             }
         }
 
+        result.erase(std::remove_if(result.begin(), result.end(), [&](const fair::mq::RegionInfo& info) {
+            return !info.managed && gone.count(info.id) > 0;
+        }), result.end());
+
         return result;
     }
 
-- 
2.43.0


From b8ae84be4ebbff868b69e34181d4251219331715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:14 +0000
Subject: [PATCH 26/32] fix: register file-backed regions in their session

---
 fairmq/shmem/UnmanagedRegion.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 8bc51b0..b0e6c23 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -91,6 +91,7 @@ struct UnmanagedRegion
                     // set the size
                     fbuf.pubseekoff(size - 1, std::ios_base::beg);
                     fbuf.sputc(0);
+                    created = true;
                 }
             }
 
@@ -291,6 +292,9 @@ struct UnmanagedRegion
 
         auto it = shmRegions->find(cfg.id.value());
         if (it != shmRegions->end()) {
+            if (!cfg.path.empty() && !it->second.fDestroyed) {
+                return; // the file of an existing region has been taken over
+            }
             LOG(error) << "Unmanaged Region with id " << cfg.id.value() << " has already been registered. Only unique IDs per session are allowed.";
             throw TransportError(tools::ToString("Unmanaged Region with id ", cfg.id.value(), " has already been registered. Only unique IDs per session are allowed."));
         }
-- 
2.43.0


From 9fde5a3602ab4cadb818085528c2840429c907e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 27/32] fix: forget channels that were not attached when the
 device is reset

---
 fairmq/Device.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..35bfd4b 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -740,6 +740,9 @@ void Device::ResetWrapper()
 
     Reset();
 
+    // a device can be reset before its channels have been bound or connected
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     if (!NewStatePending()) {
-- 
2.43.0


From acb2bceaf303c5cbb8b9fb8cae46889f5c135a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 28/32] fix: do not terminate when user code reports an error
 and throws

---
 fairmq/Device.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 35bfd4b..b4339c9 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -396,7 +396,10 @@ void Device::RunWrapper()
 
     // change to Error state in case of an exception, to release LogSocketRates
     tools::CallOnDestruction cod([&](){
-        ChangeStateOrThrow(Transition::ErrorFound);
+        // must not throw here; the request is refused if the error has been reported already
+        if (!ChangeState(Transition::ErrorFound)) {
+            LOG(debug) << "an error has already been reported";
+        }
     });
 
     PreRun();
-- 
2.43.0


From 500af65ca67cf16656d6f578cd3e25b406b876cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 29/32] fix: do not lose the interruption by a request accepted
 early in a state

---
 fairmq/Device.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index b4339c9..b37afdf 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -101,6 +101,10 @@ Device::Device(ProgOptions* config, tools::Version version)
     fStateMachine.PrepareState([&](State state) {
         LOG(trace) << "Resuming transports for " << state << " state";
         ResumeTransports();
+        // a request to leave this state again may have been accepted before the transports were resumed
+        if (fStateMachine.WaitForPendingStateFor(0)) {
+            InterruptTransports();
+        }
     });
 
     fStateMachine.HandleStates([&](State state) {
-- 
2.43.0


From deaeeb9047c24d670328fcbc65b29bd804db867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 30/32] fix: accept a stop request at the moment the running
 state ends

---
 fairmq/Device.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index b37afdf..90de3dc 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -429,7 +429,8 @@ void Device::RunWrapper()
     }
 
     // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
+    // (the transition is refused if one was requested from outside in the meantime)
+    if (!NewStatePending() && !ChangeState(Transition::Stop) && !NewStatePending()) {
         ChangeStateOrThrow(Transition::Stop);
     }
 
-- 
2.43.0


From 79df58d3ab69c8a0b1aff8585fba8493db016620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 31/32] fix: go to the ERROR state when a data callback throws
 with several transports

---
 fairmq/Device.cxx | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 90de3dc..78a4880 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -520,13 +521,29 @@ void Device::HandleMultipleTransportInput()
 
     fMultitransportProceed = true;
 
+    exception_ptr failure;
+    mutex failureMtx;
+
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        threads.emplace_back([&, factory = fTransports.at(i.first).get(), &keys = i.second]() {
+            try {
+                PollForTransport(factory, keys);
+            } catch (...) {
+                // stop the others and let the thread of the device fail
+                fMultitransportProceed = false;
+                lock_guard<mutex> lock(failureMtx);
+                failure = current_exception();
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    if (failure) {
+        rethrow_exception(failure);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
-- 
2.43.0


From f917b46a589c557b49f7b50b9e4c95058246f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 32/32] fix: make no further data callback after one has thrown

---
 fairmq/Device.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 78a4880..256b04a 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -563,12 +563,17 @@ void Device::PollForTransport(const TransportFactory* factory, const vector<stri
                             break;
                         }
 
+                        // no further callback if this one throws
+                        tools::CallOnDestruction cod([&]() { fMultitransportProceed = false; });
+
                         if (GetChannel(ch, i).fMultipart) {
                             fMultitransportProceed = HandleMultipartInput(ch, fMultipartInputs.at(ch), i);
                         } else {
                             fMultitransportProceed = HandleMsgInput(ch, fMsgInputs.at(ch), i);
                         }
 
+                        cod.disable();
+
                         if (!fMultitransportProceed) {
                             break;
                         }
-- 
2.43.0

