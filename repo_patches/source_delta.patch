From 3600295b7b5dd8c1c8fc8a74e88c78b3429815bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 01/59] fix: RateLimiter stops limiting for rates below 1 Hz
 after a slow iteration

---
 fairmq/tools/RateLimit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/tools/RateLimit.h b/fairmq/tools/RateLimit.h
index cbca179..3005d69 100644
--- a/fairmq/tools/RateLimit.h
+++ b/fairmq/tools/RateLimit.h
@@ -88,7 +88,7 @@ class RateLimiter
                     // duration_cast<microseconds>(ts).count() << "µs\n";
                 } else {
                     skip_check_count =
-                        std::min(int(seconds(1) / tw_req),   // recheck at least every second
+                        std::min(std::max(1, int(seconds(1) / tw_req)),   // recheck at least every second
                                  (skip_check_count * 5 + 3) / 4);
                     // std::cerr << s.str() << "maybe_sleep: going too slow; work more: " <<
                     // skip_check_count << "\n";
-- 
2.43.0


From 2bbe26468158aafa3e4eca12a92a44b8daa224ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 02/59] fix: tools::execute drops a last output line without
 trailing newline

---
 fairmq/tools/Process.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fairmq/tools/Process.cxx b/fairmq/tools/Process.cxx
index b76adfb..e536e5c 100644
--- a/fairmq/tools/Process.cxx
+++ b/fairmq/tools/Process.cxx
@@ -127,6 +127,12 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
         } else {
             if (ec == ba::error::eof) {
                 // outputPipe.async_close();
+                if (outputBuffer.size() > 0) { // last line without a trailing newline
+                    istream is(&outputBuffer);
+                    string line;
+                    getline(is, line);
+                    p.Print(line);
+                }
             } else {
                 p.Print(ec.message());
             }
@@ -147,6 +153,12 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
         } else {
             if (ec == ba::error::eof) {
                 // errorPipe.async_close();
+                if (errorBuffer.size() > 0) { // last line without a trailing newline
+                    istream is(&errorBuffer);
+                    string line;
+                    getline(is, line);
+                    p.Print(ToString("error: ", line));
+                }
             } else {
                 p.Print(ec.message());
             }
-- 
2.43.0


From c75c9e6e942bdfe380dffbada91504df7c48e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 03/59] fix: StateMachine::ChangeState reports success for any
 transition once in ERROR state

---
 fairmq/StateMachine.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..9a060ca 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -258,6 +258,10 @@ bool StateMachine::ChangeState(Transition transition)
 try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
+    if (fsm->fState == State::Error && transition != Transition::ErrorFound) {
+        LOG(state) << "No transition from state ERROR on transition " << GetTransitionName(transition);
+        return false;
+    }
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
         switch (transition) {
             case Transition::Auto:
-- 
2.43.0


From 3f40eecd938c431d0a9c9741e159b06e8fad7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 04/59] fix: state change subscribers are notified of ERROR
 twice, and with the state mutex held

---
 fairmq/StateMachine.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 9a060ca..80f9cfb 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -403,9 +403,13 @@ void StateMachine::ProcessWork()
 
     fair::mq::tools::CallOnDestruction cod([&](){
         LOG(debug) << "Exception caught in ProcessWork(), going to Error state";
+        bool notify = false;
         {
             lock_guard<mutex> lock(fsm->fStateMtx);
+            notify = (fsm->fState != State::Error); // otherwise subscribers have already been notified
             fsm->fState = State::Error;
+        }
+        if (notify) {
             fsm->CallStateChangeCallbacks(State::Error);
         }
         ChangeState(Transition::ErrorFound);
-- 
2.43.0


From 94bca2d8065567a893dd7478bdb84a3322f38ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 05/59] fix: StateQueue waits move the caller's predicate away

---
 fairmq/StateQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 1c1ad60..75f6d4a 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -47,7 +47,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForNextOrCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [this, cp = std::move(customPredicate)] { return Predicate() || cp(); });
+        fCV.wait(lock, [this, cp = std::forward<CustomPredicate>(customPredicate)] { return Predicate() || cp(); });
         return ReturnPairUnsafe();
     }
 
@@ -55,7 +55,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [cp = std::move(customPredicate)] { return cp(); });
+        fCV.wait(lock, [cp = std::forward<CustomPredicate>(customPredicate)] { return cp(); });
         return ReturnPairUnsafe();
     }
 
-- 
2.43.0


From 5e9437b63614c78d6d495277294571ebcd76ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 06/59] fix: StateQueue wakes only one of several waiters,
 possibly one that does not wait for this

---
 fairmq/StateQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 75f6d4a..0917daf 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -79,7 +79,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             fStates.push(state);
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -90,7 +90,7 @@ class StateQueue
             fStates.push(state);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -100,7 +100,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
-- 
2.43.0


From d241397f2680bd8a8be9495e328ff69a314a7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 07/59] fix: reused shmem messages keep state of, or leak,
 their previous buffer

Receiving into a message holding a buffer leaked that buffer and kept its
local pointer; rebuilding a region, foreign segment or sent message kept
its region/segment ids and flags, and the message count got out of balance.
---
 fairmq/shmem/Message.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..f00637d 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -124,33 +124,28 @@ class Message final : public fair::mq::Message
     void Rebuild() override
     {
         CloseMessage();
-        fQueued = false;
     }
 
     void Rebuild(Alignment /* alignment */) override
     {
         CloseMessage();
-        fQueued = false;
     }
 
     void Rebuild(size_t size) override
     {
         CloseMessage();
-        fQueued = false;
         InitializeChunk(size);
     }
 
     void Rebuild(size_t size, Alignment alignment) override
     {
         CloseMessage();
-        fQueued = false;
         InitializeChunk(size, alignment.alignment);
     }
 
     void Rebuild(void* data, size_t size, fair::mq::FreeFn* ffn, void* hint = nullptr) override
     {
         CloseMessage();
-        fQueued = false;
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
@@ -263,6 +258,10 @@ class Message final : public fair::mq::Message
     void Copy(const fair::mq::Message& other) override
     {
         const Message& otherMsg = static_cast<const Message&>(other);
+        if (this == &otherMsg) {
+            return;
+        }
+
         // if the other message is not initialized, close this one too and return
         if (otherMsg.fHandle < 0) {
             CloseMessage();
@@ -319,7 +318,11 @@ class Message final : public fair::mq::Message
         fManaged = otherMsg.fManaged;
     }
 
-    ~Message() override { CloseMessage(); }
+    ~Message() override
+    {
+        CloseMessage();
+        fManager.DecrementMsgCounter();
+    }
 
   private:
     Manager& fManager;
@@ -334,8 +337,10 @@ class Message final : public fair::mq::Message
     bool fManaged = true; // true = managed segment, false = unmanaged region
     bool fQueued = false;
 
+    // take over a received buffer, releasing the one held so far
     void SetMeta(const MetaHeader& meta)
     {
+        CloseMessage();
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
@@ -394,9 +399,21 @@ class Message final : public fair::mq::Message
                 }
             }
         }
-        fHandle = -1;
+        ResetMeta();
+    }
+
+    void ResetMeta()
+    {
+        fRegionPtr = nullptr;
         fLocalPtr = nullptr;
         fSize = 0;
+        fHint = 0;
+        fHandle = -1;
+        fShared = -1;
+        fRegionId = 0;
+        fSegmentId = fManager.GetSegmentId();
+        fManaged = true;
+        fQueued = false;
     }
 
     void ReleaseUnmanagedRegionBlock()
@@ -416,7 +433,6 @@ class Message final : public fair::mq::Message
     {
         try {
             Deallocate();
-            fManager.DecrementMsgCounter();
         } catch (SharedMemoryError& sme) {
             LOG(error) << "error closing message: " << sme.what();
         } catch (boost::interprocess::lock_exception& le) {
-- 
2.43.0


From 25645273535d11a680b90589ba1615ee0e251031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 08/59] fix: shrinking shared, region or other-segment shmem
 messages corrupts memory

---
 fairmq/shmem/Message.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index f00637d..87d7ec0 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -191,7 +191,13 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            // region memory is managed by the user, and other holders of a shared buffer still need all of it
+            if (!fManaged || GetRefCount() > 1) {
+                fSize = newSize;
+                return true;
+            }
             try {
+                fManager.GetSegment(fSegmentId);
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
                     uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
@@ -210,8 +216,9 @@ class Message final : public fair::mq::Message
                         }
                         char* ptr = fManager.Allocate(newSize, alignment.alignment);
                         char* userPtr = ShmHeader::UserPtr(ptr);
-                        std::memcpy(userPtr, fLocalPtr, newSize);
+                        std::memcpy(userPtr, ShmHeader::UserPtr(oldPtr), newSize);
                         fManager.Deallocate(fHandle, fSegmentId);
+                        fSegmentId = fManager.GetSegmentId();
                         fLocalPtr = userPtr;
                         fHandle = fManager.GetHandleFromAddress(ptr, fSegmentId);
                     }
-- 
2.43.0


From ebcd9b35ba175cd37d4e7676688aa002679dda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 09/59] fix: shmem message created from an empty buffer never
 releases that buffer

---
 fairmq/shmem/Message.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 87d7ec0..90c6a70 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -68,11 +68,11 @@ class Message final : public fair::mq::Message
     {
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
         fManager.IncrementMsgCounter();
     }
@@ -149,11 +149,11 @@ class Message final : public fair::mq::Message
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
     }
 
-- 
2.43.0


From 1fecf2293ac9f717010d84998da275b3e78c72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 10/59] fix: receiving an empty multipart shmem message fails
 an assertion

---
 fairmq/shmem/Socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2daa6fd..2e2c57c 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -275,7 +275,7 @@ class Socket final : public fair::mq::Socket
             int nbytes = zmq_msg_recv(zmqMsg.Msg(), fSocket, flags);
             if (nbytes > 0) {
                 [[maybe_unused]] auto const size = zmqMsg.Size();
-                assert(size > sizeof(std::size_t));
+                assert(size >= sizeof(std::size_t));
                 auto meta_n = static_cast<std::size_t*>(zmqMsg.Data());
                 auto const n = *meta_n;
                 assert(size >= sizeof(std::size_t) + n * sizeof(MetaHeader));
-- 
2.43.0


From 4b0e2c2980680c044c2122d4311dad31e9af628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 11/59] fix: zeromq messages lose their requested alignment
 after the first unaligned receive

---
 fairmq/zeromq/Message.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..b913fee 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -245,8 +245,10 @@ class Message final : public fair::mq::Message
                 // create new aligned buffer
                 auto ptrs = AllocateAligned(size, fAlignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
-                // rebuild the message with the new buffer
+                // rebuild the message with the new buffer, keeping the requested alignment
+                auto const alignment = fAlignment;
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
@@ -256,6 +258,9 @@ class Message final : public fair::mq::Message
     void Copy(const fair::mq::Message& msg) override
     {
         const Message& zMsg = static_cast<const Message&>(msg);
+        if (this == &zMsg) {
+            return;
+        }
         // Shares the message buffer between msg and this fMsg.
         if (zmq_msg_copy(fMsg.get(), zMsg.GetMessage()) != 0) {
             LOG(error) << "failed copying message, reason: " << zmq_strerror(errno);
-- 
2.43.0


From 0f63a7c6c817517cb30d34dd52573dfc22cc10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 12/59] fix: getMessage of an empty container passes null
 pointers to memcpy

---
 fairmq/MemoryResourceTools.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fairmq/MemoryResourceTools.h b/fairmq/MemoryResourceTools.h
index d91c43b..f447f1e 100644
--- a/fairmq/MemoryResourceTools.h
+++ b/fairmq/MemoryResourceTools.h
@@ -56,9 +56,11 @@ MessagePtr getMessage(ContainerT &&container_, MemoryResource *targetResource =
     }
 
     auto message = targetResource->getTransportFactory()->CreateMessage(containerSizeBytes);
-    std::memcpy(static_cast<fair::mq::byte *>(message->GetData()),
-        container.data(),
-        containerSizeBytes);
+    if (containerSizeBytes > 0) {
+        std::memcpy(static_cast<fair::mq::byte *>(message->GetData()),
+            container.data(),
+            containerSizeBytes);
+    }
     return message;
 }
 
-- 
2.43.0


From 5612922b9ef148697b18bbccc9efadc9e2654a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 13/59] fix: zero-sized allocations of a ChannelResource return
 null and share one entry

---
 fairmq/MemoryResources.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/MemoryResources.cxx b/fairmq/MemoryResources.cxx
index 8bdfe75..b45babf 100644
--- a/fairmq/MemoryResources.cxx
+++ b/fairmq/MemoryResources.cxx
@@ -17,5 +17,6 @@
 
 void *fair::mq::ChannelResource::do_allocate(std::size_t bytes, std::size_t alignment)
 {
-    return setMessage(factory->CreateMessage(bytes, fair::mq::Alignment{alignment}));
+    // an empty message has no address, but every allocation needs one of its own
+    return setMessage(factory->CreateMessage(bytes > 0 ? bytes : 1, fair::mq::Alignment{alignment}));
 }
-- 
2.43.0


From bd790129cc078361f845b8398e3f2282fb7bb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 14/59] fix: string subscribers get a concurrent value, or
 SetProperty throws, when the property changes meanwhile

---
 fairmq/ProgOptions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..6506d4d 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -145,7 +145,8 @@ class ProgOptions
             lock.unlock();
 
             fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+            // (not read back from the store, where it could have been changed or deleted by now)
+            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, fair::mq::PropertyHelper::GetPropertyInfo(boost::any(val)).first);
             return true;
         } else {
             LOG(debug) << "UpdateProperty failed, no property found with key '" << key << "'";
@@ -275,7 +276,8 @@ void fair::mq::ProgOptions::SetProperty(const std::string& key, T val)
     lock.unlock();
 
     fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+    // (not read back from the store, where it could have been changed or deleted by now)
+    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, fair::mq::PropertyHelper::GetPropertyInfo(boost::any(val)).first);
 }
 
 extern template void fair::mq::ProgOptions::SetProperty<int>(const std::string& key, int val);
-- 
2.43.0


From 0414c91e50f351f8b81c02b432797b8161cf9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 15/59] fix: type name of vector<bool> properties

---
 fairmq/Properties.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Properties.cxx b/fairmq/Properties.cxx
index 4c076b7..6bdbe8c 100644
--- a/fairmq/Properties.cxx
+++ b/fairmq/Properties.cxx
@@ -91,7 +91,7 @@ unordered_map<type_index, function<pair<string, string>(const Property&)>> Prope
     { type_index(typeid(double)),                          [](const Property& p) { return getStringPair<double>(p, "double"); } },
     { type_index(typeid(long double)),                     [](const Property& p) { return getStringPair<long double>(p, "long double"); } },
     { type_index(typeid(bool)),                            [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<bool>(p); return pair<string, string>{ ss.str(), "bool" }; } },
-    { type_index(typeid(vector<bool>)),                    [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<vector<bool>>(p); return pair<string, string>{ ss.str(), "vector<bool>>" }; } },
+    { type_index(typeid(vector<bool>)),                    [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<vector<bool>>(p); return pair<string, string>{ ss.str(), "vector<bool>" }; } },
     { type_index(typeid(fs::path)),                        [](const Property& p) { return getStringPair<fs::path>(p,
 #if FAIRMQ_HAS_STD_FILESYSTEM
                                                                                                                   "std::filesystem::path"); } },
-- 
2.43.0


From c473839f6f668534aeafef5974ada3947abf01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 16/59] fix: zeromq multi-part transfers lose or mix up parts
 when a signal arrives between two parts

When zmq_msg_send/zmq_msg_recv fails with EINTR after the first part, the whole
message was started over (parts already handed over were sent again as empty
ones, the size of parts already received was forgotten), or the transfer
reported a timeout or interruption half way through. Retry the same part.
---
 fairmq/zeromq/Socket.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..92bdf95 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -172,7 +172,10 @@ class Socket final : public fair::mq::Socket
                 bool repeat = false;
 
                 for (unsigned int i = 0; i < vecSize; ++i) {
-                    int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
+                    int nbytes = -1;
+                    do { // once the first part is queued, the remaining ones have to follow
+                        nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
+                    } while (nbytes < 0 && i > 0 && zmq_errno() == EINTR);
                     if (nbytes >= 0) {
                         totalSize += nbytes;
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
@@ -222,7 +225,10 @@ class Socket final : public fair::mq::Socket
             do {
                 fair::mq::MessagePtr part = std::make_unique<Message>(GetTransport());
 
-                int nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
+                int nbytes = -1;
+                do { // once the first part is received, the remaining ones have to follow
+                    nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
+                } while (nbytes < 0 && more && zmq_errno() == EINTR);
                 if (nbytes >= 0) {
                     static_cast<Message*>(part.get())->Realign();
                     msgVec.push_back(std::move(part));
-- 
2.43.0


From d589e863f147eb9887ca3790b0ade91b5aed1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 17/59] fix: transfers time out too early when signals arrive

Every failed attempt counted as a full socket timeout (100 ms), also when it
was cut short by EINTR after a fraction of that time.
---
 fairmq/shmem/Socket.h  | 16 ++++++++--------
 fairmq/zeromq/Common.h | 34 ++++++++++++++++++++++++++++++----
 fairmq/zeromq/Socket.h | 16 ++++++++--------
 3 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2e2c57c..9f405c5 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -127,7 +127,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::WaitTime waited(timeout);
 
         MetaHeader meta{ shmMsg->fSize, shmMsg->fHint, shmMsg->fHandle, shmMsg->fShared, shmMsg->fRegionId, shmMsg->fSegmentId, shmMsg->fManaged };
 
@@ -146,7 +146,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -165,7 +165,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::WaitTime waited(timeout);
 
         while (true) {
             Message* shmMsg = static_cast<Message*>(msg.get());
@@ -189,7 +189,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -206,7 +206,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::WaitTime waited(timeout);
 
         // meta msg format: | n | MetaHeader 1 | ... | MetaHeader n | padded to fMetadataMsgSize |
         auto const n = msgVec.size();
@@ -247,7 +247,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -266,7 +266,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::WaitTime waited(timeout);
 
         zmq::ZMsg zmqMsg;
 
@@ -300,7 +300,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 51d009b..835bb2e 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -8,6 +8,8 @@
 #ifndef FAIR_MQ_ZMQ_COMMON_H
 #define FAIR_MQ_ZMQ_COMMON_H
 
+#include <cerrno>
+#include <chrono>
 #include <fairlogger/Logger.h>
 #include <fairmq/Error.h>
 #include <fairmq/tools/Strings.h>
@@ -61,12 +63,36 @@ inline bool Connect(void* socket, const std::string& address, const std::string&
     return true;
 }
 
-inline bool ShouldRetry(int flags, int socketTimeout, int userTimeout, int& elapsed)
+/// Time a transfer with a positive timeout has been waiting
+struct WaitTime
+{
+    explicit WaitTime(int userTimeout)
+        : fUserTimeout(userTimeout)
+        , fStart(userTimeout > 0 ? std::chrono::steady_clock::now() : std::chrono::steady_clock::time_point())
+    {}
+
+    /// Account for a failed attempt: it took the socket timeout, unless it has been cut short by a signal
+    bool Expired(int socketTimeout)
+    {
+        if (zmq_errno() == EINTR) {
+            auto const elapsed = std::chrono::steady_clock::now() - fStart;
+            fElapsed = static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count());
+        } else {
+            fElapsed += socketTimeout;
+        }
+        return fElapsed >= fUserTimeout;
+    }
+
+    int fUserTimeout;
+    int fElapsed = 0;
+    std::chrono::steady_clock::time_point fStart;
+};
+
+inline bool ShouldRetry(int flags, int socketTimeout, WaitTime& waited)
 {
     if ((flags & ZMQ_DONTWAIT) == 0) {
-        if (userTimeout > 0) {
-            elapsed += socketTimeout;
-            if (elapsed >= userTimeout) {
+        if (waited.fUserTimeout > 0) {
+            if (waited.Expired(socketTimeout)) {
                 return false;
             }
         }
diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 92bdf95..1794c2d 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -100,7 +100,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::WaitTime waited(timeout);
 
         int64_t actualBytes = zmq_msg_size(static_cast<Message*>(msg.get())->GetMessage());
 
@@ -113,7 +113,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fCtx.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -130,7 +130,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::WaitTime waited(timeout);
 
         while (true) {
             int nbytes = zmq_msg_recv(static_cast<Message*>(msg.get())->GetMessage(), fSocket, flags);
@@ -143,7 +143,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fCtx.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -165,7 +165,7 @@ class Socket final : public fair::mq::Socket
 
         // Sending vector typicaly handles more then one part
         if (vecSize > 1) {
-            int elapsed = 0;
+            zmq::WaitTime waited(timeout);
 
             while (true) {
                 int64_t totalSize = 0;
@@ -181,7 +181,7 @@ class Socket final : public fair::mq::Socket
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
-                        } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                        } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                             repeat = true;
                             break;
                         } else {
@@ -215,7 +215,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        zmq::WaitTime waited(timeout);
 
         while (true) {
             int64_t totalSize = 0;
@@ -236,7 +236,7 @@ class Socket final : public fair::mq::Socket
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-                    } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                    } else if (zmq::ShouldRetry(flags, fTimeout, waited)) {
                         repeat = true;
                         break;
                     } else {
-- 
2.43.0


From 3ed98f64b85fde651985d9ade3301bf06d06a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:55 +0000
Subject: [PATCH 18/59] fix: threads opening another device's shmem segment
 race with those using segments

---
 fairmq/shmem/Manager.h | 61 +++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..286e680 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -34,6 +34,7 @@
 #include <memory> // make_unique
 #include <mutex>
 #include <set>
+#include <shared_mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -232,7 +233,7 @@ class Manager
     void ZeroSegment(uint16_t id)
     {
         LOG(debug) << "Zeroing the managed segment free memory...";
-        std::visit([](auto& s) { return s.zero_free_memory(); }, fSegments.at(id));
+        std::visit([](auto& s) { return s.zero_free_memory(); }, LocalSegment(id));
         LOG(debug) << "Successfully zeroed the managed segment free memory.";
     }
 
@@ -240,8 +241,8 @@ class Manager
     {
         LOG(debug) << "Locking the managed segment memory pages...";
         if (mlock(
-                std::visit([](auto& s) { return s.get_address(); }, fSegments.at(id)),
-                std::visit([](auto& s) { return s.get_size(); }, fSegments.at(id))) == -1) {
+                std::visit([](auto& s) { return s.get_address(); }, LocalSegment(id)),
+                std::visit([](auto& s) { return s.get_size(); }, LocalSegment(id))) == -1) {
             LOG(error) << "Could not lock the managed segment memory. Code: " << errno << ", reason: " << strerror(errno);
             throw TransportError(tools::ToString("Could not lock the managed segment memory: ", strerror(errno)));
         }
@@ -459,14 +460,14 @@ class Manager
 
             for (const auto& [segmentId, segmentInfo] : *fShmSegments) {
                 // make sure any segments in the session are found
-                GetSegment(segmentId);
+                OpenSegment(segmentId);
                 try {
                     fair::mq::RegionInfo info;
                     info.managed = true;
                     info.id = segmentId;
                     info.event = RegionEvent::created;
-                    info.ptr = std::visit([](auto& s) { return s.get_address(); }, fSegments.at(segmentId));
-                    info.size = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(segmentId));
+                    info.ptr = std::visit([](auto& s) { return s.get_address(); }, LocalSegment(segmentId));
+                    info.size = std::visit([](auto& s) { return s.get_size(); }, LocalSegment(segmentId));
                     result.push_back(info);
                 } catch (const std::out_of_range& oor) {
                     LOG(error) << "could not find segment with id " << segmentId;
@@ -637,6 +638,20 @@ class Manager
 
     void GetSegment(uint16_t id)
     {
+        {
+            std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+            if (fSegments.find(id) != fSegments.end()) {
+                return;
+            }
+        }
+        boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
+        OpenSegment(id);
+    }
+
+    // to be called with fShmMtx locked
+    void OpenSegment(uint16_t id)
+    {
+        std::lock_guard<std::shared_mutex> lock(fSegmentsMtx);
         auto it = fSegments.find(id);
         if (it == fSegments.end()) {
             try {
@@ -661,11 +676,11 @@ class Manager
 
     boost::interprocess::managed_shared_memory::handle_t GetHandleFromAddress(const void* ptr, uint16_t segmentId) const
     {
-        return std::visit([ptr](auto& s) { return s.get_handle_from_address(ptr); }, fSegments.at(segmentId));
+        return std::visit([ptr](auto& s) { return s.get_handle_from_address(ptr); }, LocalSegment(segmentId));
     }
     char* GetAddressFromHandle(const boost::interprocess::managed_shared_memory::handle_t handle, uint16_t segmentId) const
     {
-        return std::visit([handle](auto& s) { return reinterpret_cast<char*>(s.get_address_from_handle(handle)); }, fSegments.at(segmentId));
+        return std::visit([handle](auto& s) { return reinterpret_cast<char*>(s.get_address_from_handle(handle)); }, LocalSegment(segmentId));
     }
 
     char* Allocate(size_t size, size_t alignment = 0)
@@ -678,24 +693,24 @@ class Manager
 
         while (!ptr) {
             try {
-                size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(fSegmentId));
+                size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, LocalSegment(fSegmentId));
                 if (fullSize > segmentSize) {
                     throw MessageBadAlloc(tools::ToString("Requested message size (", fullSize, ") exceeds segment size (", segmentSize, ")"));
                 }
 
-                ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, fSegments.at(fSegmentId));
+                ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, LocalSegment(fSegmentId));
                 ShmHeader::Construct(ptr, alignment);
             } catch (boost::interprocess::bad_alloc& ba) {
                 // LOG(warn) << "Shared memory full...";
                 if (fBadAllocMaxAttempts >= 0 && ++numAttempts >= fBadAllocMaxAttempts) {
                     throw MessageBadAlloc(tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId))));
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId))));
                 }
                 if (numAttempts == 1 && fBadAllocMaxAttempts > 1) {
                     LOG(warn) << tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId)),
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId)),
                         ". Will try ", (fBadAllocMaxAttempts > 1 ? (std::to_string(fBadAllocMaxAttempts - 1)) + " more times" : " until success"),
                         ", in ", fBadAllocAttemptIntervalInMs, "ms intervals");
                 }
@@ -703,7 +718,7 @@ class Manager
                 if (Interrupted()) {
                     throw MessageBadAlloc(tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId))));
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId))));
                 } else {
                     continue;
                 }
@@ -737,12 +752,12 @@ class Manager
         }
 #endif
         ShmHeader::Destruct(ptr);
-        std::visit([ptr](auto& s) { s.deallocate(ptr); }, fSegments.at(segmentId));
+        std::visit([ptr](auto& s) { s.deallocate(ptr); }, LocalSegment(segmentId));
     }
 
     char* ShrinkInPlace(size_t newSize, char* localPtr, uint16_t segmentId)
     {
-        return std::visit(SegmentBufferShrink(newSize, localPtr), fSegments.at(segmentId));
+        return std::visit(SegmentBufferShrink(newSize, localPtr), LocalSegment(segmentId));
     }
 
     uint16_t GetSegmentId() const { return fSegmentId; }
@@ -787,10 +802,24 @@ class Manager
     }
 
   private:
+    using SegmentVariant = std::variant<RBTreeBestFitSegment, SimpleSeqFitSegment>;
+
+    SegmentVariant& LocalSegment(uint16_t id)
+    {
+        std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+        return fSegments.at(id);
+    }
+    const SegmentVariant& LocalSegment(uint16_t id) const
+    {
+        std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+        return fSegments.at(id);
+    }
+
     uint64_t fShmId64;
     std::string fShmId;
     uint16_t fSegmentId;
-    std::unordered_map<uint16_t, std::variant<RBTreeBestFitSegment, SimpleSeqFitSegment>> fSegments; // TODO: refactor to use Segment class
+    mutable std::shared_mutex fSegmentsMtx; // guards the container, the elements stay in place once added
+    std::unordered_map<uint16_t, SegmentVariant> fSegments; // TODO: refactor to use Segment class
     boost::interprocess::managed_shared_memory fManagementSegment; // TODO: refactor to use ManagementSegment class
     VoidAlloc fShmVoidAlloc;
     boost::interprocess::interprocess_mutex* fShmMtx;
-- 
2.43.0


From 1a8fb090faa9ce7c6b8a8b2c192ca1ee3ff02f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:18 +0000
Subject: [PATCH 19/59] fix: a region message that outlives its region crashes
 on destruction

---
 fairmq/shmem/Manager.h | 7 +++++++
 fairmq/shmem/Message.h | 8 +++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 286e680..ff57007 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -410,6 +410,10 @@ class Manager
             {
                 boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
                 RegionInfo regionInfo = fShmRegions->at(id);
+                if (regionInfo.fDestroyed) {
+                    LOG(debug) << "region with id '" << id << "' has been destroyed";
+                    return nullptr;
+                }
                 cfg.id = id;
                 cfg.creationFlags = regionInfo.fCreationFlags;
                 cfg.rcSegmentSize = regionInfo.fRCSegmentSize;
@@ -428,6 +432,9 @@ class Manager
         } catch (boost::interprocess::interprocess_exception& e) {
             LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
             return nullptr;
+        } catch (TransportError& e) {
+            LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
+            return nullptr;
         }
     }
 
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 90c6a70..2f591a8 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -425,9 +425,8 @@ class Message final : public fair::mq::Message
 
     void ReleaseUnmanagedRegionBlock()
     {
-        if (!fRegionPtr) {
-            fRegionPtr = fManager.GetRegionFromCache(fRegionId);
-        }
+        // look it up again, it could have been removed in the meantime
+        fRegionPtr = fManager.GetRegionFromCache(fRegionId);
 
         if (fRegionPtr) {
             fRegionPtr->ReleaseBlock({fHandle, fSize, fHint});
@@ -444,6 +443,9 @@ class Message final : public fair::mq::Message
             LOG(error) << "error closing message: " << sme.what();
         } catch (boost::interprocess::lock_exception& le) {
             LOG(error) << "error closing message: " << le.what();
+        } catch (TransportError& te) {
+            LOG(error) << "error closing message: " << te.what();
+            ResetMeta();
         }
     }
 };
-- 
2.43.0


From b7596f7eeedb93ab846234e1de86fecbab8d35a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 20/59] fix: acknowledgements get lost when a region is
 destroyed while they are being sent

---
 fairmq/shmem/UnmanagedRegion.h | 41 ++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index fb4da9a..0e8442b 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -28,6 +28,7 @@
 #include <memory> // make_unique
 #include <mutex>
 #include <condition_variable>
+#include <optional>
 #include <unordered_map>
 #include <cerrno>
 #include <chrono>
@@ -60,6 +61,8 @@ struct UnmanagedRegion
         , fRemoveOnDestruction(cfg.removeOnDestruction)
         , fLinger(cfg.linger)
         , fStopAcks(false)
+        , fStopAckReceiver(false)
+        , fReceivingAcks(false)
         , fName(MakeShmName(shmId, "rg", cfg.id.value()))
         , fQueueName(MakeShmName(shmId, "rgq", cfg.id.value()))
         , fRefCountSegmentName(MakeShmName(shmId, "rrc", cfg.id.value()))
@@ -207,18 +210,9 @@ struct UnmanagedRegion
     ~UnmanagedRegion()
     {
         LOG(debug) << "~UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
-        fStopAcks = true;
-
-        if (fAcksSender.joinable()) {
-            fBlockSendCV.notify_one();
-            fAcksSender.join();
-        }
+        StopAcks();
 
         if (fControlling) {
-            if (fAcksReceiver.joinable()) {
-                fAcksReceiver.join();
-            }
-
             if (fRemoveOnDestruction) {
                 if (Monitor::RemoveObject(fName.c_str())) {
                     LOG(trace) << "Region '" << fName << "' destroyed.";
@@ -256,6 +250,8 @@ struct UnmanagedRegion
     bool fRemoveOnDestruction;
     uint32_t fLinger;
     std::atomic<bool> fStopAcks;
+    std::atomic<bool> fStopAckReceiver;
+    std::atomic<bool> fReceivingAcks;
     std::string fName;
     std::string fQueueName;
     std::string fRefCountSegmentName;
@@ -354,6 +350,7 @@ struct UnmanagedRegion
     {
         std::unique_ptr<RegionBlock[]> blocks = std::make_unique<RegionBlock[]>(fAckBunchSize);
         size_t blocksToSend = 0;
+        std::optional<std::chrono::steady_clock::time_point> giveUpAt;
 
         while (true) {
             {
@@ -361,7 +358,7 @@ struct UnmanagedRegion
 
                 // try to get <fAckBunchSize> blocks
                 if (fBlocksToFree.size() < fAckBunchSize) {
-                    fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500));
+                    fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500), [this] { return fStopAcks || fBlocksToFree.size() >= fAckBunchSize; });
                 }
 
                 // send whatever blocks we have
@@ -372,8 +369,17 @@ struct UnmanagedRegion
             }
 
             if (blocksToSend > 0) {
-                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0) && !fStopAcks) {
+                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0)) {
                     // receiver slow? yield and try again...
+                    // when stopping: the own receiver runs until everything is sent, a remote one may be gone
+                    if (fStopAcks && !fReceivingAcks) {
+                        if (!giveUpAt) {
+                            giveUpAt = std::chrono::steady_clock::now() + std::chrono::milliseconds(fLinger);
+                        } else if (std::chrono::steady_clock::now() >= *giveUpAt) {
+                            LOG(debug) << "ack queue of " << fName << " remains full, dropping " << blocksToSend << " acks";
+                            break;
+                        }
+                    }
                     std::this_thread::yield();
                 }
                 // LOG(debug) << "Sent " << blocksToSend << " blocks.";
@@ -391,6 +397,7 @@ struct UnmanagedRegion
     void StartAckReceiver()
     {
         if (!fAcksReceiver.joinable()) {
+            fReceivingAcks = true;
             fAcksReceiver = std::thread(&UnmanagedRegion::ReceiveAcks, this);
         }
     }
@@ -405,7 +412,7 @@ struct UnmanagedRegion
         while (true) {
             uint32_t timeout = 100;
             bool leave = false;
-            if (fStopAcks) {
+            if (fStopAckReceiver) {
                 timeout = fLinger;
                 leave = true;
             }
@@ -449,13 +456,19 @@ struct UnmanagedRegion
 
     void StopAcks()
     {
-        fStopAcks = true;
+        {
+            std::lock_guard<std::mutex> lock(fBlockMtx);
+            fStopAcks = true;
+        }
 
         if (fAcksSender.joinable()) {
             fBlockSendCV.notify_one();
             fAcksSender.join();
         }
 
+        // only now, as it has to receive what the sender has sent up to the end
+        fStopAckReceiver = true;
+
         if (fAcksReceiver.joinable()) {
             fAcksReceiver.join();
         }
-- 
2.43.0


From 5982d17e10719d6881e0fc45f1c8b84324d6064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:54 +0000
Subject: [PATCH 21/59] fix: deadlocks when regions are removed or opened while
 other threads or callbacks use regions

---
 fairmq/shmem/Manager.h | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index ff57007..0bd757d 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -398,10 +398,12 @@ class Manager
 
     UnmanagedRegion* GetRegion(uint16_t id)
     {
-        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-        auto it = fRegions.find(id);
-        if (it != fRegions.end()) {
-            return it->second.get();
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
         }
 
         try {
@@ -421,6 +423,12 @@ class Manager
             }
             // LOG(debug) << "Located remote region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
+            // fShmMtx is released by now: where both mutexes are held, it has to be the first
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) { // another thread was faster
+                return it->second.get();
+            }
             auto r = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, 0, false, std::move(cfg)));
             r.first->second->InitializeQueues();
             r.first->second->StartAckSender();
@@ -440,18 +448,30 @@ class Manager
 
     void RemoveRegion(uint16_t id)
     {
-        try {
+        UnmanagedRegion* region = nullptr;
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                region = it->second.get();
+            }
+        }
+
+        if (region) {
+            // this waits for the callbacks, which may use the transport: no lock can be held
+            region->StopAcks();
+
             boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
             std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-            fRegions.at(id)->StopAcks();
-            {
-                if (fRegions.at(id)->RemoveOnDestruction()) {
-                    fShmRegions->at(id).fDestroyed = true;
+            if (region->RemoveOnDestruction()) {
+                auto it = fShmRegions->find(id);
+                if (it != fShmRegions->end()) {
+                    it->second.fDestroyed = true;
                     (fEventCounter->fCount)++;
                 }
-                fRegions.erase(id);
             }
-        } catch (std::out_of_range& oor) {
+            fRegions.erase(id);
+        } else {
             LOG(debug) << "RemoveRegion() could not locate region with id '" << id << "'";
         }
         fRegionsGen += 1; // signal TL cache invalidation
-- 
2.43.0


From b6436377145d5e9406d5a8de61e913fb03171615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:38 +0000
Subject: [PATCH 22/59] fix: region event subscribers crash when a region is
 destroyed while they look at it

---
 fairmq/shmem/Manager.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 0bd757d..cd1e0ba 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -525,7 +525,8 @@ class Manager
         }
 
         // do another iteration outside of shm lock, to fill ptr+size of unmanaged regions
-        for (auto& info : result) {
+        for (auto infoIt = result.begin(); infoIt != result.end();) {
+            auto& info = *infoIt;
             if (!info.managed && info.event == RegionEvent::created) {
                 auto cfgIt = regionCfgs.find(info.id);
                 if (cfgIt != regionCfgs.end()) {
@@ -535,10 +536,17 @@ class Manager
                     if (it != fRegions.end()) {
                         region = it->second.get();
                     } else {
-                        auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
-                        region = r.first->second.get();
-                        region->InitializeQueues();
-                        region->StartAckSender();
+                        try {
+                            auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
+                            region = r.first->second.get();
+                            region->InitializeQueues();
+                            region->StartAckSender();
+                        } catch (const std::exception& e) {
+                            // the owner may have destroyed the region since the shmLock was released
+                            LOG(debug) << "could not open region with id '" << info.id << "': " << e.what();
+                            infoIt = result.erase(infoIt);
+                            continue;
+                        }
                     }
 
                     info.ptr = region->GetData();
@@ -548,6 +556,7 @@ class Manager
                     info.size = 0;
                 }
             }
+            ++infoIt;
         }
 
         return result;
-- 
2.43.0


From 684658dba95aafe445887f85cb9d50e34fc8344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 23/59] fix: file-backed unmanaged regions are never registered
 with the session

---
 fairmq/shmem/UnmanagedRegion.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 0e8442b..4927d22 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -35,6 +35,8 @@
 #include <ios>
 #include <utility> // move
 
+#include <unistd.h> // access
+
 namespace fair::mq::shmem
 {
 
@@ -87,6 +89,7 @@ struct UnmanagedRegion
             fName = std::string(cfg.path + fName);
 
             if (fControlling) {
+                created = access(fName.c_str(), F_OK) != 0;
                 // create a file
                 std::filebuf fbuf;
                 if (fbuf.open(fName, std::ios_base::in | std::ios_base::out | std::ios_base::trunc | std::ios_base::binary)) {
@@ -234,14 +237,14 @@ struct UnmanagedRegion
             } else {
                 LOG(debug) << "Region queue '" << fQueueName << "' not destroyed.";
             }
-
-            if (fFile) {
-                fclose(fFile);
-            }
         } else {
             // LOG(debug) << "Region queue '" << fQueueName << "' is viewer, no cleanup necessary";
         }
 
+        if (fFile) {
+            fclose(fFile);
+        }
+
         // LOG(debug) << "Region '" << fName << "' (" << (fControlling ? "controller" : "viewer") << ") destructed.";
     }
 
-- 
2.43.0


From faf25d0787e29f4e8c1dcc82608d58d8e350b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 24/59] fix: zeromq regions created concurrently share an id,
 region event callbacks deadlock when they use regions

---
 fairmq/zeromq/Context.h         | 12 +++++++-----
 fairmq/zeromq/UnmanagedRegion.h |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index a02b679..92d1c49 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -97,10 +97,13 @@ class Context
     {
         std::unique_lock<std::mutex> lock(fMtx);
         while (fRegionEventsSubscriptionActive) {
-            while (!fRegionEvents.empty()) {
+            while (fRegionEventsSubscriptionActive && !fRegionEvents.empty()) {
                 auto i = fRegionEvents.front();
-                fRegionEventCallback(i);
                 fRegionEvents.pop();
+                // call without the lock, the callback may use regions
+                lock.unlock();
+                fRegionEventCallback(i);
+                lock.lock();
             }
             fRegionEventsCV.wait(lock, [&]() { return !fRegionEventsSubscriptionActive || !fRegionEvents.empty(); });
         }
@@ -112,17 +115,16 @@ class Context
         return fRegionInfos;
     }
 
-    uint16_t RegionCount() const
+    uint16_t AcquireRegionId()
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        return fRegionCounter;
+        return fRegionCounter++;
     }
 
     void AddRegion(bool managed, uint16_t id, void* ptr, size_t size, int64_t userFlags, RegionEvent event)
     {
         {
             std::lock_guard<std::mutex> lock(fMtx);
-            ++fRegionCounter;
             fRegionInfos.emplace_back(managed, id, ptr, size, userFlags, event);
             fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
         }
diff --git a/fairmq/zeromq/UnmanagedRegion.h b/fairmq/zeromq/UnmanagedRegion.h
index 41e518d..e73a59b 100644
--- a/fairmq/zeromq/UnmanagedRegion.h
+++ b/fairmq/zeromq/UnmanagedRegion.h
@@ -38,7 +38,7 @@ class UnmanagedRegion final : public fair::mq::UnmanagedRegion
                     fair::mq::RegionConfig cfg)
         : fair::mq::UnmanagedRegion(factory)
         , fCtx(ctx)
-        , fId(fCtx.RegionCount())
+        , fId(fCtx.AcquireRegionId())
         , fBuffer(malloc(size))
         , fSize(size)
         , fUserFlags(userFlags)
-- 
2.43.0


From 9fab79a45e0b26655d5401cd31050c7cf1769c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 25/59] fix: region cache of a thread misses that a region was
 removed during a lookup

---
 fairmq/shmem/Manager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index cd1e0ba..5b47500 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -386,13 +386,15 @@ class Manager
         }
 
         // slow path: check invalidation
-        if (lTlCacheGen != fRegionsGen) {
+        // (read the generation before the lookup, a region could be removed right after it)
+        const unsigned long gen = fRegionsGen;
+        if (lTlCacheGen != gen) {
             fTlRegionCache.fRegionsTLCache.clear();
         }
 
         auto* lRegion = GetRegion(id);
         fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, fShmId64));
-        fTlRegionCache.fRegionsTLCacheGen = fRegionsGen;
+        fTlRegionCache.fRegionsTLCacheGen = gen;
         return lRegion;
     }
 
-- 
2.43.0


From de635658142690b6d9fa8da90b6183870e354ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 26/59] fix: session cleanup crashes on a file-backed region
 with a long path

---
 fairmq/shmem/Monitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index b996caa..359491d 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -676,7 +676,7 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
             }
             for (const auto& region : *shmRegions) {
                 uint16_t id = region.first;
-                RegionInfo info = region.second;
+                const RegionInfo& info = region.second;
                 string path = info.fPath.c_str();
                 int flags = info.fCreationFlags;
                 if (verbose) {
-- 
2.43.0


From 4843d4a0dde974202e85a023277afb11239f43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 27/59] fix: reference count of a shared buffer wraps around,
 releasing it while it is used

---
 fairmq/shmem/Common.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index ed35016..25ef75b 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -11,6 +11,7 @@
 #include <atomic>
 #include <string>
 #include <functional> // std::equal_to
+#include <limits>
 
 #include <boost/functional/hash.hpp>
 // #include <boost/interprocess/allocators/adaptive_pool.hpp>
@@ -27,6 +28,7 @@
 
 #include <sys/types.h>
 
+#include <fairmq/Message.h> // RefCountBadAlloc
 #include <fairmq/tools/Strings.h>
 
 namespace fair::mq::shmem
@@ -53,6 +55,18 @@ inline std::string MakeShmName(const std::string& shmId, const std::string& type
     return std::string(MakeShmName(shmId, type) + "_" + std::to_string(index));
 }
 
+// increments a reference count, throws if there are already as many holders as it can count
+inline uint16_t IncrementRefCountChecked(std::atomic<uint16_t>& count)
+{
+    uint16_t n = count.load();
+    do {
+        if (n == std::numeric_limits<uint16_t>::max()) {
+            throw RefCountBadAlloc("cannot copy message, its reference count has reached the maximum");
+        }
+    } while (!count.compare_exchange_weak(n, n + 1));
+    return n;
+}
+
 struct RefCount
 {
     explicit RefCount(uint16_t c)
@@ -60,7 +74,7 @@ struct RefCount
     {}
 
     uint16_t Get() { return count.load(); }
-    uint16_t Increment() { return count.fetch_add(1); }
+    uint16_t Increment() { return IncrementRefCountChecked(count); }
     uint16_t Decrement() { return count.fetch_sub(1); }
 
     std::atomic<uint16_t> count;
@@ -126,7 +140,7 @@ struct ShmHeader
     }
 
     static uint16_t RefCount(char* ptr) { return RefCountPtr(ptr).load(); }
-    static uint16_t IncrementRefCount(char* ptr) { return RefCountPtr(ptr).fetch_add(1); }
+    static uint16_t IncrementRefCount(char* ptr) { return IncrementRefCountChecked(RefCountPtr(ptr)); }
     static uint16_t DecrementRefCount(char* ptr) { return RefCountPtr(ptr).fetch_sub(1); }
 
     static size_t FullSize(size_t size, size_t alignment)
-- 
2.43.0


From 4cf26f265ec5de7255b12649f932a3536347a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 28/59] fix: resetting a device before bind/connect leaves
 dangling channel pointers behind

---
 fairmq/Device.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..9718ac7 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -740,6 +740,9 @@ void Device::ResetWrapper()
 
     Reset();
 
+    // these refer to the channels and can be non-empty if reset comes before bind/connect
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     if (!NewStatePending()) {
-- 
2.43.0


From 0082ce895c8a64d08de29059b30f64f79ba15b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:33 +0000
Subject: [PATCH 29/59] fix: stop request arriving while Run() returns by
 itself sends the device to ERROR

---
 fairmq/Device.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 9718ac7..4d6416f 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -422,8 +422,9 @@ void Device::RunWrapper()
     }
 
     // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Stop);
+    // (Stop is refused if someone else has requested a transition in the meantime, which is fine)
+    if (!NewStatePending() && !ChangeState(Transition::Stop) && !NewStatePending()) {
+        throw runtime_error("could not leave the RUNNING state");
     }
 
     PostRun();
-- 
2.43.0


From 1267357b77e3baf87ed10f7c6d96127a86b79ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 30/59] fix: interruption of transfers by a request arriving
 right after a state change is lost

---
 fairmq/StateMachine.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 80f9cfb..b2e0196 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -205,9 +205,12 @@ struct Machine_ : public state_machine_def<Machine_>
                 if (fState == State::Exiting || fState == State::Error) {
                     stop = true;
                 }
+
+                // has to happen before the next transition can be requested,
+                // the preparation must not undo what new transition callbacks do
+                CallStatePrep(fState);
             }
 
-            CallStatePrep(fState);
             CallStateChangeCallbacks(fState);
             CallStateHandler(fState);
         }
-- 
2.43.0


From 4498940910997a953b9127e6b07e42001fc4bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 31/59] fix: exception of a data handler terminates the process
 if several transports are used

---
 fairmq/Device.cxx | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 4d6416f..947a260 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -511,15 +512,31 @@ void Device::HandleMultipleTransportInput()
 {
     vector<thread> threads;
 
+    exception_ptr failure;
+
     fMultitransportProceed = true;
 
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        threads.emplace_back([this, &failure, factory = fTransports.at(i.first).get(), &keys = i.second] {
+            try {
+                PollForTransport(factory, keys);
+            } catch (...) {
+                lock_guard<mutex> lock(fMultitransportMutex);
+                if (!failure) {
+                    failure = current_exception();
+                }
+                fMultitransportProceed = false;
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    if (failure) {
+        rethrow_exception(failure);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
@@ -539,10 +556,15 @@ void Device::PollForTransport(const TransportFactory* factory, const vector<stri
                             break;
                         }
 
-                        if (GetChannel(ch, i).fMultipart) {
-                            fMultitransportProceed = HandleMultipartInput(ch, fMultipartInputs.at(ch), i);
-                        } else {
-                            fMultitransportProceed = HandleMsgInput(ch, fMsgInputs.at(ch), i);
+                        try {
+                            if (GetChannel(ch, i).fMultipart) {
+                                fMultitransportProceed = HandleMultipartInput(ch, fMultipartInputs.at(ch), i);
+                            } else {
+                                fMultitransportProceed = HandleMsgInput(ch, fMsgInputs.at(ch), i);
+                            }
+                        } catch (...) {
+                            fMultitransportProceed = false;
+                            throw;
                         }
 
                         if (!fMultitransportProceed) {
-- 
2.43.0


From d53ebd5018e9df431f4068f4c69c2debe0a49247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 32/59] fix: RegionIsPresent reports file-backed regions that
 have been destroyed

---
 fairmq/shmem/Monitor.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 359491d..5dbb150 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -604,6 +604,8 @@ bool Monitor::RegionIsPresent(const ShmId& shmId, uint16_t regionId)
             try {
                 if (it->second.fPath.empty()) {
                     shared_memory_object object(open_only, regionFileName.c_str(), read_only);
+                } else {
+                    file_mapping file((it->second.fPath.c_str() + regionFileName).c_str(), read_only);
                 }
             } catch (bie&) {
                 LOG(error) << "Could not find region with id '" << regionId << "' for shmId '" << shmId.shmId << "'";
-- 
2.43.0


From 9c4a172cd8435cd14922658c390e5e426be0d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 33/59] fix: cleanup leaves the management segment if its
 creator died while creating it

---
 fairmq/shmem/Monitor.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 5dbb150..b329c54 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -713,6 +713,11 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
         if (verbose) {
             LOG(info) << "Did not find '" << managementSegmentName << "' management segment. No regions to cleanup.";
         }
+        // it is there, but unusable, if its creator died before having initialized it
+        auto removed = Remove<bipc::shared_memory_object>(managementSegmentName, verbose);
+        if (removed.second) {
+            result.emplace_back(removed);
+        }
     }
 
     return result;
-- 
2.43.0


From 8ea133adab8930e928969cbd16e162254067a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 34/59] fix: failed or interrupted creation of a managed
 segment leaves it behind, unknown to cleanups

---
 fairmq/shmem/Manager.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 5b47500..139a088 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -14,6 +14,7 @@
 #include "UnmanagedRegion.h"
 #include <fairmq/Message.h>
 #include <fairmq/ProgOptions.h>
+#include <fairmq/tools/Exceptions.h>
 #include <fairmq/tools/Strings.h>
 #include <fairmq/Transports.h>
 
@@ -163,13 +164,18 @@ class Manager
                 auto it = fShmSegments->find(fSegmentId);
                 if (it == fShmSegments->end()) {
                     // no segment with given id exists, creating
+                    // (registered first, for a cleanup to find it if this process does not survive the creation)
+                    fShmSegments->emplace(fSegmentId, allocationAlgorithm == "rbtree_best_fit" ? AllocationAlgorithm::rbtree_best_fit : AllocationAlgorithm::simple_seq_fit);
+                    tools::CallOnDestruction discard([&]() {
+                        Monitor::RemoveObject(segmentName);
+                        fShmSegments->erase(fSegmentId);
+                    });
                     if (allocationAlgorithm == "rbtree_best_fit") {
                         fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
-                        fShmSegments->emplace(fSegmentId, AllocationAlgorithm::rbtree_best_fit);
                     } else if (allocationAlgorithm == "simple_seq_fit") {
                         fSegments.emplace(fSegmentId, SimpleSeqFitSegment(open_or_create, segmentName.c_str(), size));
-                        fShmSegments->emplace(fSegmentId, AllocationAlgorithm::simple_seq_fit);
                     }
+                    discard.disable();
                     if (mlockSegmentOnCreation) {
                         MlockSegment(fSegmentId);
                     }
-- 
2.43.0


From ef25673aae18de966107c8235a03e391e67de1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 35/59] fix: failed or interrupted creation of an unmanaged
 region leaves it behind, unknown to cleanups

---
 fairmq/shmem/UnmanagedRegion.h | 43 ++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 4927d22..2cf167e 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -11,6 +11,7 @@
 
 #include <fairmq/shmem/Common.h>
 #include <fairmq/shmem/Monitor.h>
+#include <fairmq/tools/Exceptions.h>
 #include <fairmq/tools/Strings.h>
 #include <fairmq/UnmanagedRegion.h>
 #include <fairmq/Transports.h>
@@ -85,11 +86,30 @@ struct UnmanagedRegion
 
         LOG(debug) << "UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
 
+        // a region is registered before it is created, for a cleanup to find it if this process does not survive the creation
+        tools::CallOnDestruction discard([&]() {
+            if (created) {
+                if (cfg.path.empty()) {
+                    Monitor::RemoveObject(fName);
+                } else {
+                    Monitor::RemoveFileMapping(fName);
+                }
+                Monitor::RemoveObject(fRefCountSegmentName);
+                Unregister(shmId, id);
+            }
+            if (fFile) {
+                fclose(fFile);
+            }
+        });
+
         if (!cfg.path.empty()) {
             fName = std::string(cfg.path + fName);
 
             if (fControlling) {
-                created = access(fName.c_str(), F_OK) != 0;
+                if (access(fName.c_str(), F_OK) != 0) {
+                    Register(shmId, cfg);
+                    created = true;
+                }
                 // create a file
                 std::filebuf fbuf;
                 if (fbuf.open(fName, std::ios_base::in | std::ios_base::out | std::ios_base::trunc | std::ios_base::binary)) {
@@ -118,9 +138,10 @@ struct UnmanagedRegion
                 } catch (interprocess_exception& e) {
                     if (fControlling) {
                         LOG(debug) << "Could not open controlling shared_memory_object for region " << id << ": " << e.what() << ", creating...";
+                        Register(shmId, cfg);
+                        created = true;
                         fShmemObject = shared_memory_object(create_only, fName.c_str(), read_write);
                         fShmemObject.truncate(size);
-                        created = true;
                     } else {
                         LOG(error) << "Could not open view for shared_memory_object for region " << id << ": " << e.what();
                         throw TransportError(tools::ToString("Could not open view for shared_memory_object for region ", id, ": ", e.what()));
@@ -156,9 +177,7 @@ struct UnmanagedRegion
 
         InitializeRefCountSegment(fRcSegmentSize);
 
-        if (fControlling && created) {
-            Register(shmId, cfg);
-        }
+        discard.disable();
 
         LOG(debug) << (created ? "Created" : "Opened") << " unmanaged shared memory region: " << fName << " (" << (fControlling ? "controller" : "viewer") << "), refCount segment size: " << fRcSegmentSize;
     }
@@ -305,6 +324,20 @@ struct UnmanagedRegion
         (eventCounter->fCount)++;
     }
 
+    static void Unregister(const std::string& shmId, uint16_t id)
+    {
+        using namespace boost::interprocess;
+        try {
+            managed_shared_memory mngSegment(open_only, MakeShmName(shmId, "mng").c_str());
+            Uint16RegionInfoHashMap* shmRegions = mngSegment.find<Uint16RegionInfoHashMap>(unique_instance).first;
+            if (shmRegions) {
+                shmRegions->erase(id);
+            }
+        } catch (interprocess_exception& e) {
+            LOG(error) << "Could not unregister region with id " << id << ": " << e.what();
+        }
+    }
+
     void SetCallbacks(RegionCallback callback, RegionBulkCallback bulkCallback)
     {
         fCallback = std::move(callback);
-- 
2.43.0


From 74e64fddf983fccfa11241c2b676129dba9dfd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:17 +0000
Subject: [PATCH 36/59] fix: last user leaving a session removes the shared
 memory of those joining meanwhile

---
 fairmq/shmem/Common.h  |  2 ++
 fairmq/shmem/Manager.h | 70 +++++++++++++++++++++++++-----------------
 2 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index 25ef75b..bfa6462 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -235,6 +235,8 @@ using Uint16SegmentInfoHashMap = boost::unordered_map<uint16_t, SegmentInfo, boo
 
 struct DeviceCounter
 {
+    static constexpr unsigned int kSessionRemoved = std::numeric_limits<unsigned int>::max();
+
     DeviceCounter(unsigned int c)
         : fCount(c)
     {}
diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 139a088..4ad07a1 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -60,11 +60,11 @@ class Manager
         : fShmId64(config ? config->GetProperty<uint64_t>("shmid", makeShmIdUint64(sessionName)) : makeShmIdUint64(sessionName))
         , fShmId(makeShmIdStr(fShmId64))
         , fSegmentId(config ? config->GetProperty<uint16_t>("shm-segment-id", 0) : 0)
-        , fManagementSegment(boost::interprocess::open_or_create, MakeShmName(fShmId, "mng").c_str(), kManagementSegmentSize)
+        , fManagementSegment(JoinSession(fShmId))
         , fShmVoidAlloc(fManagementSegment.get_segment_manager())
         , fShmMtx(fManagementSegment.find_or_construct<boost::interprocess::interprocess_mutex>(boost::interprocess::unique_instance)())
         , fNumObservedEvents(0)
-        , fDeviceCounter(nullptr)
+        , fDeviceCounter(fManagementSegment.find<DeviceCounter>(boost::interprocess::unique_instance).first)
         , fEventCounter(nullptr)
         , fShmSegments(nullptr)
         , fShmRegions(nullptr)
@@ -78,15 +78,25 @@ class Manager
         , fRegionEventsSubscriptionActive(false)
         , fInterrupted(false)
         , fBadAllocMaxAttempts(1)
-        , fBadAllocAttemptIntervalInMs(config ? config->GetProperty<int>("bad-alloc-attempt-interval", 50) : 50)
-        , fNoCleanup(config ? config->GetProperty<bool>("shm-no-cleanup", false) : false)
-        , fMetadataMsgSize(config ? config->GetProperty<std::size_t>("shm-metadata-msg-size", 0) : 0)
+        , fBadAllocAttemptIntervalInMs(50)
+        , fNoCleanup(false)
+        , fMetadataMsgSize(0)
     {
         using namespace boost::interprocess;
 
+        // the session has been joined, it has to be left again if anything fails from here on
+        tools::CallOnDestruction leaveSession([this]() {
+            StopHeartbeats();
+            CleanupIfLast();
+        });
+
         LOG(debug) << "Generated shmid '" << fShmId << "' out of session id '" << sessionName << "'.";
 
         if (config) {
+            fBadAllocAttemptIntervalInMs = config->GetProperty<int>("bad-alloc-attempt-interval", fBadAllocAttemptIntervalInMs);
+            fNoCleanup = config->GetProperty<bool>("shm-no-cleanup", fNoCleanup);
+            fMetadataMsgSize = config->GetProperty<std::size_t>("shm-metadata-msg-size", fMetadataMsgSize);
+
             // if 'shm-throw-bad-alloc' is explicitly set to false (true is default), ignore other settings
             if (config->Count("shm-throw-bad-alloc") && config->GetProperty<bool>("shm-throw-bad-alloc") == false) {
                 fBadAllocMaxAttempts = -1;
@@ -122,7 +132,7 @@ class Manager
 
         fHeartbeatThread = std::thread(&Manager::Heartbeats, this);
 
-        try {
+        {
             boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
 
             SessionInfo* sessionInfo = fManagementSegment.find<SessionInfo>(unique_instance).first;
@@ -143,17 +153,6 @@ class Manager
                 LOG(trace) << "initialized event counter with: " << fEventCounter->fCount;
             }
 
-            fDeviceCounter = fManagementSegment.find<DeviceCounter>(unique_instance).first;
-            if (fDeviceCounter) {
-                LOG(trace) << "device counter found, with value of " << fDeviceCounter->fCount << ". incrementing.";
-                (fDeviceCounter->fCount)++;
-                LOG(trace) << "incremented device counter, now: " << fDeviceCounter->fCount;
-            } else {
-                LOG(trace) << "no device counter found, creating one and initializing with 1";
-                fDeviceCounter = fManagementSegment.construct<DeviceCounter>(unique_instance)(1);
-                LOG(trace) << "initialized device counter with: " << fDeviceCounter->fCount;
-            }
-
             fShmSegments = fManagementSegment.find_or_construct<Uint16SegmentInfoHashMap>(unique_instance)(fShmVoidAlloc);
             fShmRegions = fManagementSegment.find_or_construct<Uint16RegionInfoHashMap>(unique_instance)(fShmVoidAlloc);
 
@@ -223,11 +222,9 @@ class Manager
             fMsgDebug = fManagementSegment.find_or_construct<Uint16MsgDebugMapHashMap>(unique_instance)(fShmVoidAlloc);
             fShmMsgCounters = fManagementSegment.find_or_construct<Uint16MsgCounterHashMap>(unique_instance)(fShmVoidAlloc);
 #endif
-        } catch (...) {
-            StopHeartbeats();
-            CleanupIfLast();
-            throw;
         }
+
+        leaveSession.disable();
     }
 
     Manager() = delete;
@@ -258,6 +255,24 @@ class Manager
   private:
     static bool SpawnShmMonitor(const std::string& id);
 
+    // open or create the management segment and register as user of the session, which keeps it until CleanupIfLast()
+    static boost::interprocess::managed_shared_memory JoinSession(const std::string& id)
+    {
+        using namespace boost::interprocess;
+        while (true) {
+            managed_shared_memory segment(open_or_create, MakeShmName(id, "mng").c_str(), kManagementSegmentSize);
+            auto mtx = segment.find_or_construct<interprocess_mutex>(unique_instance)();
+            scoped_lock<interprocess_mutex> lock(*mtx);
+            auto deviceCounter = segment.find_or_construct<DeviceCounter>(unique_instance)(0);
+            if (deviceCounter->fCount != DeviceCounter::kSessionRemoved) {
+                (deviceCounter->fCount)++;
+                LOG(trace) << "incremented device counter, now: " << deviceCounter->fCount;
+                return segment;
+            }
+            // this segment has been removed by the last user of the session in the meantime
+        }
+    }
+
   public:
     static void StartMonitor(const std::string& id)
     {
@@ -810,7 +825,6 @@ class Manager
     {
         using namespace boost::interprocess;
 
-        bool lastRemoved = false;
         try {
             boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
 
@@ -818,19 +832,17 @@ class Manager
 
             if (fDeviceCounter->fCount == 0) {
                 LOG(debug) << "Last segment user, " << (fNoCleanup ? "skipping removal (--shm-no-cleanup is true)." : "removing segment.");
-                lastRemoved = true;
+                if (!fNoCleanup) {
+                    // those who have opened the management segment, but wait for the lock to join, have to start over
+                    fDeviceCounter->fCount = DeviceCounter::kSessionRemoved;
+                    Monitor::Cleanup(ShmId{fShmId});
+                }
             } else {
                 LOG(debug) << "Other segment users present (" << fDeviceCounter->fCount << "), skipping removal.";
             }
         } catch (interprocess_exception& e) {
             LOG(error) << "Manager could not acquire lock: " << e.what();
         }
-
-        if (lastRemoved) {
-            if (!fNoCleanup) {
-                Monitor::Cleanup(ShmId{fShmId});
-            }
-        }
     }
 
     auto GetMetadataMsgSize() const noexcept { return fMetadataMsgSize; }
-- 
2.43.0


From fd620e196ebd059c881f2d5a380e1ddff7960b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 37/59] fix: waiting for a state of a device blocks forever
 when one of its hooks throws

---
 fairmq/Device.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.h b/fairmq/Device.h
index de99a41..a2db786 100644
--- a/fairmq/Device.h
+++ b/fairmq/Device.h
@@ -421,7 +421,16 @@ class Device
     void SetRawCmdLineArgs(const std::vector<std::string>& args) { fRawCmdLineArgs = args; }
     std::vector<std::string> GetRawCmdLineArgs() const { return fRawCmdLineArgs; }
 
-    void RunStateMachine() { fStateMachine.ProcessWork(); };
+    void RunStateMachine()
+    {
+        try {
+            fStateMachine.ProcessWork();
+        } catch (...) {
+            // the state handler does not see the error state if it was entered through an exception
+            fStateQueue.Push(State::Error);
+            throw;
+        }
+    };
 
     /// Wait for the supplied amount of time or for interruption.
     /// If interrupted, returns false, otherwise true.
-- 
2.43.0


From 4946316d440b8effc31b74efef63f4e3aebb602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 38/59] fix: validation looks only at the first endpoint of an
 address list

---
 fairmq/Channel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Channel.cxx b/fairmq/Channel.cxx
index 4806e6e..e01a197 100644
--- a/fairmq/Channel.cxx
+++ b/fairmq/Channel.cxx
@@ -205,7 +205,7 @@ try {
         return false;
     } else {
         vector<string> endpoints;
-        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(";"));
+        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(","));
         for (const auto& endpoint : endpoints) {
             string address;
             if (endpoint[0] == '@' || endpoint[0] == '+' || endpoint[0] == '>') {
-- 
2.43.0


From d4a8382e6b8751f01aea1125025e223add60a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 39/59] fix: AddChannel does not store the timeouts of the
 channel

---
 fairmq/ProgOptions.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index ba13a8c..a420d68 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -369,6 +369,8 @@ void ProgOptions::AddChannel(const string& name, const Channel& channel)
     SetVarMapValue<int>(string(prefix + "rcvBufSize"), channel.GetRcvBufSize());
     SetVarMapValue<int>(string(prefix + "sndKernelSize"), channel.GetSndKernelSize());
     SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());
+    SetVarMapValue<int>(string(prefix + "sndTimeoutMs"), channel.GetSndTimeout());
+    SetVarMapValue<int>(string(prefix + "rcvTimeoutMs"), channel.GetRcvTimeout());
     SetVarMapValue<int>(string(prefix + "linger"), channel.GetLinger());
     SetVarMapValue<int>(string(prefix + "rateLogging"), channel.GetRateLogging());
     SetVarMapValue<int>(string(prefix + "portRangeMin"), channel.GetPortRangeMin());
-- 
2.43.0


From 52f33ba2b4c8b4243d2478888a06710dac9573be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 40/59] fix: channel option with name or address, but without a
 value, crashes

---
 fairmq/SuboptParser.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/SuboptParser.cxx b/fairmq/SuboptParser.cxx
index 1d48563..8d8d536 100644
--- a/fairmq/SuboptParser.cxx
+++ b/fairmq/SuboptParser.cxx
@@ -99,10 +99,10 @@ Properties SuboptParser(const vector<string>& channelConfig, const string& devic
         while (subopts && *subopts != 0 && *subopts != ' ') {
             char* cur = subopts;
             int subopt = getsubopt(&subopts, (char**)channelOptionKeys, &value);
-            if (subopt == NAME) {
+            if (subopt == NAME && value != nullptr) {
                 channelName = value;
                 channelProperties.put("name", channelName);
-            } else if (subopt == ADDRESS) {
+            } else if (subopt == ADDRESS && value != nullptr) {
                 ptree socketProperties;
                 socketProperties.put(channelOptionKeys[subopt], value);
                 socketsArray.push_back(make_pair("", socketProperties));
-- 
2.43.0


From cc29064810c86768b749ff8ef15d5997636dd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 41/59] fix: interactive control: read console input unbuffered
 and handle its end

Characters typed ahead stayed in the buffer of cin where poll() does not
see them, so they were not executed until another key was pressed. A
whitespace character alone blocked the controller (and with it the
shutdown on a signal) in the read. At the end of input the last command
was repeated forever.
---
 fairmq/plugins/control/Control.cxx | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 7788253..e3be8d4 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -11,6 +11,7 @@
 #include <fairmq/tools/IO.h>
 
 #include <atomic>
+#include <cerrno>
 #include <chrono>
 #include <csignal> // catching system signals
 #include <cstdlib>
@@ -19,6 +20,7 @@
 #include <thread>
 
 #include <poll.h> // for the interactive mode
+#include <unistd.h> // read
 
 using namespace std;
 
@@ -172,14 +174,26 @@ auto Control::RunREPL() -> void
     bool keepRunning = true;
 
     while (keepRunning) {
-        if (poll(cinfd, 1, 100)) {
+        if (poll(cinfd, 1, 100) > 0) {
             if (fDeviceShutdownRequested) {
                 break;
             }
 
-            cin >> input;
+            // read unbuffered, poll() does not see characters that are buffered by the process
+            const auto n = ::read(cinfd[0].fd, &input, 1);
 
-            switch (input) {
+            if (n == 0 || (n < 0 && errno != EINTR && errno != EAGAIN)) {
+                LOG(debug) << "No more console input";
+                cinfd[0].fd = -1; // ignored by poll(), which then only waits
+            }
+
+            switch (n == 1 ? input : '\n') {
+                case ' ':
+                case '\t':
+                case '\r':
+                case '\n':
+                    // nothing to do
+                break;
                 case 'c':
                     cout << "\n --> [i] check current state\n\n" << flush;
                     LOG(state) << GetCurrentDeviceState();
-- 
2.43.0


From 9c518c46fb89dda95ede6f7ec0074006920047da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 42/59] fix: wake everyone waiting for the release of device
 control

---
 fairmq/PluginServices.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginServices.cxx b/fairmq/PluginServices.cxx
index 44368c7..aa83e81 100644
--- a/fairmq/PluginServices.cxx
+++ b/fairmq/PluginServices.cxx
@@ -69,7 +69,7 @@ auto PluginServices::ReleaseDeviceControl(const string& controller) -> void
         }
     }
 
-    fReleaseDeviceControlCondition.notify_one();
+    fReleaseDeviceControlCondition.notify_all();
 }
 
 auto PluginServices::GetDeviceController() const -> boost::optional<string>
-- 
2.43.0


From 71278d809e6cab9327172badc58fb6997b8a8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 43/59] fix: do not lose a state change at the beginning of the
 shutdown sequence

A state entered between reading the current state and clearing the queue
was dropped, and the controller waited forever for the next one.
---
 fairmq/plugins/control/Control.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index e3be8d4..36849c3 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -484,10 +484,9 @@ auto Control::SignalHandler() -> void
 
 auto Control::RunShutdownSequence() -> void
 {
+    // clear first: a state entered between reading the current state and clearing would get lost
+    fStateQueue.Clear();
     auto nextState = GetCurrentDeviceState();
-    if (nextState != DeviceState::Error) {
-        fStateQueue.Clear();
-    }
     while (nextState != DeviceState::Exiting && nextState != DeviceState::Error) {
         switch (nextState) {
             case DeviceState::Idle:
-- 
2.43.0


From e32c218aa1990c9f5b84e60bc50c9423879f309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 44/59] fix: do not dereference plugins which are not
 instantiated in ForEachPlugin

---
 fairmq/PluginManager.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fairmq/PluginManager.h b/fairmq/PluginManager.h
index 6ce4882..5cfd505 100644
--- a/fairmq/PluginManager.h
+++ b/fairmq/PluginManager.h
@@ -86,7 +86,16 @@ class PluginManager
 
     static auto LibPrefix() -> const std::string& { return fgkLibPrefix; }
 
-    auto ForEachPlugin(std::function<void (Plugin&)> func) -> void { for(const auto& p : fPluginOrder) { func(*fPlugins[p]); } }
+    auto ForEachPlugin(std::function<void (Plugin&)> func) -> void
+    {
+        for (const auto& p : fPluginOrder) {
+            // plugins which are loaded, but not instantiated (yet), are skipped
+            auto it = fPlugins.find(p);
+            if (it != fPlugins.end()) {
+                func(*(it->second));
+            }
+        }
+    }
     auto ForEachPluginProgOptions(std::function<void (boost::program_options::options_description)> func) const -> void { for(const auto& pair : fPluginProgOptions) { func(pair.second); } }
 
     template<typename... Args>
-- 
2.43.0


From 4b69f7e6c080767d02b72b0260142d3c36819606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 45/59] fix: a plugin which failed to load is considered loaded

---
 fairmq/PluginManager.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/PluginManager.h b/fairmq/PluginManager.h
index 5cfd505..676c8c8 100644
--- a/fairmq/PluginManager.h
+++ b/fairmq/PluginManager.h
@@ -133,7 +133,7 @@ class PluginManager
 #endif
         fgDLLKeepAlive.push_back(lib);
 
-        fPluginFactories[pluginName] = import_alias<PluginFactory>(
+        std::function<PluginFactory> factory = import_alias<PluginFactory>(
             shared_library{lib},
             ToString("make_", pluginName, "_plugin")
         );
@@ -146,6 +146,9 @@ class PluginManager
             });
         }
         catch (const boost::bad_optional_access& e) { /* just ignore, if no prog options are declared */ }
+
+        // register only after all symbols were found, otherwise a plugin which failed to load counts as loaded
+        fPluginFactories[pluginName] = std::move(factory);
     }
 
     auto InstantiatePlugin(const std::string& pluginName) -> void;
-- 
2.43.0


From 166879892cfcc581754ec1205c3268c0570f5761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:53 +0000
Subject: [PATCH 46/59] fix: loading a builtin plugin twice lists it twice

---
 fairmq/PluginManager.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/PluginManager.cxx b/fairmq/PluginManager.cxx
index 8a528f0..21ee8ce 100644
--- a/fairmq/PluginManager.cxx
+++ b/fairmq/PluginManager.cxx
@@ -234,8 +234,9 @@ auto fair::mq::PluginManager::LoadPluginDynamic(const string& pluginName) -> voi
 
 auto fair::mq::PluginManager::LoadPluginStatic(const string& pluginName) -> void
 {
-    // Load symbol
-    if (fPluginFactories.find(pluginName) == fPluginFactories.end()) {
+    // builtin plugins have no entry in fPluginFactories
+    if (find(fPluginOrder.begin(), fPluginOrder.end(), pluginName) == fPluginOrder.end()) {
+        // Load symbol
         try {
             if ("control" == pluginName) {
                 try {
-- 
2.43.0


From 7f016e59b30677024eecf0d822be610559ed1004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:41 +0000
Subject: [PATCH 47/59] fix: poller reads uninitialized items if a channel is
 listed twice

---
 fairmq/shmem/Poller.h  | 8 +++++---
 fairmq/zeromq/Poller.h | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/fairmq/shmem/Poller.h b/fairmq/shmem/Poller.h
index d37b864..47f1f7b 100644
--- a/fairmq/shmem/Poller.h
+++ b/fairmq/shmem/Poller.h
@@ -72,9 +72,11 @@ class Poller final : public fair::mq::Poller
             int offset = 0;
             // calculate offsets and the total size of the poll item set
             for (std::string channel : channelList) {
-                fOffsetMap[channel] = offset;
-                offset += channelsMap.at(channel).size();
-                fNumItems += channelsMap.at(channel).size();
+                // a channel which is listed repeatedly is polled once
+                if (fOffsetMap.emplace(channel, offset).second) {
+                    offset += channelsMap.at(channel).size();
+                    fNumItems += channelsMap.at(channel).size();
+                }
             }
 
             fItems = new zmq_pollitem_t[fNumItems];
diff --git a/fairmq/zeromq/Poller.h b/fairmq/zeromq/Poller.h
index bd708e9..b7d4039 100644
--- a/fairmq/zeromq/Poller.h
+++ b/fairmq/zeromq/Poller.h
@@ -78,9 +78,11 @@ class Poller final : public fair::mq::Poller
             int offset = 0;
             // calculate offsets and the total size of the poll item set
             for (std::string const & channel : channelList) {
-                fOffsetMap[channel] = offset;
-                offset += channelsMap.at(channel).size();
-                fNumItems += channelsMap.at(channel).size();
+                // a channel which is listed repeatedly is polled once
+                if (fOffsetMap.emplace(channel, offset).second) {
+                    offset += channelsMap.at(channel).size();
+                    fNumItems += channelsMap.at(channel).size();
+                }
             }
 
             fItems = new zmq_pollitem_t[fNumItems];
-- 
2.43.0


From d20d97113e846932a3a675306993de963372de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 48/59] fix: poll takes longer than its timeout if it is
 interrupted by signals

---
 fairmq/shmem/Poller.h  | 11 ++++++++++-
 fairmq/zeromq/Poller.h | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Poller.h b/fairmq/shmem/Poller.h
index 47f1f7b..5c61907 100644
--- a/fairmq/shmem/Poller.h
+++ b/fairmq/shmem/Poller.h
@@ -9,6 +9,8 @@
 #ifndef FAIR_MQ_SHMEM_POLLER_H_
 #define FAIR_MQ_SHMEM_POLLER_H_
 
+#include <algorithm>
+#include <chrono>
 #include <fairlogger/Logger.h>
 #include <fairmq/Channel.h>
 #include <fairmq/Poller.h>
@@ -124,13 +126,20 @@ class Poller final : public fair::mq::Poller
 
     void Poll(int timeout) override
     {
+        auto const start = std::chrono::steady_clock::now();
+        long remaining = timeout;
+
         while (true) {
-            if (zmq_poll(fItems, fNumItems, timeout) < 0) {
+            if (zmq_poll(fItems, fNumItems, remaining) < 0) {
                 if (errno == ETERM) {
                     LOG(debug) << "polling exited, reason: " << zmq_strerror(errno);
                     return;
                 } else if (errno == EINTR) {
                     LOG(debug) << "polling interrupted by system call";
+                    if (timeout > 0) {
+                        auto const elapsed = std::chrono::steady_clock::now() - start;
+                        remaining = std::max<long>(0, timeout - std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count());
+                    }
                     continue;
                 } else {
                     LOG(error) << "polling failed, reason: " << zmq_strerror(errno);
diff --git a/fairmq/zeromq/Poller.h b/fairmq/zeromq/Poller.h
index b7d4039..35db6af 100644
--- a/fairmq/zeromq/Poller.h
+++ b/fairmq/zeromq/Poller.h
@@ -9,6 +9,8 @@
 #ifndef FAIR_MQ_ZMQ_POLLER_H
 #define FAIR_MQ_ZMQ_POLLER_H
 
+#include <algorithm>
+#include <chrono>
 #include <fairlogger/Logger.h>
 #include <fairmq/Channel.h>
 #include <fairmq/Poller.h>
@@ -126,13 +128,20 @@ class Poller final : public fair::mq::Poller
 
     void Poll(int timeout) override
     {
+        auto const start = std::chrono::steady_clock::now();
+        long remaining = timeout;
+
         while (true) {
-            if (zmq_poll(fItems, fNumItems, timeout) < 0) {
+            if (zmq_poll(fItems, fNumItems, remaining) < 0) {
                 if (errno == ETERM) {
                     LOG(debug) << "polling exited, reason: " << zmq_strerror(errno);
                     return;
                 } else if (errno == EINTR) {
                     LOG(debug) << "polling interrupted by system call";
+                    if (timeout > 0) {
+                        auto const elapsed = std::chrono::steady_clock::now() - start;
+                        remaining = std::max<long>(0, timeout - std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count());
+                    }
                     continue;
                 } else {
                     LOG(error) << "polling failed, reason: " << zmq_strerror(errno);
-- 
2.43.0


From 27d31ed997fb2c330885e0bed62dc93ac460dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:03 +0000
Subject: [PATCH 49/59] fix: replacing a socket by one with the same name fails
 to monitor its connections

---
 fairmq/zeromq/Common.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 835bb2e..0df9d11 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -8,6 +8,7 @@
 #ifndef FAIR_MQ_ZMQ_COMMON_H
 #define FAIR_MQ_ZMQ_COMMON_H
 
+#include <atomic>
 #include <cerrno>
 #include <chrono>
 #include <fairlogger/Logger.h>
@@ -158,7 +159,10 @@ inline auto makeMonitorSocket(void* zmqCtx, void* socketToMonitor, std::string_v
         return nullptr;
     }
 
-    auto const address(tools::ToString("inproc://", id));
+    // The address has to be unique: a socket may be replaced by one with the same id, while the
+    // monitor of the former still exists (sockets are closed asynchronously).
+    static std::atomic<unsigned long long> count(0);
+    auto const address(tools::ToString("inproc://", id, "/monitor/", ++count));
     {   // Create writing monitor socket on socket to be monitored and subscribe
         // to all relevant events needed to compute connected peers
         // from http://api.zeromq.org/master:zmq-socket-monitor:
-- 
2.43.0


From 3d3e2ac3e31a871831a969289cf8da29c11c3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:35 +0000
Subject: [PATCH 50/59] fix: closing a socket may block the I/O thread of its
 transport forever

---
 fairmq/shmem/Socket.h  | 5 +++++
 fairmq/zeromq/Socket.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 9f405c5..8a510dd 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -319,6 +319,11 @@ class Socket final : public fair::mq::Socket
     {
         // LOG(debug) << "Closing socket " << fId;
 
+        // stop monitoring before its reading end is closed, otherwise the next connection event blocks the I/O thread
+        if (fMonitorSocket) {
+            zmq_socket_monitor(fSocket, nullptr, 0);
+        }
+
         if (fSocket && zmq_close(fSocket) != 0) {
             LOG(error) << "Failed closing data socket " << fId
                        << ", reason: " << zmq_strerror(errno);
diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 1794c2d..e6b5972 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -267,6 +267,11 @@ class Socket final : public fair::mq::Socket
     {
         // LOG(debug) << "Closing socket " << fId;
 
+        // stop monitoring before its reading end is closed, otherwise the next connection event blocks the I/O thread
+        if (fMonitorSocket) {
+            zmq_socket_monitor(fSocket, nullptr, 0);
+        }
+
         if (fSocket && zmq_close(fSocket) != 0) {
             LOG(error) << "Failed closing data socket " << fId
                        << ", reason: " << zmq_strerror(errno);
-- 
2.43.0


From c349a858d42a01b6317fc7225b86935ae90d2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:50 +0000
Subject: [PATCH 51/59] fix: count iterations of BenchmarkSampler and Sink
 exactly and per run

Both stopped one message after the configured --max-iterations, and neither
reset its counters between runs, so a second run ended after one message.
---
 fairmq/devices/BenchmarkSampler.h | 6 ++++--
 fairmq/devices/Sink.h             | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/fairmq/devices/BenchmarkSampler.h b/fairmq/devices/BenchmarkSampler.h
index da00ebb..4d5479e 100644
--- a/fairmq/devices/BenchmarkSampler.h
+++ b/fairmq/devices/BenchmarkSampler.h
@@ -43,6 +43,8 @@ class BenchmarkSampler : public Device
 
     void Run() override
     {
+        fNumIterations = 0;
+
         // store the channel reference to avoid traversing the map on every loop iteration
         Channel& dataOutChannel = GetChannel(fOutChannelName, 0);
 
@@ -63,12 +65,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(parts) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             } else {
                 MessagePtr msg(dataOutChannel.NewMessage(fMsgSize, fair::mq::Alignment{fMsgAlignment}));
@@ -77,12 +79,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(msg) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             }
 
diff --git a/fairmq/devices/Sink.h b/fairmq/devices/Sink.h
index c10ce55..adcfa3c 100644
--- a/fairmq/devices/Sink.h
+++ b/fairmq/devices/Sink.h
@@ -40,12 +40,13 @@ class Sink : public Device
         fMaxFileSize   = fConfig->GetProperty<uint64_t>("max-file-size");
         fInChannelName = fConfig->GetProperty<std::string>("in-channel");
         fOutFilename   = fConfig->GetProperty<std::string>("out-filename");
-
-        fBytesWritten = 0;
     }
 
     void Run() override
     {
+        fNumIterations = 0;
+        fBytesWritten = 0;
+
         // store the channel reference to avoid traversing the map on every loop iteration
         Channel& dataInChannel = GetChannel(fInChannelName, 0);
 
@@ -88,6 +89,8 @@ class Sink : public Device
                 }
             }
 
+            fNumIterations++;
+
             if (fMaxFileSize > 0 && fBytesWritten >= fMaxFileSize) {
                 LOG(info) << "Written " << fBytesWritten << " bytes, stopping...";
                 break;
@@ -98,7 +101,6 @@ class Sink : public Device
                     break;
                 }
             }
-            fNumIterations++;
         }
 
         if (fOutputFile.is_open()) {
-- 
2.43.0


From 68f10d87008d6976993908805c9ffcda26527b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:50 +0000
Subject: [PATCH 52/59] fix: Multiplier: copy messages within their own
 transport

The copies were created by the default transport of the device, although the
payload belongs to the transport of the input channel: copying between the two
is undefined.
---
 fairmq/devices/Multiplier.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/devices/Multiplier.h b/fairmq/devices/Multiplier.h
index 49eb582..1dcbdb3 100644
--- a/fairmq/devices/Multiplier.h
+++ b/fairmq/devices/Multiplier.h
@@ -44,7 +44,7 @@ class Multiplier : public Device
     {
         for (unsigned int i = 0; i < fOutChannelNames.size() - 1; ++i) { // all except last channel
             for (unsigned int j = 0; j < GetNumSubChannels(fOutChannelNames.at(i)); ++j) { // all subChannels in a channel
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
                 msgCopy->Copy(*payload);
 
                 Send(msgCopy, fOutChannelNames.at(i), j);
@@ -54,7 +54,7 @@ class Multiplier : public Device
         unsigned int lastChannelSize = GetNumSubChannels(fOutChannelNames.back());
 
         for (unsigned int i = 0; i < lastChannelSize - 1; ++i) { // iterate over all except last subChannels of the last channel
-            MessagePtr msgCopy(fTransportFactory->CreateMessage());
+            MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
             msgCopy->Copy(*payload);
 
             Send(msgCopy, fOutChannelNames.back(), i);
@@ -72,7 +72,7 @@ class Multiplier : public Device
                 Parts parts;
 
                 for (unsigned int k = 0; k < payload.Size(); ++k) {
-                    MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                    MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage());
                     msgCopy->Copy(*(payload.At(k)));
                     parts.AddPart(std::move(msgCopy));
                 }
@@ -87,7 +87,7 @@ class Multiplier : public Device
             Parts parts;
 
             for (unsigned int k = 0; k < payload.Size(); ++k) {
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage());
                 msgCopy->Copy(*(payload.At(k)));
                 parts.AddPart(std::move(msgCopy));
             }
-- 
2.43.0


From 5ffdc56dd4b2ec1f0747351ae8c2ed254da5229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:17 +0000
Subject: [PATCH 53/59] fix: Monitor: do not clean up a live session on a
 racing heartbeat update

---
 fairmq/shmem/Monitor.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index b329c54..efac558 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -137,10 +137,12 @@ void Monitor::Watch()
 
             fSeenOnce = true;
 
-            auto now = chrono::high_resolution_clock::now();
-            unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
+            // the last heartbeat has to be read before the clock, the other thread may store a newer one at any time
+            bool heartbeatTriggered = fHeartbeatTriggered;
+            auto lastHeartbeat = fLastHeartbeat.load();
+            auto duration = chrono::high_resolution_clock::now() - lastHeartbeat;
 
-            if (fHeartbeatTriggered && duration > fTimeoutInMS) {
+            if (heartbeatTriggered && duration > chrono::milliseconds(fTimeoutInMS)) {
                 // memory is present, but no heartbeats since timeout duration
                 LOG(info) << "no heartbeats since over " << fTimeoutInMS << " milliseconds, cleaning...";
                 Cleanup(ShmId{fShmId});
@@ -160,10 +162,10 @@ void Monitor::Watch()
                     fTerminating = true;
                 } else {
                     // if self-destruct is requested, and no segment has ever been observed, quit after double timeout duration
-                    auto now = chrono::high_resolution_clock::now();
-                    unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
+                    auto lastHeartbeat = fLastHeartbeat.load();
+                    auto duration = chrono::high_resolution_clock::now() - lastHeartbeat;
 
-                    if (duration > fTimeoutInMS * 2) {
+                    if (duration > chrono::milliseconds(fTimeoutInMS) * 2) {
                         Cleanup(ShmId{fShmId});
                         LOG(info) << "self destructing (no segments observed within (timeout * 2) since start)";
                         fTerminating = true;
@@ -341,8 +343,9 @@ void Monitor::CheckHeartbeats()
             if (hb) {
                 uint64_t globalHb = hb->fCount;
                 if (localHb != globalHb) {
-                    fHeartbeatTriggered = true;
+                    // in this order, Watch() must not see the flag together with an outdated time
                     fLastHeartbeat.store(chrono::high_resolution_clock::now());
+                    fHeartbeatTriggered = true;
                     localHb = globalHb;
                 }
             }
-- 
2.43.0


From e828836927a3ce8ee94aa70dd54335ab7bcb0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:25 +0000
Subject: [PATCH 54/59] fix: debug mode: record and report the messages of a
 segment correctly

---
 fairmq/shmem/Manager.h   | 2 +-
 fairmq/shmem/Monitor.cxx | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 4ad07a1..e2649bb 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -805,7 +805,7 @@ class Manager
         boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
         DecrementShmMsgCounter(segmentId);
         try {
-            fMsgDebug->at(segmentId).erase(GetHandleFromAddress(ShmHeader::UserPtr(ptr), fSegmentId));
+            fMsgDebug->at(segmentId).erase(GetHandleFromAddress(ShmHeader::UserPtr(ptr), segmentId));
         } catch (const std::out_of_range& oor) {
             LOG(debug) << "could not locate debug container for " << segmentId << ": " << oor.what();
         }
diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index efac558..bfd4123 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -480,14 +480,12 @@ unordered_map<uint16_t, std::vector<BufferDebugInfo>> Monitor::GetDebugInfo(cons
 
         Uint16MsgDebugMapHashMap* debug = managementSegment.find<Uint16MsgDebugMapHashMap>(bipc::unique_instance).first;
 
-        result.reserve(debug->size());
-
-
         if (debug) {
+            result.reserve(debug->size());
             for (const auto& s : *debug) {
                 result[s.first].reserve(s.second.size());
                 for (const auto& e : s.second) {
-                    result[s.first][e.first] = BufferDebugInfo(e.first, e.second.fPid, e.second.fSize, e.second.fCreationTime);
+                    result[s.first].emplace_back(e.first, e.second.fPid, e.second.fSize, e.second.fCreationTime);
                 }
             }
         } else {
-- 
2.43.0


From 71ae81f42a2b841c23e56c1a5023125f9799793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:09 +0000
Subject: [PATCH 55/59] fix: do not share cached regions between transports of
 a session

---
 fairmq/shmem/Manager.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index e2649bb..528f113 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -401,7 +401,7 @@ class Manager
 
         // fast path
         for (const auto &lRegion : lTlCacheVec) {
-            if ((std::get<1>(lRegion) == id) && (lTlCacheGen == fRegionsGen) && (std::get<2>(lRegion) == fShmId64)) {
+            if ((std::get<1>(lRegion) == id) && (lTlCacheGen == fRegionsGen) && (std::get<2>(lRegion) == this)) {
                 return std::get<0>(lRegion);
             }
         }
@@ -414,7 +414,7 @@ class Manager
         }
 
         auto* lRegion = GetRegion(id);
-        fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, fShmId64));
+        fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, this));
         fTlRegionCache.fRegionsTLCacheGen = gen;
         return lRegion;
     }
@@ -896,7 +896,7 @@ class Manager
     inline static std::atomic<unsigned long> fRegionsGen = 0ul;
     inline static thread_local struct ManagerTLCache {
         unsigned long fRegionsTLCacheGen;
-        std::vector<std::tuple<UnmanagedRegion*, uint16_t, uint64_t>> fRegionsTLCache;
+        std::vector<std::tuple<UnmanagedRegion*, uint16_t, const Manager*>> fRegionsTLCache; // a region object belongs to its Manager
     } fTlRegionCache;
 
 #ifdef FAIRMQ_DEBUG_MODE
-- 
2.43.0


From 91497273530565e0db42eb93a6d61668813697b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:37 +0000
Subject: [PATCH 56/59] fix: keep the reference counts of a region's messages
 when the region is destroyed before them

---
 fairmq/shmem/UnmanagedRegion.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 2cf167e..9c7c463 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -360,6 +360,10 @@ struct UnmanagedRegion
             fRefCountSegment = std::make_unique<managed_shared_memory>(open_or_create, fRefCountSegmentName.c_str(), size);
             LOG(trace) << "shmem: initialized ref count segment: " << fRefCountSegmentName;
             fRefCountPool = std::make_unique<RefCountPool>(fRefCountSegment->get_segment_manager());
+            if (fControlling) {
+                // keep the pool as long as the segment, shared messages may outlive the region
+                fRefCountSegment->find_or_construct<RefCountPool>(unique_instance)(fRefCountSegment->get_segment_manager());
+            }
         }
     }
 
-- 
2.43.0


From 5dbc9b36957526dd1fc78088e272def9e97ca0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:24 +0000
Subject: [PATCH 57/59] fix: return and count the real size of multi-part
 messages above 2 GiB

---
 fairmq/zeromq/Socket.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index e6b5972..1ed59ed 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -172,12 +172,14 @@ class Socket final : public fair::mq::Socket
                 bool repeat = false;
 
                 for (unsigned int i = 0; i < vecSize; ++i) {
+                    // zmq_msg_send/recv return at most INT_MAX
+                    int64_t actualBytes = zmq_msg_size(static_cast<Message*>(msgVec[i].get())->GetMessage());
                     int nbytes = -1;
                     do { // once the first part is queued, the remaining ones have to follow
                         nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
                     } while (nbytes < 0 && i > 0 && zmq_errno() == EINTR);
                     if (nbytes >= 0) {
-                        totalSize += nbytes;
+                        totalSize += actualBytes;
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
@@ -231,8 +233,8 @@ class Socket final : public fair::mq::Socket
                 } while (nbytes < 0 && more && zmq_errno() == EINTR);
                 if (nbytes >= 0) {
                     static_cast<Message*>(part.get())->Realign();
+                    totalSize += zmq_msg_size(static_cast<Message*>(part.get())->GetMessage());
                     msgVec.push_back(std::move(part));
-                    totalSize += nbytes;
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-- 
2.43.0


From 6797055990c5abc6a2fbd79d8e53673865e5620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 58/59] fix: log channel rates over the time since the
 channel's previous log, not the last second

---
 fairmq/Device.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 947a260..3f3dcee 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -679,7 +679,8 @@ void Device::LogSocketRates()
         ++i;
     }
 
-    chrono::time_point<chrono::high_resolution_clock> t0(chrono::high_resolution_clock::now());
+    // time of the last log, which depends on the interval of the channel
+    vector<chrono::time_point<chrono::high_resolution_clock>> t0(filteredChannels.size(), chrono::high_resolution_clock::now());
     chrono::time_point<chrono::high_resolution_clock> t1;
 
     while (!NewStatePending()) {
@@ -687,8 +688,6 @@ void Device::LogSocketRates()
 
         t1 = chrono::high_resolution_clock::now();
 
-        uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0).count();
-
         i = 0;
 
         for (const auto& channel : filteredChannels) {
@@ -697,6 +696,8 @@ void Device::LogSocketRates()
             if (intervalCounters.at(i) == logIntervals.at(i)) {
                 intervalCounters.at(i) = 0;
 
+                uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0.at(i)).count();
+
                 if (msSinceLastLog > 0) {
                     bytesInNew.at(i) = channel->GetBytesRx();
                     msgInNew.at(i) = channel->GetMessagesRx();
@@ -713,6 +714,8 @@ void Device::LogSocketRates()
                     bytesOut.at(i) = bytesOutNew.at(i);
                     msgOut.at(i) = msgOutNew.at(i);
 
+                    t0.at(i) = t1;
+
                     LOG(info) << setw(static_cast<int>(chanNameLen)) << filteredChannelNames.at(i) << ": "
                               << "in: " << msgPerSecIn.at(i) << " (" << mbPerSecIn.at(i) << " MB) "
                               << "out: " << msgPerSecOut.at(i) << " (" << mbPerSecOut.at(i) << " MB)";
@@ -721,8 +724,6 @@ void Device::LogSocketRates()
 
             ++i;
         }
-
-        t0 = t1;
     }
 }
 
-- 
2.43.0


From 510b40360e33550baa04a8d692bd394fcb592382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:42 +0000
Subject: [PATCH 59/59] fix: a state or transition subscription under a key in
 use could never be unsubscribed

---
 fairmq/StateMachine.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index b2e0196..3bb2461 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -322,7 +322,9 @@ void StateMachine::SubscribeToStateChange(const string& key, function<void(const
     int i = strtol(key.c_str(), nullptr, 10);
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fSubscriptionsMtx);
-    fsm->fStateChangeSignalsMap.insert({key, fsm->fStateChangeSignal.connect(i, callback)});
+    auto& connection = fsm->fStateChangeSignalsMap[key];
+    connection.disconnect(); // a subscription under the same key is replaced
+    connection = fsm->fStateChangeSignal.connect(i, callback);
 }
 
 void StateMachine::UnsubscribeFromStateChange(const string& key)
@@ -370,7 +372,9 @@ void StateMachine::SubscribeToNewTransition(const string& key, function<void(con
 {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fSubscriptionsMtx);
-    fsm->fNewTransitionSignalsMap.insert({key, fsm->fNewTransitionSignal.connect(callback)});
+    auto& connection = fsm->fNewTransitionSignalsMap[key];
+    connection.disconnect(); // a subscription under the same key is replaced
+    connection = fsm->fNewTransitionSignal.connect(callback);
 }
 
 void StateMachine::UnsubscribeFromNewTransition(const string& key)
-- 
2.43.0

