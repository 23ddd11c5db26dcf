From ea69d8b09af740787eff0c384de1764545624c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:56 +0000
Subject: [PATCH 01/26] fix: order the hand-over of indices in MpmcIndexQueue

popIfFull and popIfSizeIsAtLeast took the index from a cell that was loaded relaxed and may be older than
the write position that says the queue is full, so an index of an earlier cycle could be handed out twice.
An index that is returned was also not ordered with the access to its buffer element by the next owner.
---
 .../mpmc_lockfree_queue/mpmc_index_queue.inl  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
index 5c76800..4b4b385 100644
--- a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
+++ b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
@@ -89,8 +89,9 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
             Index newValue(index, writePosition.getCycle());
 
             // if publish fails, another thread has published before us
+            // release: whoever obtains the index has to see everything that was done with it before
             bool published = m_cells[writePosition.getIndex()].compare_exchange_weak(
-                oldValue, newValue, std::memory_order_relaxed, std::memory_order_relaxed);
+                oldValue, newValue, std::memory_order_release, std::memory_order_relaxed);
 
             if (published)
             {
@@ -111,7 +112,7 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
 
             Index newWritePosition(writePosition + 1U);
             m_writePosition.compare_exchange_strong(
-                writePosition, newWritePosition, std::memory_order_relaxed, std::memory_order_relaxed);
+                writePosition, newWritePosition, std::memory_order_release, std::memory_order_relaxed);
         }
         else
         {
@@ -130,8 +131,9 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
     // no one else except popIfFull requires this update:
     // In this case it is also ok: the push is only complete once this update of m_writePosition was executed,
     // and the queue (logically) cannot be full until this happens.
+    // release: a pop that relies on the write position (popIfFull, popIfSizeIsAtLeast) has to see the published value
     m_writePosition.compare_exchange_strong(
-        writePosition, newWritePosition, std::memory_order_relaxed, std::memory_order_relaxed);
+        writePosition, newWritePosition, std::memory_order_release, std::memory_order_relaxed);
 }
 
 template <uint64_t Capacity, typename ValueType>
@@ -159,7 +161,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::pop(ValueType& index) noexcept
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
     do
     {
-        value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        value = loadvalueAt(readPosition, std::memory_order_acquire);
 
         // we only dequeue if value and readPosition are in the same cycle
         auto cellIsValidToRead = readPosition.getCycle() == value.getCycle();
@@ -207,9 +209,10 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfFull(ValueType& index) noe
     // unfortunately it seems impossible in this design to check this condition without loading
     // write posiion and read position (which causes more contention)
 
-    const auto writePosition = m_writePosition.load(std::memory_order_relaxed);
+    // acquire: the value at the read position must not be older than the write position
+    const auto writePosition = m_writePosition.load(std::memory_order_acquire);
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
-    const auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+    const auto value = loadvalueAt(readPosition, std::memory_order_acquire);
 
     auto isFull = writePosition.getIndex() == readPosition.getIndex() && readPosition.isOneCycleBehind(writePosition);
 
@@ -240,7 +243,8 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfSizeIsAtLeast(const uint64
     // which to load first should make no difference for correctness
     // but for performance it might
     // note that without sync mechanisms (such as seq_cst), reordering is possible
-    const auto writePosition = m_writePosition.load(std::memory_order_relaxed);
+    // acquire: the value at the read position must not be older than the write position
+    const auto writePosition = m_writePosition.load(std::memory_order_acquire);
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
 
     // if readPosition + n = readPosition for some n>=0, the queue contains n elements
@@ -264,7 +268,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfSizeIsAtLeast(const uint64
     // delta is positive, therefore the conversion is fine (it surely fits into uint64_t)
     if (static_cast<uint64_t>(delta) >= minSize)
     {
-        auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        auto value = loadvalueAt(readPosition, std::memory_order_acquire);
         Index newReadPosition(readPosition + 1U);
         auto ownershipGained = m_readPosition.compare_exchange_strong(
             readPosition, newReadPosition, std::memory_order_relaxed, std::memory_order_relaxed);
-- 
2.43.0


From 016936c9721fb4ef2905a437b701f5c06a384330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:45 +0000
Subject: [PATCH 02/26] fix: order the last access to a chunk before its reuse

The reference counter was decremented and checked with relaxed memory order. The accesses of a reader to the payload
were therefore not ordered before the writes of the publisher that gets the chunk next (by free and re-allocation or by
reusing the last chunk of the publisher).
---
 iceoryx_posh/source/mepoo/shared_chunk.cpp             | 4 +++-
 iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/mepoo/shared_chunk.cpp b/iceoryx_posh/source/mepoo/shared_chunk.cpp
index 035f49d..1c6fd70 100644
--- a/iceoryx_posh/source/mepoo/shared_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shared_chunk.cpp
@@ -53,8 +53,10 @@ void SharedChunk::incrementReferenceCounter() noexcept
 
 void SharedChunk::decrementReferenceCounter() noexcept
 {
+    // all accesses of this holder must happen before and those of the previous ones must be visible to whoever frees or
+    // reuses the chunk
     if ((m_chunkManagement != nullptr)
-        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_relaxed) == 1U))
+        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_acq_rel) == 1U))
     {
         MemoryManager::freeChunk(*m_chunkManagement);
         m_chunkManagement = nullptr;
diff --git a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
index 32116ac..8a4f3bc 100644
--- a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
@@ -113,7 +113,8 @@ bool ShmSafeUnmanagedChunk::isNotLogicalNullptrAndHasNoOtherOwners() const noexc
 
     auto chunkMgmt =
         RelativePointer<mepoo::ChunkManagement>(m_chunkManagement.offset(), segment_id_t{m_chunkManagement.id()});
-    return chunkMgmt->m_referenceCounter.load(std::memory_order_relaxed) == 1U;
+    // synchronizes with the release of the last other owner since the chunk might be reused for writing
+    return chunkMgmt->m_referenceCounter.load(std::memory_order_acquire) == 1U;
 }
 
 } // namespace mepoo
-- 
2.43.0


From 74957b7886b0a28d0eaae738d9a8448d4d82451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:50 +0000
Subject: [PATCH 03/26] fix: add a published chunk to the history together with
 its delivery

A queue that was added between the delivery of a chunk and its addition to the
history (for instance while the publisher waits for another consumer) got the
chunk neither by delivery nor with the history.
---
 .../building_blocks/chunk_distributor.inl     | 70 +++++++++++++------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 246cfe9..37d3365 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -144,32 +144,54 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
     uint64_t numberOfQueuesTheChunkWasDeliveredTo{0U};
     using QueueContainer = decltype(getMembers()->m_queues);
     QueueContainer fullQueuesAwaitingDelivery;
-    {
-        typename MemberType_t::LockGuard_t lock(*getMembers());
+    QueueContainer knownQueues;
 
-        bool willWaitForConsumer = getMembers()->m_consumerTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER;
-        // send to all the queues
-        for (auto& queue : getMembers()->m_queues)
-        {
-            bool isBlockingQueue = (willWaitForConsumer && queue->m_queueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER);
+    const auto deliver = [&](auto& queue) {
+        const bool willWaitForConsumer =
+            getMembers()->m_consumerTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER;
+        const bool isBlockingQueue =
+            (willWaitForConsumer && queue->m_queueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER);
 
-            if (pushToQueue(queue.get(), chunk))
+        if (pushToQueue(queue.get(), chunk))
+        {
+            ++numberOfQueuesTheChunkWasDeliveredTo;
+        }
+        else
+        {
+            if (isBlockingQueue)
             {
-                ++numberOfQueuesTheChunkWasDeliveredTo;
+                fullQueuesAwaitingDelivery.emplace_back(queue);
             }
             else
             {
-                if (isBlockingQueue)
-                {
-                    fullQueuesAwaitingDelivery.emplace_back(queue);
-                }
-                else
-                {
-                    ++numberOfQueuesTheChunkWasDeliveredTo;
-                    ChunkQueuePusher_t(queue.get()).lostAChunk();
-                }
+                ++numberOfQueuesTheChunkWasDeliveredTo;
+                ChunkQueuePusher_t(queue.get()).lostAChunk();
             }
         }
+    };
+
+    // the chunk must be added to the history in the critical section in which it is delivered to the last queue; a queue
+    // which is added in between would otherwise get the chunk neither by delivery nor with the history
+    const auto addToHistoryWhenDelivered = [&] {
+        if (fullQueuesAwaitingDelivery.empty())
+        {
+            addToHistoryWithoutDelivery(chunk);
+        }
+        else
+        {
+            knownQueues = getMembers()->m_queues;
+        }
+    };
+
+    {
+        typename MemberType_t::LockGuard_t lock(*getMembers());
+
+        // send to all the queues
+        for (auto& queue : getMembers()->m_queues)
+        {
+            deliver(queue);
+        }
+        addToHistoryWhenDelivered();
     }
 
     // busy waiting until every queue is served
@@ -218,11 +240,19 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
                     fullQueuesAwaitingDelivery.push_back(queue);
                 }
             }
+
+            // queues which were added while waiting did not get the chunk with the history
+            for (auto& queue : getMembers()->m_queues)
+            {
+                if (std::find(knownQueues.begin(), knownQueues.end(), queue.get()) == knownQueues.end())
+                {
+                    deliver(queue);
+                }
+            }
+            addToHistoryWhenDelivered();
         }
     }
 
-    addToHistoryWithoutDelivery(chunk);
-
     return numberOfQueuesTheChunkWasDeliveredTo;
 }
 
-- 
2.43.0


From f1e7e7639570ac1e26d34e74ff020590ead0ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 04/26] fix: do not send STOP_OFFER to clients without
 connection

A server which stops offering or is destroyed sent a STOP_OFFER to every
compatible client. For a client which is not connected (e.g. created with
connectOnCreate=false, already disconnected, or rejected by the server)
this is a CaPro protocol violation and terminated RouDi.
---
 iceoryx_posh/source/roudi/port_manager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 1291567..d0f1eeb 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -633,6 +633,13 @@ void PortManager::sendToAllMatchingClientPorts(const capro::CaproMessage& messag
 {
     for (auto& clientPortData : m_portPool->getClientPortDataList())
     {
+        // a client without connection has nothing to stop and must not get a STOP_OFFER; it's a protocol violation
+        if (message.m_type == capro::CaproMessageType::STOP_OFFER
+            && clientPortData.m_connectionState.load(std::memory_order_relaxed) != ConnectionState::CONNECTED)
+        {
+            continue;
+        }
+
         popo::ClientPortRouDi clientPort(clientPortData);
         if (isCompatibleClientServer(serverSource, clientPort))
         {
-- 
2.43.0


From fd90482b6a1e81c33fbe3cbae339743af983e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:14 +0000
Subject: [PATCH 05/26] fix: publish the service registry when one of several
 offers is withdrawn

ServiceRegistry::removePublisher and removeServer marked the registry as
changed only when the last offer of a service vanished. When the last
publisher of a service went while a server with the same description was
still there (or vice versa), ServiceDiscovery reported it forever.
---
 iceoryx_posh/source/roudi/service_registry.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/roudi/service_registry.cpp b/iceoryx_posh/source/roudi/service_registry.cpp
index 08d9d6e..50db312 100644
--- a/iceoryx_posh/source/roudi/service_registry.cpp
+++ b/iceoryx_posh/source/roudi/service_registry.cpp
@@ -101,12 +101,13 @@ void ServiceRegistry::removePublisher(const capro::ServiceDescription& serviceDe
 
         if (entry && entry->publisherCount >= 1U)
         {
+            // the remaining entry has changed, too, even if it is still in use
+            m_dataChanged = true;
             if (--entry->publisherCount == 0U && entry->serverCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
@@ -121,12 +122,13 @@ void ServiceRegistry::removeServer(const capro::ServiceDescription& serviceDescr
 
         if (entry && entry->serverCount >= 1U)
         {
+            // the remaining entry has changed, too, even if it is still in use
+            m_dataChanged = true;
             if (--entry->serverCount == 0U && entry->publisherCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
-- 
2.43.0


From 6ec3c1027489a94eb9f188e61c862a24d7b9c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:33 +0000
Subject: [PATCH 06/26] fix: identify queues by their id while waiting for a
 consumer

While a publisher waits for a full queue, the port of a subscriber can be
destroyed and its memory used for a new one. The queue of the new port was
taken for the old one and got the chunk neither by delivery nor with the
history.
---
 .../building_blocks/chunk_distributor.inl     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 37d3365..c630d0f 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -144,7 +144,12 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
     uint64_t numberOfQueuesTheChunkWasDeliveredTo{0U};
     using QueueContainer = decltype(getMembers()->m_queues);
     QueueContainer fullQueuesAwaitingDelivery;
-    QueueContainer knownQueues;
+    // the memory of a removed queue might be used for a new one, therefore the queues are identified by their id
+    vector<UniqueId, MemberType_t::ChunkDistributorDataProperties_t::MAX_QUEUES> knownQueues;
+
+    const auto isKnown = [&](auto& queue) {
+        return std::find(knownQueues.begin(), knownQueues.end(), queue->m_uniqueId) != knownQueues.end();
+    };
 
     const auto deliver = [&](auto& queue) {
         const bool willWaitForConsumer =
@@ -179,7 +184,11 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
         }
         else
         {
-            knownQueues = getMembers()->m_queues;
+            knownQueues.clear();
+            for (auto& queue : getMembers()->m_queues)
+            {
+                knownQueues.push_back(queue->m_uniqueId);
+            }
         }
     };
 
@@ -231,6 +240,10 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
             // deliver to remaining queues
             for (auto& queue : remainingQueues)
             {
+                if (!isKnown(queue))
+                {
+                    continue;
+                }
                 if (pushToQueue(queue.get(), chunk))
                 {
                     ++numberOfQueuesTheChunkWasDeliveredTo;
@@ -244,7 +257,7 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
             // queues which were added while waiting did not get the chunk with the history
             for (auto& queue : getMembers()->m_queues)
             {
-                if (std::find(knownQueues.begin(), knownQueues.end(), queue.get()) == knownQueues.end())
+                if (!isKnown(queue))
                 {
                     deliver(queue);
                 }
-- 
2.43.0


From d3fe2accc7ddf65b01b8a5c436af097a07fcc464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 07/26] fix: order the use of a port before its destruction by
 RouDi

The flag with which an application hands its port over to RouDi for destruction was stored and loaded with relaxed memory
order. The accesses of the application to the chunks of the port were therefore not ordered before their release by RouDi
and their reuse by somebody else.
---
 iceoryx_posh/source/popo/ports/base_port.cpp | 5 +++--
 iceoryx_posh/source/roudi/port_manager.cpp   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/source/popo/ports/base_port.cpp b/iceoryx_posh/source/popo/ports/base_port.cpp
index f25f5da..6aefb0d 100644
--- a/iceoryx_posh/source/popo/ports/base_port.cpp
+++ b/iceoryx_posh/source/popo/ports/base_port.cpp
@@ -63,12 +63,13 @@ BasePort::operator bool() const noexcept
 
 void BasePort::destroy() noexcept
 {
-    getMembers()->m_toBeDestroyed.store(true, std::memory_order_relaxed);
+    // whatever was done with the port, and with the chunks it holds, must happen before RouDi releases them
+    getMembers()->m_toBeDestroyed.store(true, std::memory_order_release);
 }
 
 bool BasePort::toBeDestroyed() const noexcept
 {
-    return getMembers()->m_toBeDestroyed.load(std::memory_order_relaxed);
+    return getMembers()->m_toBeDestroyed.load(std::memory_order_acquire);
 }
 
 } // namespace popo
diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index d0f1eeb..42be450 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -431,7 +431,7 @@ void PortManager::handleInterfaces() noexcept
         }
 
         // check if we have to destroy this interface port
-        if (currentPort->m_toBeDestroyed.load(std::memory_order_relaxed))
+        if (currentPort->m_toBeDestroyed.load(std::memory_order_acquire))
         {
             IOX_LOG(Debug,
                     "Destroy interface port from runtime '" << currentPort->m_runtimeName
-- 
2.43.0


From a4db530f33cbd7e918c3ef268335a0eb3b7eda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:55 +0000
Subject: [PATCH 08/26] fix: condition listener loses notifications

- a notification which arrived while the notifications were collected reset m_wasNotified, the WaitSet did
  not look at it as long as an attached state was satisfied
- the relaxed access to the notification flag allowed the woken thread to miss the data it was notified about
---
 .../source/popo/building_blocks/condition_listener.cpp    | 8 ++++++--
 .../source/popo/building_blocks/condition_notifier.cpp    | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index fb82639..5c81ca1 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -87,6 +87,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
     bool doReturnAfterNotificationCollection = false;
     while (!m_toBeDestroyed.load(std::memory_order_relaxed))
     {
+        // must be reset before the notifications are collected, a notification which arrives while they are collected
+        // would be forgotten otherwise
+        getMembers()->m_wasNotified.exchange(false, std::memory_order_acq_rel);
         for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)
         {
             if (getMembers()->m_activeNotifications[i].load(std::memory_order_relaxed))
@@ -108,8 +111,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
 
 void ConditionListener::resetUnchecked(const uint64_t index) noexcept
 {
-    getMembers()->m_activeNotifications[index].store(false, std::memory_order_relaxed);
-    getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
+    // exchange instead of store: a notification which arrives right before the reset is consumed together with
+    // everything which happened before it
+    getMembers()->m_activeNotifications[index].exchange(false, std::memory_order_acq_rel);
 }
 
 const ConditionVariableData* ConditionListener::getMembers() volatile const noexcept
diff --git a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
index 7174331..e849582 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
@@ -39,7 +39,7 @@ ConditionNotifier::ConditionNotifier(ConditionVariableData& condVarDataRef, cons
 void ConditionNotifier::notify() noexcept
 {
     getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);
-    getMembers()->m_wasNotified.store(true, std::memory_order_relaxed);
+    getMembers()->m_wasNotified.store(true, std::memory_order_release);
     getMembers()->m_semaphore->post().or_else(
         [](auto) { IOX_REPORT_FATAL(PoshError::POPO__CONDITION_NOTIFIER_SEMAPHORE_CORRUPT_IN_NOTIFY); });
 }
-- 
2.43.0


From 07579e771cf0c7a121f1fbd221157bfdff50a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:55 +0000
Subject: [PATCH 09/26] fix: WaitSet::wait blocks although an attached state is
 satisfied

m_wasNotified can be set while the notification is already consumed
---
 iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 686120b..ffc1630 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -388,7 +388,8 @@ WaitSet<Capacity>::waitAndReturnTriggeredTriggers(const WaitFunction& wait) noex
 {
     if (m_conditionListener.wasNotified())
     {
-        this->acquireNotifications(wait);
+        // must not block; the notification might be consumed already while an attached state is still satisfied
+        acquireNotifications([this] { return m_conditionListener.timedWait(units::Duration::zero()); });
     }
 
     NotificationInfoVector triggers = createVectorWithTriggeredTriggers();
-- 
2.43.0


From 3bbd5e60742466a7a4487bd0218b601367e146fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:50 +0000
Subject: [PATCH 10/26] fix: deadlock of concurrent Listener::attachEvent calls
 from a callback and another thread

attachEvent waited with the add event mutex being held for the lock of the event whose callback was running and
waiting for the add event mutex
---
 .../iceoryx_posh/internal/popo/listener.inl   | 25 +++++++++++--------
 .../include/iceoryx_posh/popo/listener.hpp    |  9 ++++++-
 iceoryx_posh/source/popo/listener.cpp         |  7 ++----
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/listener.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/listener.inl
index e530556..431406c 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/listener.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/listener.inl
@@ -77,20 +77,25 @@ Listener::addEvent(void* const origin,
                    internal::TranslationCallbackRef_t translationCallback,
                    const function<void(uint64_t)> invalidationCallback) noexcept
 {
-    std::lock_guard<std::mutex> lock(m_addEventMutex);
-
-    for (uint32_t i = 0U; i < MAX_NUMBER_OF_EVENTS; ++i)
+    uint32_t index = 0U;
     {
-        if (m_events[i]->isEqualTo(origin, eventType, eventTypeHash))
+        // the events must not be accessed while the mutex is held, their locks are held by the running callbacks which
+        // are allowed to attach further events
+        std::lock_guard<std::mutex> lock(m_addEventMutex);
+
+        for (const auto& key : m_attachedEvents)
         {
-            return err(ListenerError::EVENT_ALREADY_ATTACHED);
+            if (key.origin == origin && key.eventType == eventType && key.eventTypeHash == eventTypeHash)
+            {
+                return err(ListenerError::EVENT_ALREADY_ATTACHED);
+            }
         }
-    }
 
-    uint32_t index = 0U;
-    if (!m_indexManager.pop(index))
-    {
-        return err(ListenerError::LISTENER_FULL);
+        if (!m_indexManager.pop(index))
+        {
+            return err(ListenerError::LISTENER_FULL);
+        }
+        m_attachedEvents[index] = {origin, eventType, eventTypeHash};
     }
 
     m_events[index]->init(
diff --git a/iceoryx_posh/include/iceoryx_posh/popo/listener.hpp b/iceoryx_posh/include/iceoryx_posh/popo/listener.hpp
index 2592c87..bc782cb 100644
--- a/iceoryx_posh/include/iceoryx_posh/popo/listener.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/popo/listener.hpp
@@ -47,7 +47,6 @@ class Event_t
   public:
     ~Event_t() noexcept;
 
-    bool isEqualTo(const void* const origin, const uint64_t eventType, const uint64_t eventTypeHash) const noexcept;
     bool reset() noexcept;
     void init(const uint64_t eventId,
               void* const origin,
@@ -216,6 +215,14 @@ class Listener
 
     std::thread m_thread;
     concurrent::smart_lock<internal::Event_t, std::recursive_mutex> m_events[MAX_NUMBER_OF_EVENTS];
+
+    struct EventKey_t
+    {
+        const void* origin = nullptr;
+        uint64_t eventType = 0U;
+        uint64_t eventTypeHash = 0U;
+    };
+    EventKey_t m_attachedEvents[MAX_NUMBER_OF_EVENTS];
     std::mutex m_addEventMutex;
 
     concurrent::Atomic<bool> m_wasDtorCalled{false};
diff --git a/iceoryx_posh/source/popo/listener.cpp b/iceoryx_posh/source/popo/listener.cpp
index 19c1c6f..df128e1 100644
--- a/iceoryx_posh/source/popo/listener.cpp
+++ b/iceoryx_posh/source/popo/listener.cpp
@@ -69,6 +69,8 @@ void Listener::removeTrigger(const uint64_t index) noexcept
 
     if (m_events[index]->reset())
     {
+        std::lock_guard<std::mutex> lock(m_addEventMutex);
+        m_attachedEvents[index] = EventKey_t{};
         m_indexManager.push(static_cast<uint32_t>(index));
     }
 }
@@ -141,11 +143,6 @@ void Event_t::init(const uint64_t eventId,
     m_invalidationCallback = invalidationCallback;
 }
 
-bool Event_t::isEqualTo(const void* const origin, const uint64_t eventType, const uint64_t eventTypeHash) const noexcept
-{
-    return (m_origin == origin && m_eventType == eventType && m_eventTypeHash == eventTypeHash);
-}
-
 bool Event_t::reset() noexcept
 {
     if (isInitialized())
-- 
2.43.0


From 6515f008400dc58c812d68c2adc432bf03cbd04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:03 +0000
Subject: [PATCH 11/26] fix: Listener releases its condition variable before
 the origins are detached

RouDi was allowed to destroy the condition variable while a publisher was still able to notify it
---
 .../include/iceoryx_posh/internal/popo/wait_set.inl       | 2 +-
 iceoryx_posh/source/popo/listener.cpp                     | 8 +++++++-
 iceoryx_posh/source/roudi/port_manager.cpp                | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index ffc1630..678dc5b 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -92,7 +92,7 @@ template <uint64_t Capacity>
 inline WaitSet<Capacity>::~WaitSet() noexcept
 {
     removeAllTriggers();
-    m_conditionVariableDataPtr->m_toBeDestroyed.store(true, std::memory_order_relaxed);
+    m_conditionVariableDataPtr->m_toBeDestroyed.store(true, std::memory_order_release);
 }
 
 template <uint64_t Capacity>
diff --git a/iceoryx_posh/source/popo/listener.cpp b/iceoryx_posh/source/popo/listener.cpp
index df128e1..52bb54e 100644
--- a/iceoryx_posh/source/popo/listener.cpp
+++ b/iceoryx_posh/source/popo/listener.cpp
@@ -39,7 +39,13 @@ Listener::~Listener() noexcept
     m_conditionListener.destroy();
 
     m_thread.join();
-    m_conditionVariableData->m_toBeDestroyed.store(true, std::memory_order_relaxed);
+
+    // detach everything before RouDi is allowed to destroy the condition variable which is used by the origins
+    for (auto& event : m_events)
+    {
+        event->reset();
+    }
+    m_conditionVariableData->m_toBeDestroyed.store(true, std::memory_order_release);
 }
 
 uint64_t Listener::size() const noexcept
diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 42be450..3857f3c 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -495,7 +495,7 @@ void PortManager::handleConditionVariables() noexcept
     while (condVar != condVars.end())
     {
         auto currentCondVar = condVar++;
-        if (currentCondVar->m_toBeDestroyed.load(std::memory_order_relaxed))
+        if (currentCondVar->m_toBeDestroyed.load(std::memory_order_acquire))
         {
             IOX_LOG(Debug, "Destroy ConditionVariableData from runtime '" << currentCondVar->m_runtimeName << "'");
             m_portPool->removeConditionVariableData(currentCondVar.to_ptr());
-- 
2.43.0


From b7ee0ab92ab35bdf015b5e49484a3d48d924d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:12 +0000
Subject: [PATCH 12/26] fix: NamedPipe::tryReceive reports an error and loses
 the message it has taken

---
 iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
index b9ec600..9fa4168 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
@@ -91,6 +91,7 @@ expected<void, PosixIpcChannelError> NamedPipe::tryReceive(iox::string<N>& messa
         {
             m_data->sendSemaphore().post().expect("'post' on a semaphore should always be successful");
             message = *msg;
+            return ok();
         }
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
-- 
2.43.0


From de226863425d44506c4de10740054c544d431562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:12 +0000
Subject: [PATCH 13/26] fix: failing mq_open is taken for a valid message queue

mq_open signals an error with (mqd_t)-1, not with the maximum of mqd_t.
---
 iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp b/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp
index 2b9b71e..3357a7b 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp
+++ b/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp
@@ -50,7 +50,7 @@ class MessageQueueBuilder;
 class MessageQueue
 {
   public:
-    static constexpr mqd_t INVALID_DESCRIPTOR = std::numeric_limits<mqd_t>::max();
+    static constexpr mqd_t INVALID_DESCRIPTOR = -1;
     static constexpr int32_t ERROR_CODE = -1;
     static constexpr uint64_t SHORTEST_VALID_QUEUE_NAME = 2;
     static constexpr uint64_t NULL_TERMINATOR_SIZE = 1;
-- 
2.43.0


From f17965e0c14a8a7f7d51e8d97b24daca47507099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:12 +0000
Subject: [PATCH 14/26] fix: UnnamedSemaphoreBuilder reports success although
 sem_init failed

---
 iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp b/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
index 63d5986..3bdbcd7 100644
--- a/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
+++ b/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
@@ -49,13 +49,13 @@ UnnamedSemaphoreBuilder::create(optional<UnnamedSemaphore>& uninitializedSemapho
         {
         case EINVAL:
             IOX_LOG(Error, "The initial value of " << m_initialValue << " exceeds " << IOX_SEM_VALUE_MAX);
-            break;
+            return err(SemaphoreError::SEMAPHORE_OVERFLOW);
         case ENOSYS:
             IOX_LOG(Error, "The system does not support process-shared semaphores");
-            break;
+            return err(SemaphoreError::UNDEFINED);
         default:
             IOX_LOG(Error, "This should never happen. An unknown error occurred.");
-            break;
+            return err(SemaphoreError::UNDEFINED);
         }
     }
 
-- 
2.43.0


From ad788dc0ed90a1685eaaa00a7e5de4cdb50b28b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:54 +0000
Subject: [PATCH 15/26] fix: a released FileLock removes the lock file of the
 next owner

The lock file was removed after the lock was released. A lock which was taken
in between lost its file and a third one could acquire the same lock with a
newly created file. Remove the file while the lock is held and do not accept
the lock of a file which was already removed.
---
 .../posix/filesystem/source/file_lock.cpp     | 111 +++++++++++++-----
 1 file changed, 79 insertions(+), 32 deletions(-)

diff --git a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
index 86ed2d7..9533ca3 100644
--- a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
+++ b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
@@ -27,6 +27,22 @@
 
 namespace iox
 {
+namespace
+{
+bool isRemoved(const int32_t fileDescriptor) noexcept
+{
+#if defined(_WIN32) || defined(__FREERTOS__)
+    // on these platforms an opened file cannot be removed
+    IOX_DISCARD_RESULT(fileDescriptor);
+    return false;
+#else
+    iox_stat fileStatus{};
+    auto result = IOX_POSIX_CALL(iox_fstat)(fileDescriptor, &fileStatus).failureReturnValue(-1).evaluate();
+    return !result.has_error() && fileStatus.st_nlink == 0;
+#endif
+}
+} // namespace
+
 // NOLINTJUSTIFICATION see declaration
 // NOLINTNEXTLINE(hicpp-avoid-c-arrays,cppcoreguidelines-avoid-c-arrays)
 constexpr const char FileLock::LOCK_FILE_SUFFIX[];
@@ -55,38 +71,51 @@ expected<FileLock, FileLockError> FileLockBuilder::create() noexcept
     fileLockPath.unsafe_append(m_name);
     fileLockPath.unsafe_append(FileLock::LOCK_FILE_SUFFIX);
 
-    auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
-                                                 convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
-                                                 m_permission.value())
-                        .failureReturnValue(-1)
-                        .evaluate();
-
-    if (openCall.has_error())
+    // a released file lock removes its file; when the file which was opened here is removed before it could be locked,
+    // the lock protects nothing since the next one who asks for it creates a new file; hence, try again in this case
+    constexpr uint32_t MAX_NUMBER_OF_ATTEMPTS{100};
+    for (uint32_t attempt = 0; attempt < MAX_NUMBER_OF_ATTEMPTS; ++attempt)
     {
-        return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
-    }
+        auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
+                                                     convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
+                                                     m_permission.value())
+                            .failureReturnValue(-1)
+                            .evaluate();
+
+        if (openCall.has_error())
+        {
+            return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
+        }
 
-    auto fileDescriptor = openCall.value().value;
-    auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
-                        .failureReturnValue(-1)
-                        .suppressErrorMessagesForErrnos(EWOULDBLOCK)
-                        .evaluate();
+        auto fileDescriptor = openCall.value().value;
+        auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
+                            .failureReturnValue(-1)
+                            .suppressErrorMessagesForErrnos(EWOULDBLOCK)
+                            .evaluate();
 
-    if (lockCall.has_error())
-    {
-        IOX_POSIX_CALL(iox_ext_close)
-        (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
-            IOX_LOG(Error,
-                    "Unable to close file lock \"" << fileLockPath
-                                                   << "\" in error related cleanup during initialization.");
-        });
+        if (lockCall.has_error())
+        {
+            IOX_POSIX_CALL(iox_ext_close)
+            (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
+                IOX_LOG(Error,
+                        "Unable to close file lock \"" << fileLockPath
+                                                       << "\" in error related cleanup during initialization.");
+            });
 
-        //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
-        return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
+            //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
+            return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
+        }
+
+        if (!isRemoved(fileDescriptor))
+        {
+            return ok(FileLock(fileDescriptor, fileLockPath));
+        }
+
+        IOX_DISCARD_RESULT(IOX_POSIX_CALL(iox_ext_close)(fileDescriptor).failureReturnValue(-1).evaluate());
     }
 
-    return ok(FileLock(fileDescriptor, fileLockPath));
+    return err(FileLockError::LOCKED_BY_OTHER_PROCESS);
 }
 
 FileLock::FileLock(const int32_t fileDescriptor, const FilePath_t& path) noexcept
@@ -133,6 +162,26 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
     if (m_fd != INVALID_FD)
     {
         bool cleanupFailed = false;
+
+        bool removeAfterClose = false;
+        auto removeFile = [&](const bool isLastAttempt) {
+            IOX_POSIX_CALL(remove)
+            (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                if (!isLastAttempt && result.errnum == EACCES)
+                {
+                    // the platform might not support to remove an opened file
+                    removeAfterClose = true;
+                    return;
+                }
+                cleanupFailed = true;
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
+                IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
+            });
+        };
+
+        // the file must be removed while the lock is still held, otherwise the file of the next owner is removed
+        removeFile(false);
+
         IOX_POSIX_CALL(iox_flock)
         (m_fd, static_cast<int>(LockOperation::UNLOCK))
             .failureReturnValue(-1)
@@ -151,12 +200,10 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
             IOX_LOG(Error, "Unable to close the file handle to the file lock \"" << m_fileLockPath << '"');
         });
 
-        IOX_POSIX_CALL(remove)
-        (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            cleanupFailed = true;
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
-            IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
-        });
+        if (removeAfterClose)
+        {
+            removeFile(true);
+        }
 
         if (cleanupFailed)
         {
-- 
2.43.0


From 70457353d4b7f5dd9747bd707dcd631e65fd440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:54 +0000
Subject: [PATCH 16/26] fix: UnixDomainSocket blocks forever with a timeout
 below one microsecond

A zero timeval turns the timeout of the socket off.
---
 .../ipc/include/iox/detail/unix_domain_socket.inl | 15 +++++++++++++--
 .../posix/ipc/include/iox/unix_domain_socket.hpp  |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 96df645..178613f 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -21,6 +21,17 @@
 
 namespace iox
 {
+inline struct timeval UnixDomainSocket::toSocketTimeout(const units::Duration& timeout) noexcept
+{
+    auto tv = timeout.timeval();
+    // a zero timeval turns the timeout off; therefore a timeout below the resolution must not be rounded down to zero
+    if (tv.tv_sec == 0 && tv.tv_usec == 0 && timeout > units::Duration::fromNanoseconds(0U))
+    {
+        tv.tv_usec = 1;
+    }
+    return tv;
+}
+
 template <typename Type, UnixDomainSocket::Termination Terminator>
 expected<void, PosixIpcChannelError> UnixDomainSocket::timedSendImpl(not_null<const Type*> msg,
                                                                      uint64_t msgSize,
@@ -37,7 +48,7 @@ expected<void, PosixIpcChannelError> UnixDomainSocket::timedSendImpl(not_null<co
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
 
-    auto tv = timeout.timeval();
+    auto tv = toSocketTimeout(timeout);
     auto setsockoptCall = IOX_POSIX_CALL(iox_setsockopt)(m_sockfd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv))
                               .failureReturnValue(ERROR_CODE)
                               .ignoreErrnos(EWOULDBLOCK)
@@ -73,7 +84,7 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
 
-    auto tv = timeout.timeval();
+    auto tv = toSocketTimeout(timeout);
     auto setsockoptCall = IOX_POSIX_CALL(iox_setsockopt)(m_sockfd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv))
                               .failureReturnValue(ERROR_CODE)
                               .ignoreErrnos(EWOULDBLOCK)
diff --git a/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp b/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
index e49d807..de70394 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
+++ b/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
@@ -151,6 +151,8 @@ class UnixDomainSocket
         NULL_TERMINATOR
     };
 
+    static struct timeval toSocketTimeout(const units::Duration& timeout) noexcept;
+
     template <typename Type, Termination Terminator>
     expected<void, PosixIpcChannelError>
     timedSendImpl(not_null<const Type*> msg, uint64_t msgSize, const units::Duration& timeout) const noexcept;
-- 
2.43.0


From b7549800dd30692f798c93b0c21f15c028850961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:05 +0000
Subject: [PATCH 17/26] fix: SIGTERM or SIGINT during the construction of the
 SignalWatcher is fatal

The signal handler was registered before the instance was set up and called
getInstance, which is a recursive initialization when the handler interrupts the
construction. Register the handler last and let it use the instance directly.
---
 .../posix/sync/include/iox/signal_watcher.hpp |  4 ++--
 .../posix/sync/source/signal_watcher.cpp      | 24 ++++++++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/iceoryx_hoofs/posix/sync/include/iox/signal_watcher.hpp b/iceoryx_hoofs/posix/sync/include/iox/signal_watcher.hpp
index b4bd7e5..223eb40 100644
--- a/iceoryx_hoofs/posix/sync/include/iox/signal_watcher.hpp
+++ b/iceoryx_hoofs/posix/sync/include/iox/signal_watcher.hpp
@@ -70,8 +70,8 @@ class SignalWatcher
     mutable optional<UnnamedSemaphore> m_semaphore;
 
     concurrent::Atomic<bool> m_hasSignalOccurred{false};
-    SignalGuard m_sigTermGuard;
-    SignalGuard m_sigIntGuard;
+    optional<SignalGuard> m_sigTermGuard;
+    optional<SignalGuard> m_sigIntGuard;
 };
 
 /// @brief convenience function, calls SignalWatcher::getInstance().waitForSignal();
diff --git a/iceoryx_hoofs/posix/sync/source/signal_watcher.cpp b/iceoryx_hoofs/posix/sync/source/signal_watcher.cpp
index 6a366d9..d1b2b56 100644
--- a/iceoryx_hoofs/posix/sync/source/signal_watcher.cpp
+++ b/iceoryx_hoofs/posix/sync/source/signal_watcher.cpp
@@ -18,9 +18,16 @@
 
 namespace iox
 {
+namespace
+{
+// The signal handler must not call 'SignalWatcher::getInstance' since it might interrupt the construction of the instance.
+concurrent::Atomic<SignalWatcher*> g_signalWatcher{nullptr};
+} // namespace
+
 void internalSignalHandler(int) noexcept
 {
-    auto& instance = SignalWatcher::getInstance();
+    // set before the signal handler is registered
+    auto& instance = *g_signalWatcher.load();
     instance.m_hasSignalOccurred.store(true);
 
     for (uint64_t remainingNumberOfWaiters = instance.m_numberOfWaiters.load(); remainingNumberOfWaiters > 0;
@@ -41,19 +48,18 @@ void internalSignalHandler(int) noexcept
 }
 
 SignalWatcher::SignalWatcher() noexcept
-    : m_sigTermGuard(
-          registerSignalHandler(PosixSignal::TERM, internalSignalHandler).expect("Unable to register Signal::TERM"))
-    , m_sigIntGuard(
-          registerSignalHandler(PosixSignal::INT, internalSignalHandler).expect("Unable to register Signal::INT"))
 {
     UnnamedSemaphoreBuilder()
         .isInterProcessCapable(false)
         .create(m_semaphore)
-
-        // This can be safely used despite getInstance is used in the internalSignalHandler
-        // since this object has to be created first before internalSignalHandler can be called.
-        // The only way this object can be created is by calling getInstance.
         .expect("Unable to create semaphore for signal watcher");
+
+    // The signal handler can be called as soon as it is registered. Therefore, everything it uses has to be set up before.
+    g_signalWatcher.store(this);
+    m_sigTermGuard.emplace(
+        registerSignalHandler(PosixSignal::TERM, internalSignalHandler).expect("Unable to register Signal::TERM"));
+    m_sigIntGuard.emplace(
+        registerSignalHandler(PosixSignal::INT, internalSignalHandler).expect("Unable to register Signal::INT"));
 }
 
 SignalWatcher& SignalWatcher::getInstance() noexcept
-- 
2.43.0


From e43f79b3850b571eb92d56f131e54a7f9be9a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:05 +0000
Subject: [PATCH 18/26] fix: application never registers when RouDi is
 restarted during the registration

The channel to the terminated RouDi was kept since it still maps to the file of
the new RouDi. The application tried to send the registration request over and
over again without a pause. Reopen the channel when the request cannot be sent.
---
 iceoryx_posh/source/runtime/ipc_interface_base.cpp    | 2 ++
 iceoryx_posh/source/runtime/ipc_runtime_interface.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/iceoryx_posh/source/runtime/ipc_interface_base.cpp b/iceoryx_posh/source/runtime/ipc_interface_base.cpp
index c52f0bd..51437a5 100644
--- a/iceoryx_posh/source/runtime/ipc_interface_base.cpp
+++ b/iceoryx_posh/source/runtime/ipc_interface_base.cpp
@@ -269,6 +269,8 @@ bool IpcInterface<IpcChannelType>::openIpcChannel(const PosixIpcChannelSide chan
 template <typename IpcChannelType>
 bool IpcInterface<IpcChannelType>::reopen() noexcept
 {
+    // do not keep the channel to a peer which does not exist anymore
+    m_ipcChannel.reset();
     return openIpcChannel(m_channelSide);
 }
 
diff --git a/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp b/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
index 6d6d5eb..e863f6b 100644
--- a/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
+++ b/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
@@ -113,6 +113,8 @@ expected<IpcRuntimeInterface, IpcRuntimeInterfaceError> IpcRuntimeInterface::cre
             }
             else
             {
+                // the channel might be connected to a RouDi which does not run anymore
+                roudiIpcInterface.reopen();
                 regState = RegState::WAIT_FOR_ROUDI;
             }
             break;
-- 
2.43.0


From 5b4cb6c7763819054d12da494125443255dc8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:58 +0000
Subject: [PATCH 19/26] fix: RouDi runs without being able to serve anyone when
 its IPC channel cannot be created

IpcInterfaceCreator::create reports success although the channel might not be
initialized. RouDi then called timedReceive over and over again without a pause.
---
 iceoryx_posh/source/roudi/roudi.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iceoryx_posh/source/roudi/roudi.cpp b/iceoryx_posh/source/roudi/roudi.cpp
index 651adae..9f496ae 100644
--- a/iceoryx_posh/source/roudi/roudi.cpp
+++ b/iceoryx_posh/source/roudi/roudi.cpp
@@ -83,12 +83,14 @@ RouDi::~RouDi() noexcept
 
 void RouDi::startProcessRuntimeMessagesThread() noexcept
 {
+    auto roudiIpcInterface = runtime::IpcInterfaceCreator::create(
+                                 IPC_CHANNEL_ROUDI_NAME, m_roudiConfig.domainId, ResourceType::ICEORYX_DEFINED)
+                                 .expect("Creating IPC channel for request to RouDi");
+    // without the channel RouDi would run but could not serve anyone
+    IOX_ENFORCE(roudiIpcInterface.isInitialized(), "Creating IPC channel for request to RouDi");
+
     m_handleRuntimeMessageThread =
-        std::thread(&RouDi::processRuntimeMessages,
-                    this,
-                    runtime::IpcInterfaceCreator::create(
-                        IPC_CHANNEL_ROUDI_NAME, m_roudiConfig.domainId, ResourceType::ICEORYX_DEFINED)
-                        .expect("Creating IPC channel for request to RouDi"));
+        std::thread(&RouDi::processRuntimeMessages, this, std::move(roudiIpcInterface));
 }
 
 void RouDi::shutdown() noexcept
-- 
2.43.0


From 8b4c582a6e38b809f6b18600ea7ac2f0fc22e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:59 +0000
Subject: [PATCH 20/26] fix: unblock clients of a process which prepares its
 shutdown

A client with the WAIT_FOR_CONSUMER policy which waits for a server with a full
request queue was not released by PREPARE_APP_TERMINATION, in contrast to
publishers and servers, and the application could not terminate as long as the
server did not take requests.
---
 iceoryx_posh/source/roudi/port_manager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 3857f3c..9537b48 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -738,6 +738,16 @@ void PortManager::unblockProcessShutdown(const RuntimeName_t& runtimeName) noexc
             doDiscoveryForServerPort(serverPort);
         }
     }
+
+    for (auto& port : m_portPool->getClientPortDataList())
+    {
+        popo::ClientPortRouDi clientPort(port);
+        if (runtimeName == clientPort.getRuntimeName())
+        {
+            port.m_connectRequested.store(false, std::memory_order_relaxed);
+            doDiscoveryForClientPort(clientPort);
+        }
+    }
 }
 
 void PortManager::unblockRouDiShutdown() noexcept
-- 
2.43.0


From 3068476dc2e2e282baffaf03bbc186b127364749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:05 +0000
Subject: [PATCH 21/26] fix: report samples which the history of a publisher
 displaces

The history which a newly connected publisher adds to the queue of a
subscriber can displace other samples. The subscriber was not told about it by
hasMissedData.
---
 .../internal/popo/building_blocks/chunk_distributor.inl      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index c630d0f..cf90c12 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -82,7 +82,10 @@ ChunkDistributor<ChunkDistributorDataType>::tryAddQueue(not_null<ChunkQueueData_
                 (requestedHistory <= currChunkHistorySize) ? currChunkHistorySize - requestedHistory : 0u;
             for (auto i = startIndex; i < currChunkHistorySize; ++i)
             {
-                pushToQueue(queueToAdd, getMembers()->m_history[i].cloneToSharedChunk());
+                if (!pushToQueue(queueToAdd, getMembers()->m_history[i].cloneToSharedChunk()))
+                {
+                    ChunkQueuePusher_t(queueToAdd).lostAChunk();
+                }
             }
 
             return ok();
-- 
2.43.0


From a78d3b46943bfb56a19ccd528143c2e9bc6b7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:37 +0000
Subject: [PATCH 22/26] fix: keep the minimum of free chunks under concurrent
 allocations

---
 .../iceoryx_posh/internal/mepoo/mem_pool.hpp   |  2 +-
 iceoryx_posh/source/mepoo/mem_pool.cpp         | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp b/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp
index 0609928..418acd9 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp
@@ -86,7 +86,7 @@ class MemPool
     pointerToIndex(const void* const chunk, const uint64_t chunkSize, const void* const rawMemoryBase) noexcept;
 
   private:
-    void adjustMinFree() noexcept;
+    void adjustMinFree(const uint32_t usedChunks) noexcept;
     bool isMultipleOfAlignment(const uint64_t value) const noexcept;
 
     RelativePointer<void> m_rawMemory;
diff --git a/iceoryx_posh/source/mepoo/mem_pool.cpp b/iceoryx_posh/source/mepoo/mem_pool.cpp
index da60994..953064c 100644
--- a/iceoryx_posh/source/mepoo/mem_pool.cpp
+++ b/iceoryx_posh/source/mepoo/mem_pool.cpp
@@ -76,11 +76,16 @@ bool MemPool::isMultipleOfAlignment(const uint64_t value) const noexcept
     return (value % CHUNK_MEMORY_ALIGNMENT == 0U);
 }
 
-void MemPool::adjustMinFree() noexcept
+void MemPool::adjustMinFree(const uint32_t usedChunks) noexcept
 {
-    // @todo iox-#1714 rethink the concurrent change that can happen. do we need a CAS loop?
-    m_minFree.store(std::min(m_numberOfChunks - m_usedChunks.load(std::memory_order_relaxed),
-                             m_minFree.load(std::memory_order_relaxed)));
+    // a concurrent 'freeChunk' might already have returned the chunk but not yet have decremented the counter
+    const uint32_t freeChunks = (usedChunks < m_numberOfChunks) ? (m_numberOfChunks - usedChunks) : 0U;
+    auto minFree = m_minFree.load(std::memory_order_relaxed);
+    while (freeChunks < minFree
+           && !m_minFree.compare_exchange_weak(
+               minFree, freeChunks, std::memory_order_relaxed, std::memory_order_relaxed))
+    {
+    }
 }
 
 void* MemPool::getChunk() noexcept
@@ -94,10 +99,7 @@ void* MemPool::getChunk() noexcept
         return nullptr;
     }
 
-    /// @todo iox-#1714 verify that m_usedChunk is not changed during adjustMInFree
-    ///         without changing m_minFree
-    m_usedChunks.fetch_add(1U, std::memory_order_relaxed);
-    adjustMinFree();
+    adjustMinFree(m_usedChunks.fetch_add(1U, std::memory_order_relaxed) + 1U);
 
     return indexToPointer(index, m_chunkSize, m_rawMemory.get());
 }
-- 
2.43.0


From 2995521829b7234df9c2b61f3f442a258a5b3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:37 +0000
Subject: [PATCH 23/26] fix: publish new subscribers by the port introspection

---
 .../internal/roudi/introspection/port_introspection.inl          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
index 0165705..4e3c503 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
@@ -348,6 +348,7 @@ inline bool PortIntrospection<PublisherPort, SubscriberPort>::PortData::addSubsc
         }
     }
 
+    setNew(true);
     return true;
 }
 
-- 
2.43.0


From 1b54b1b731046fc5d60f8ddedc4d7b2d949908d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 24/26] fix: search services without racing with concurrent
 searches

The recursive lock lets findService of one thread run while another thread uses the
same search result buffer.
---
 .../include/iceoryx_posh/runtime/service_discovery.hpp        | 3 ++-
 iceoryx_posh/source/runtime/service_discovery.cpp             | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp b/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp
index cf8f401..a2365f4 100644
--- a/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp
@@ -77,7 +77,8 @@ class ServiceDiscovery
     // use dynamic memory to reduce stack usage
     /// @todo iox-#1155 improve solution to avoid stack usage without using dynamic memory
     std::unique_ptr<roudi::ServiceRegistry> m_serviceRegistry{new iox::roudi::ServiceRegistry};
-    std::mutex m_serviceRegistryMutex;
+    // recursive since the callable of 'findService' is user code which might search, too
+    std::recursive_mutex m_serviceRegistryMutex;
 
     popo::Subscriber<roudi::ServiceRegistry> m_serviceRegistrySubscriber{
         {SERVICE_DISCOVERY_SERVICE_NAME, SERVICE_DISCOVERY_INSTANCE_NAME, SERVICE_DISCOVERY_EVENT_NAME},
diff --git a/iceoryx_posh/source/runtime/service_discovery.cpp b/iceoryx_posh/source/runtime/service_discovery.cpp
index 46473e1..76fef8c 100644
--- a/iceoryx_posh/source/runtime/service_discovery.cpp
+++ b/iceoryx_posh/source/runtime/service_discovery.cpp
@@ -28,8 +28,6 @@ ServiceDiscovery::ServiceDiscovery() noexcept
 
 void ServiceDiscovery::update()
 {
-    // allows us to use update and hence findService concurrently
-    std::lock_guard<std::mutex> lock(m_serviceRegistryMutex);
     m_serviceRegistrySubscriber.take().and_then([&](popo::Sample<const roudi::ServiceRegistry>& serviceRegistrySample) {
         *m_serviceRegistry = *serviceRegistrySample;
     });
@@ -41,6 +39,8 @@ void ServiceDiscovery::findService(const optional<capro::IdString_t>& service,
                                    const function_ref<void(const capro::ServiceDescription&)> callableForEach,
                                    const popo::MessagingPattern pattern) noexcept
 {
+    // allows us to use findService concurrently; the registry must not be updated by another thread during the search
+    std::lock_guard<std::recursive_mutex> lock(m_serviceRegistryMutex);
     update();
 
     switch (pattern)
-- 
2.43.0


From 8a99fbad989bad14e74cdc2aeda4801b09e21474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 25/26] fix: destroy the port of a C publisher only once

iox_pub_deinit marked the port for destruction and the destructor did it again. In between
RouDi may have reclaimed the port and handed it to someone else, whose publisher was
destroyed then.
---
 iceoryx_binding_c/source/c_publisher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/iceoryx_binding_c/source/c_publisher.cpp b/iceoryx_binding_c/source/c_publisher.cpp
index 5ff63be..f5e90ce 100644
--- a/iceoryx_binding_c/source/c_publisher.cpp
+++ b/iceoryx_binding_c/source/c_publisher.cpp
@@ -109,7 +109,6 @@ void iox_pub_deinit(iox_pub_t const self)
 {
     IOX_ENFORCE(self != nullptr, "'self' must not be a 'nullptr'");
 
-    self->m_portData->m_toBeDestroyed.store(true, std::memory_order_relaxed);
     delete self;
 }
 
-- 
2.43.0


From f8732457fc5d165ae91a9541bb1896b4b9163b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 26/26] fix: detach a C subscriber before its port is destroyed

The destructor handed the port over to RouDi while the trigger, whose reset accesses the
port, was still attached.
---
 iceoryx_binding_c/source/cpp2c_subscriber.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iceoryx_binding_c/source/cpp2c_subscriber.cpp b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
index e7458f5..4261493 100644
--- a/iceoryx_binding_c/source/cpp2c_subscriber.cpp
+++ b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
@@ -22,6 +22,9 @@ using namespace iox::popo;
 
 cpp2c_Subscriber::~cpp2c_Subscriber() noexcept
 {
+    // the detachment accesses the port, therefore it must be done before the port is handed over to RouDi for destruction
+    m_trigger.reset();
+
     if (m_portData)
     {
         iox::popo::SubscriberPortUser(m_portData).destroy();
-- 
2.43.0

