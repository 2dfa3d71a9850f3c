From f4ab8c21c1c949a6922db05bc74b7099c5994f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 01/41] fix: PagedStack::clear() empties the first page too

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..4282a01 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -530,6 +530,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From 2528e0369536a4c0bfac5c446cae59cdf09697c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 02/41] fix: PagedStack::discard() clears a page discarded from
 its first element

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 4282a01..520cfa5 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -113,6 +113,7 @@ private:
       {
          if (m_curBase != m_base.begin())
          {
+            m_curBase->clear();
             m_curBase--;
          }
          else {
-- 
2.43.0


From bb271ceb73afb9cafb66b524500fbb86a262bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 03/41] fix: reverse iteration of PagedStack ends at the top
 page, not at the last allocated one

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 520cfa5..7830324 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -567,8 +567,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From f65d202eaedefe29729fc1778ac4c22a19598459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 04/41] fix: copies of a PagedStack sync iterator are counted
 as live iterators

---
 src/include/falcon/engine/pagedstack.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7830324..6e68787 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -146,6 +146,11 @@ private:
         }
    }
 
+   void addSyncIterator() const noexcept {
+      std::lock_guard<_Mutex> guard(m_mutex);
+      ++m_syncIterCount;
+   }
+
    void removeSyncIterator() const noexcept {
       std::lock_guard<_Mutex> guard(m_mutex);
       if(--m_syncIterCount == 0 && m_shrinkRequest) {
@@ -343,6 +348,26 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other) noexcept:
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         m_owner->addSyncIterator();
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) noexcept {
+         // counting the new owner first makes self-assignment harmless.
+         other.m_owner->addSyncIterator();
+         m_owner->removeSyncIterator();
+         m_iBase = other.m_iBase;
+         m_iData = other.m_iData;
+         m_iBaseBegin = other.m_iBaseBegin;
+         m_owner = other.m_owner;
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From 51326d4c534de20f069e6fa8208ce69664a02813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 05/41] fix: const_sync_iterator::get() of PagedStack compiles

---
 src/include/falcon/engine/pagedstack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 6e68787..a88769a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 #include <falcon/engine/distribute.h>
 #include <mutex>
 
@@ -309,7 +310,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(std::remove_const_t<_TT>& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
-- 
2.43.0


From 6b25d36f613d17c3fd274377469fe023d437d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 06/41] fix: copies of a PagedStack work on their own pages

---
 src/include/falcon/engine/pagedstack.h | 37 ++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index a88769a..135e27e 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -138,6 +138,21 @@ private:
       internal_push(std::forward<_Args>(__args)...);
    }
 
+   // The page iterator of a copy must refer to the pages of the copy.
+   void copyPages(const PagedStack& other) {
+      typename base_type::const_iterator iter = other.m_base.begin();
+      while(true) {
+         m_base.emplace_back(m_dataAllocator);
+         m_base.back().reserve(m_pageSize);
+         m_base.back().assign(iter->begin(), iter->end());
+         if(iter == other.m_curBase) {
+            break;
+         }
+         ++iter;
+      }
+      m_curBase = --m_base.end();
+   }
+
    void internal_shrink_to_fit() {
         typename base_type::iterator iter = m_curBase;
         ++iter;
@@ -458,6 +473,28 @@ public:
       m_curBase = m_base.begin();
    }
 
+   PagedStack(const PagedStack& other):
+            m_pageSize(other.m_pageSize),
+            m_allocSize(other.m_allocSize),
+            m_base(page_allocator_type(other.m_dataAllocator)),
+            m_dataAllocator(other.m_dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      copyPages(other);
+   }
+
+   PagedStack& operator=(const PagedStack& other) {
+      if(this != &other) {
+         PagedStack copy(other);
+         std::lock_guard<_Mutex> guard(m_mutex);
+         m_pageSize = copy.m_pageSize;
+         m_allocSize = copy.m_allocSize;
+         m_base.swap(copy.m_base);
+         m_curBase = copy.m_curBase;
+      }
+      return *this;
+   }
+
    void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
-- 
2.43.0


From 38f674b4d935c799769448c6db97d0ad6f585226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 07/41] fix: Futex restarts its spin count after yielding

---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..228e037 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -57,6 +57,7 @@ public:
 
          if(spinCount && --sc == 0) {
             std::this_thread::yield();
+            sc = spinCount;
          }
       }
    }
-- 
2.43.0


From 8f3e2518c4b520f1574e3c84d945f4bc298436d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 08/41] fix: RFutex::lock() returns once the lock is taken or
 already owned

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 228e037..40a15a4 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -95,7 +95,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
-- 
2.43.0


From 10fa57bed0aac61e4c1cef585167154596881d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 09/41] fix: a thread that never locked an RFutex is not its
 owner

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 40a15a4..4bf4c35 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -112,7 +112,7 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From 0eb2ca5a96328308eeff4954961586b25fe5c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 10/41] fix: LogSystem initialises its termination flag

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..a98d7ea 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
-- 
2.43.0


From 821a758658f9e5bc99d8e4df106cb97f9eb3b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 11/41] fix: LogSystem::start() works again after stop()

---
 src/engine/logsystem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index a98d7ea..312fca1 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -57,12 +57,18 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		m_mtxMessage.lock();
+		m_isTerminated = false;
+		m_mtxMessage.unlock();
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
+	// no start() can interleave until the thread is joined.
+	std::lock_guard<std::mutex> guard(m_mtxThread);
+
 	// send a killer message
 	m_mtxMessage.lock();
 	m_isTerminated = true;
@@ -71,7 +77,6 @@ void LogSystem::stop() noexcept {
 
 	// now
 	std::thread* the_thread = 0;
-	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
 		return;
 	}
-- 
2.43.0


From 9b882c3f808e82249808b2a0512e0efb4bc34aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 12/41] fix: LogSystem::log() doesn't leak the content of
 reused messages

---
 src/engine/logsystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 312fca1..a4ccb60 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -95,7 +95,13 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
+	// the pooled message is alive: assign it, or its strings would leak.
+	Message* msg = allocateMsg();
+	msg->m_file = file;
+	msg->m_line = line;
+	msg->m_level = level;
+	msg->m_category = cat;
+	msg->m_message = message;
 	log(msg);
 }
 
-- 
2.43.0


From fb8fc65001072f8988722eeae2e8a6d154a68388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 13/41] fix: LogSystem diagnostics don't race with the log
 thread

---
 src/engine/logsystem.cpp       | 7 ++++---
 src/include/falcon/logsystem.h | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index a4ccb60..366c581 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -254,6 +254,7 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
+	std::lock_guard<std::mutex> guard(m_mtxListeners);
 	m_activeListeners.erase(
 			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
 					[](auto& listener) { return listener->isDetached(); }),
@@ -266,9 +267,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -282,6 +280,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+				[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..333e483 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -267,7 +267,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
-- 
2.43.0


From afa18672af5e98880d6dbfc98e27de2d26eba37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 14/41] fix: detached log listeners receive no further message

---
 src/engine/logsystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 366c581..e792759 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -202,6 +202,7 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
 		if(listener->isEnabled()
+				&& !listener->isDetached()
 				&& listener->level() >= msg->m_level
 				&& listener->checkCategory(msg->m_category))
 		{
-- 
2.43.0


From 3909053a9a28b8f2e615223eeec03d7221710e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 15/41] fix: Listener::category() doesn't expose the category
 outside of its lock

---
 src/include/falcon/logsystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 333e483..9191a28 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -135,7 +135,7 @@ public:
       /**
        * Returns the current category filter
        */
-      const std::string& category() const noexcept {
+      std::string category() const {
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  return m_category;
       }
-- 
2.43.0


From 3aeb824de5a7ddc7697f1a53537405ab2816479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 16/41] fix: category filtering doesn't print on the standard
 output

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index e792759..3b454ef 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -218,7 +218,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From 6bb81fe389e0614dab8f2aea4728f28a928bb944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 17/41] fix: logger.h can be included by more than one source

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..1ae380c 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -399,7 +399,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From 1aa502785859ea8c0b0d145df8083753d2ff24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 18/41] fix: Logger::clearFilter() is harmless when no filter
 is set

---
 src/engine/logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..3c168cd 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -47,7 +47,11 @@ void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
 
 
 void Logger::clearFilter() {
+	if (! m_proxy.get()) {
+		return;
+	}
 	m_proxy->detach();
+	m_proxy.reset();
 	level(m_proxyBaseLevel);
 }
 
-- 
2.43.0


From 0a9f703fd07d002af5f605c1613dc9c1bde508f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 19/41] fix: replacing a category filter keeps the level to be
 restored

---
 src/engine/logger.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c168cd..e75eaf4 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -32,9 +32,8 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
-	if (m_proxy.get()) {
-		m_proxy->detach();
-	}
+	// back to the levels in force before any filter was set.
+	clearFilter();
 	m_proxyBaseLevel = level();
 	if(l > m_proxyBaseLevel) {
 		level(l);
-- 
2.43.0


From 3e32b4452d95a771fa34d8754a7dece8f399fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 20/41] fix: an invalid category filter leaves the logger
 unchanged

---
 src/engine/logger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index e75eaf4..a1aefd3 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -32,14 +32,17 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
+	// throws on invalid expressions, before anything is changed.
+	std::shared_ptr<LogProxyListener> proxy = std::make_shared<LogProxyListener>(m_dflt);
+	proxy->category(category);
+
 	// back to the levels in force before any filter was set.
 	clearFilter();
 	m_proxyBaseLevel = level();
 	if(l > m_proxyBaseLevel) {
 		level(l);
 	}
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
+	m_proxy = proxy;
 	m_proxy->level(l);
 	addListener(m_proxy);
 }
-- 
2.43.0


From db149ba52c086cb45dce1f7ecf33ebca2c112893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 21/41] fix: a category filter doesn't make the default
 listener show more, as documented

---
 src/engine/logger.cpp       | 5 +++++
 src/include/falcon/logger.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index a1aefd3..23f67d7 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -39,6 +39,10 @@ void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
 	// back to the levels in force before any filter was set.
 	clearFilter();
 	m_proxyBaseLevel = level();
+	m_dfltBaseLevel = m_dflt->level();
+	if(m_dfltBaseLevel > m_proxyBaseLevel) {
+		m_dflt->level(m_proxyBaseLevel);
+	}
 	if(l > m_proxyBaseLevel) {
 		level(l);
 	}
@@ -55,6 +59,7 @@ void Logger::clearFilter() {
 	m_proxy->detach();
 	m_proxy.reset();
 	level(m_proxyBaseLevel);
+	m_dflt->level(m_dfltBaseLevel);
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1ae380c..d545dd7 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -375,6 +375,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From f07976ab5455102ac69be3a380c5aa0bb8c85580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 22/41] fix: ItemData built from a pointer holds that pointer,
 not its address

---
 src/include/falcon/engine/itemdata.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..fec2fca 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -45,6 +45,8 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_pointer_v<T> || std::is_null_pointer_v<T>) {
+            ptrValue = value;
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From 404646d302ad0f2b21081d5860b2b0a49b8e7fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 23/41] fix: Item::get() compiles

---
 src/include/falcon/engine/item.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..37406d5 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -91,8 +91,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From 915c6099eaa95985941e5bb66eb7384af86352bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 24/41] fix: converting a non-numeric string item to integer
 doesn't terminate the program

---
 src/include/falcon/engine/stringhandler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/stringhandler.h b/src/include/falcon/engine/stringhandler.h
index 4116e84..1936a79 100644
--- a/src/include/falcon/engine/stringhandler.h
+++ b/src/include/falcon/engine/stringhandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_STRINGHANDLER_H_
 
 #include "falcon/engine/deepflatcopyhandler.h"
+#include <cstdlib>
 
 
 namespace falcon {
@@ -27,7 +28,7 @@ struct StringHandler: public DeepFlatCopyHandler<String> {
     String toString(ItemData data) const noexcept override { return *reinterpret_cast<String *>(data.ptrValue); }
 
     bool toBool(ItemData data) const noexcept override { return !reinterpret_cast<String *>(data.ptrValue)->empty(); }
-    int64 toInt(ItemData data) const noexcept override { return std::stoll(*reinterpret_cast<String *>(data.ptrValue)); }
+    int64 toInt(ItemData data) const noexcept override { return std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10); }
 };
 
 }
-- 
2.43.0


From 31382b9af49459b3e40ed00f016f6f429886d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 25/41] fix: copies of an item own their value

---
 src/include/falcon/engine/deephandler.h |  1 +
 src/include/falcon/engine/flathandler.h |  1 +
 src/include/falcon/engine/handler.h     |  1 +
 src/include/falcon/engine/item.h        | 10 ++++++++++
 4 files changed, 13 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..8204b9e 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -25,6 +25,7 @@ struct DeepHandler: public Handler {
     virtual ~DeepHandler() {}
 
     ItemData allocate() const override {return new T;}
+    ItemData copy(ItemData data) const override {return new T(*reinterpret_cast<T *>(data.ptrValue));}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
 
     bool isFlat() const noexcept override { return false; }
diff --git a/src/include/falcon/engine/flathandler.h b/src/include/falcon/engine/flathandler.h
index 8e379f0..e91030f 100644
--- a/src/include/falcon/engine/flathandler.h
+++ b/src/include/falcon/engine/flathandler.h
@@ -23,6 +23,7 @@ struct FlatHandler: public Handler {
     virtual ~FlatHandler() {}
 
     ItemData allocate() const override { return ItemData(false); }
+    ItemData copy(ItemData data) const override { return data; }
     void destroy(ItemData) const noexcept override {}
     
     bool isFlat() const noexcept override{ return true; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..15d635b 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -30,6 +30,7 @@ struct Handler {
     virtual bool isCopyFlat() const noexcept = 0;
 
     virtual ItemData allocate() const =0;
+    virtual ItemData copy(ItemData data) const =0;
     virtual void destroy(ItemData data) const noexcept =0;
 
     virtual String typeName() const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index 37406d5..adfeeba 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -69,6 +69,16 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->copy(other.data)), handler(other.handler) {}
+
+    Item& operator=(const Item& other) {
+        ItemData copied = other.handler->copy(other.data);
+        handler->destroy(data);
+        data = copied;
+        handler = other.handler;
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From 9af9e64c85b3e35585c8a43e7a89982473682c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 26/41] fix: Code fits sources of any length

---
 src/engine/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..1684427 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -19,7 +19,7 @@
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
+		m_source(source), m_line(line), m_data(new char[source.size()+1])
 {
 	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
 	m_data[m_source.size()] = 0;
-- 
2.43.0


From b364df98fad73c24d675b0322fc4ada78976c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 27/41] fix: copies of a Code object own their data

---
 src/engine/code.cpp              | 11 ++++++++++-
 src/include/falcon/engine/code.h |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 1684427..a12c121 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -26,7 +26,7 @@ Code::Code(const std::string& source, int line) noexcept :
 }
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
+		Code(other.m_source, other.m_line)
 {}
 
 Code::Code(Code&& other) noexcept:
@@ -36,6 +36,15 @@ Code::Code(Code&& other) noexcept:
 	other.m_data = nullptr;
 }
 
+Code& Code::operator=(const Code& other) noexcept
+{
+	Code copy(other);
+	m_source.swap(copy.m_source);
+	m_line = copy.m_line;
+	std::swap(m_data, copy.m_data);
+	return *this;
+}
+
 Code::~Code()
 {
 	delete[] m_data;
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..f89c8b9 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -24,7 +24,7 @@ public:
 	Code(const std::string& source="", int m_line=0) noexcept;
 	Code(const Code& other) noexcept;
 	Code(Code&& other) noexcept;
-	Code& operator=(const Code& other) = default;
+	Code& operator=(const Code& other) noexcept;
 	~Code();
 
 	std::string toString() const noexcept;
-- 
2.43.0


From 7f89b0119b7a4ce50d17183da0496ddfafa921fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 28/41] fix: Code::toString() returns the whole source, also
 after a move

---
 src/engine/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index a12c121..78cd71f 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -51,7 +51,7 @@ Code::~Code()
 }
 
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	return m_source;
 }
 
 }
-- 
2.43.0


From 4fb7dbbd0158a27cadfee266755e646c5bd1073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 29/41] fix: the failure line of a test case is initialised

---
 src/fut/testcase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..efa6be3 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -42,7 +42,7 @@ public:
    std::streambuf *errbuf;
 
    std::string failDesc;
-   int failLine;
+   int failLine{0};
    std::string failFile;
 
    TimeLapse lapse;
-- 
2.43.0


From b8e18458694fb50b9ba679e10886fe4cd4c26f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 30/41] fix: fixtures are torn down also after a test that
 throws

---
 src/fut/testcase.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index efa6be3..27edb18 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -208,9 +208,11 @@ void TestCase::endTest(bool capture)
 
 void TestCase::run()
 {
+   bool isSetUp = false;
    try {
       p->status = NONE;
       SetUp();
+      isSetUp = true;
 
       p->lapse.markBegin();
       test();
@@ -219,7 +221,6 @@ void TestCase::run()
       if(p->status == NONE) {
          p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
       }
-      TearDown();
    }
    catch(std::exception& e) {
       p->lapse.markEnd();
@@ -231,6 +232,21 @@ void TestCase::run()
       p->status = ERROR;
       p->failDesc = "Unknown error caught by falcon::testing framework";
    }
+
+   // the fixture is torn down also if the test has thrown
+   if(isSetUp) {
+      try {
+         TearDown();
+      }
+      catch(std::exception& e) {
+         p->status = ERROR;
+         p->failDesc = e.what();
+      }
+      catch(...) {
+         p->status = ERROR;
+         p->failDesc = "Unknown error caught by falcon::testing framework";
+      }
+   }
 }
 
 int64 TestCase::elapsedTime() const
-- 
2.43.0


From 03701a8efdb615637f641f3f93e73ae0c80937d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 31/41] fix: a repeated test doesn't see the output of its
 previous run

---
 src/fut/testcase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 27edb18..b7fcb28 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -187,6 +187,8 @@ void TestCase::beginTest(bool capture)
    if (capture) {
       p->outbuf = std::cout.rdbuf();
       p->errbuf = std::cerr.rdbuf();
+      p->outCapture.str("");
+      p->errCapture.str("");
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
    }
-- 
2.43.0


From c449355aed03d658f61ecdb9bbe751bb610b6c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 32/41] fix: performing the unit tests again doesn't run every
 test twice

---
 src/fut/unittest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..28a0d91 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -109,6 +109,7 @@ void UnitTest::init()
 void UnitTest::runAllTests()
 {
    // Reorder the tests in components
+   p->componentToPerform.clear();
    int count = 0;
    for(auto tcase: p->testsToPerofm ) {
 
-- 
2.43.0


From e6dd6f4805f9213451bb3f577181be6d3a8dde19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 33/41] fix: tests that were not performed are not reported as
 failed

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 28a0d91..2d652cc 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -224,7 +224,7 @@ void UnitTest::report()
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
-         for(auto tcase: p->tests ) {
+         for(auto tcase: p->testsToPerofm ) {
             if (!hasPassed(tcase))
             {
                if(first) {
-- 
2.43.0


From 22ac1c10969a2462f8ecc9b3a3fdba99c37d2458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 34/41] fix: a verbosity that is not a number is refused

---
 src/fut/unittest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 2d652cc..767a6cc 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -351,8 +351,7 @@ int UnitTest::parseParams(int argc, char* argv[])
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
          int level;
-         is >> level;
-         if(level >= SILENT && level <= REPORT_STDOUT) {
+         if((is >> level) && level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
          }
-- 
2.43.0


From cc2bcc2295ee7728414fba0de0d3e115fc9286a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 35/41] fix: texts in the XML report are escaped

---
 src/fut/unittest.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 767a6cc..d9e64b9 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -410,6 +410,28 @@ void UnitTest::usage() {
 }
 
 
+namespace {
+// Makes a text fit for an XML attribute or element.
+std::string xmlText(const std::string& text)
+{
+   std::string result;
+   for(char c: text) {
+      switch(c) {
+      case '&': result += "&amp;"; break;
+      case '<': result += "&lt;"; break;
+      case '>': result += "&gt;"; break;
+      case '"': result += "&quot;"; break;
+      case '\'': result += "&apos;"; break;
+      case '\t': case '\n': case '\r': result += c; break;
+      default:
+         // XML has no way to represent the other control characters.
+         result += static_cast<unsigned char>(c) < 0x20 ? '?' : c;
+      }
+   }
+   return result;
+}
+}
+
 void UnitTest::saveToXML() const
 {
    std::ofstream fout(p->xmlReport);
@@ -420,29 +442,29 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   fout << "<testsuites id=\""<< xmlText(p->unitTestId) << "\" name=\"" << xmlText(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      fout << "<testsuite id=\"" << xmlText(p->unitTestId) << "." << xmlText(component.name) << "\" "
+           << "name=\"" << xmlText(component.name) << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         fout << "<testcase id=\"" << xmlText(p->unitTestId) << "." << xmlText(component.name) << "." << xmlText(tcasep->caseName()) << "\" "
+              << "name=\"" << xmlText(tcasep->caseName()) << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
+            fout << "<failure message=\"" << xmlText(tcasep->failDesc()) << "\" "
                  << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << xmlText(tcasep->failDesc()) << "\n"
+                 << "File: " << xmlText(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From 1db284c3f18cafd4ca6396b6c6bbdcc8f1fbe5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 36/41] fix: a failed resynchronization leaves the sync
 iterator unchanged

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 135e27e..fb7f4cd 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -421,14 +421,14 @@ private:
 
          }
          // we need to resync.
-         m_iBase = m_owner->m_curBase;
-         if ( m_iBase->size() == 0)
+         if ( m_owner->m_curBase->size() == 0)
          {
             // the stack has been emptied in the meanwhile.
             // any resync operation implies a movement or a dereference
             // hence, we're done.
             throw std::runtime_error("Empty stack while resync");
          }
+         m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
 
          return false;
-- 
2.43.0


From f73f6fd4844d9c1742ca7bfa6cbfd44c5501d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 37/41] fix: a log block that is left early leaves nothing in
 the next line

---
 src/include/falcon/logger.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index d545dd7..2767023 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -340,6 +340,14 @@ public:
 	    		m_obj = &obj;
 	    	}
 	    }
+
+	    // the block didn't complete: nothing of it shall be seen in the next message.
+	    ~BlockEnd () {
+	    	if(m_obj) {
+	    		m_obj->m_tempCategory.clear();
+	    		m_obj->readyStream();
+	    	}
+	    }
 	    void complete() {m_obj->commit(); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
-- 
2.43.0


From cdbc0976250efd4005da4636b14bea9b404d21c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 38/41] fix: a line logged while another one is composed
 doesn't take over its text, place or category

---
 src/include/falcon/logger.h | 46 ++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 2767023..f618fb4 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -301,25 +301,33 @@ public:
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
 	void clearFilter();
 
+	// A line in composition; lines logged while it's open set it aside.
+	struct Line
+	{
+		std::string m_file;
+		int m_line{0};
+		LOGLEVEL m_level{LLTRACE};
+		std::string m_tempCategory;
+		std::string m_text;
+	};
+
 	class AutoEnd
 	{
 	private:
 	    Logger* m_obj;
-	    std::string m_category;
+	    Line m_outer;
 
 	public:
 	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
-	    		obj.setFile(file);
-	    		obj.setLine(line);
-	    		obj.setLevel(lvl);
+	    		obj.openLine(m_outer, file, line, lvl);
 	    		m_obj = &obj;
 	    	}
 	    }
 
-	    ~AutoEnd () {if(m_obj){m_obj->commit();}}
+	    ~AutoEnd () {if(m_obj){m_obj->commit(); m_obj->resumeLine(m_outer);}}
 	    bool doLog() const noexcept {return m_obj != nullptr;}
 	    Logger& obj () const noexcept {return *m_obj;}
 	};
@@ -328,15 +336,14 @@ public:
 	{
 	private:
 	    Logger* m_obj;
+	    Line m_outer;
 
 	public:
 	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
-	    		obj.setFile(file);
-	    		obj.setLine(line);
-	    		obj.setLevel(lvl);
+	    		obj.openLine(m_outer, file, line, lvl);
 	    		m_obj = &obj;
 	    	}
 	    }
@@ -344,11 +351,10 @@ public:
 	    // the block didn't complete: nothing of it shall be seen in the next message.
 	    ~BlockEnd () {
 	    	if(m_obj) {
-	    		m_obj->m_tempCategory.clear();
-	    		m_obj->readyStream();
+	    		m_obj->resumeLine(m_outer);
 	    	}
 	    }
-	    void complete() {m_obj->commit(); m_obj = nullptr;}
+	    void complete() {m_obj->commit(); m_obj->resumeLine(m_outer); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
 
@@ -396,6 +402,24 @@ private:
 		m_composer.clear();
 		m_composer.str("");
 	}
+
+	void openLine(Line& outer, const std::string& file, int line, LOGLEVEL lvl) {
+		outer = Line{m_msgFile, m_msgLine, m_msgLevel, m_tempCategory, m_composer.str()};
+		m_tempCategory.clear();
+		readyStream();
+		setFile(file);
+		setLine(line);
+		setLevel(lvl);
+	}
+
+	void resumeLine(const Line& outer) {
+		m_msgFile = outer.m_file;
+		m_msgLine = outer.m_line;
+		m_msgLevel = outer.m_level;
+		m_tempCategory = outer.m_tempCategory;
+		readyStream();
+		m_composer.write(outer.m_text.data(), outer.m_text.size());
+	}
 };
 
 
-- 
2.43.0


From ee8517274c140bf24f41b9d4f1de026e4ab59d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 39/41] fix: a test run does not inherit the output captured by
 an earlier run

---
 src/fut/testcase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index b7fcb28..a4048e3 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -183,12 +183,16 @@ void TestCase::destroy()
 
 void TestCase::beginTest(bool capture)
 {
+   // whatever an earlier run of this test has captured is forgotten
+   p->outCapture.str("");
+   p->errCapture.str("");
+   p->outCaptureStr.clear();
+   p->errCaptureStr.clear();
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
       p->errbuf = std::cerr.rdbuf();
-      p->outCapture.str("");
-      p->errCapture.str("");
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
    }
-- 
2.43.0


From e4fbec5a02634878d5a51e18b6dcdaf919c7aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 40/41] fix: a test run does not report the failure recorded by
 an earlier run

---
 src/fut/testcase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index a4048e3..e822b6a 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -215,6 +215,12 @@ void TestCase::endTest(bool capture)
 void TestCase::run()
 {
    bool isSetUp = false;
+
+   // the failure of an earlier run is not the failure of this one
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
+
    try {
       p->status = NONE;
       SetUp();
-- 
2.43.0


From 049541a1553c6dc5fecee8fdabad05222be6cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 41/41] fix: EXPECT_FLOAT_EQ and EXPECT_FLOAT_NE compare the
 whole operands

The macros multiplied their argument's text without parentheses, so that
EXPECT_FLOAT_EQ(1.0+1.0, 2.0) compared 1.0+10000.0 with 20000.0 and failed.
---
 src/include/falcon/fut/fut.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..9eb9675 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -86,11 +86,11 @@
 
 
 #define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               ==,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 #define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               !=,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0

