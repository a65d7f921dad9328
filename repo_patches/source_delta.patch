From 1a60246e1be262e1ffc10bce6b715422f7c763b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 01/25] fix: keep the clearing hand of the cache clock inside
 its bookkeeping

A CACHE-HAND-SPREAD of at least the number of slots made LRU::init write
behind the reference marks and the clearing hand start outside of them.
---
 cache/lru.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..8acbfdc 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -82,7 +82,8 @@ public:
 			// Some default value
 			m_nextClear = size / 2;
 		else
-			m_nextClear = handDiff;
+			// The hands run on a circle
+			m_nextClear = handDiff % size;
 
 		m_referenced = new bool[size];
 		// Rest of the array will bet set to "false" by getFree()
-- 
2.43.0


From 7bf0a7243eef0ffb9148f80d2eb6eb9968e27456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 02/25] fix: do not overwrite the default block size of the
 time dimension

---
 grid/level/blocked.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..048f3c0 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -114,9 +114,11 @@ protected:
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
 				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
+				if (timeDimension < 0 || i != this->dimensions() - timeDimension - 1)
+					m_blockSize[i] = 64;
+			}
 			else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
-- 
2.43.0


From 4fc1a1c45a780f342d549aa7b0ea04cc0fab0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 03/25] fix: keep the index inside the grid for coordinates
 that are not a number

---
 grid/level/level.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..10c3e66 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -358,12 +358,12 @@ protected:
 		for (int i = m_dims-1; i >= 0; i--) {
 			double x = round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]);
 
-			if (x < 0 || x >= m_size[i]) {
+			if (!(x >= 0 && x < m_size[i])) {
 				logWarning() << "ASAGI: Coordinate in dimension" << (m_dims-i-1) << " is out of range. Fixing.";
-				if (x < 0)
-					x = 0;
-				else
+				if (x >= m_size[i])
 					x = m_size[i]-1;
+				else // Too small or not a number
+					x = 0;
 			}
 
 			index[i] = x;
-- 
2.43.0


From a2504f9e673e9fc3200d2159cfc023cec00677ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 04/25] fix: pin the communication thread to the requested CPU
 for negative CPU ids

---
 mpi/commthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..9d5f4be 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From 8b636e1a9d4ec28be06c37435e2013e29cd227af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 05/25] fix: do not drop another entry when deleting an entry
 that is not in the dictionary

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..a34395a 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -193,6 +193,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// The entry was already replaced by newer ones
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From 139197a9619734de32f704e9081cd836f7f843fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 06/25] fix: give ASAGI_INVALID_VAR_SIZE the value of
 asagi::Grid::INVALID_VAR_SIZE

---
 include/asagi.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/asagi.h b/include/asagi.h
index c9a6757..8b9de1e 100644
--- a/include/asagi.h
+++ b/include/asagi.h
@@ -438,7 +438,6 @@ typedef enum {
 	ASAGI_VAR_NOT_FOUND,
 	ASAGI_WRONG_SIZE,
 	ASAGI_UNSUPPORTED_DIMENSIONS,
-	ASAGI_MULTIPLE_TOPGRIDS,
 	ASAGI_INVALID_VAR_SIZE
 } asagi_error;
 #endif
-- 
2.43.0


From eb3d8dc5c2e665e7ea0857984d9a2bb418541597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 07/25] fix: use the NUMA aware cache if and only if NUMA
 communication is enabled

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..c3faeed 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -347,9 +347,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From 1befecc32a52c3083d0f6fa0e16bc3ba8b2cf9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 08/25] fix: return the counter of the requested level

---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index c3faeed..5eef5ee 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -257,7 +257,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From eee059a0d20fa36f467d85c2af374bf06332c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 09/25] fix: let spurious wake-ups not release threads from the
 barrier

---
 threads/sync.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..865f8ae 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -108,7 +108,7 @@ public:
 	{
 		if (!pthread_mutex_lock(&m_mutex))
 
-		if (m_finishing) {
+		while (m_finishing) {
 			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
 				return false;
 		}
@@ -139,14 +139,17 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			// The loop ignores spurious wake-ups
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From 7f0f61f3c1a6627d59cb3929a864db8212cde9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 10/25] fix: do not copy and destroy opened levels when another
 level is added

---
 grid/simplecontainer.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..1efa8fa 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -38,7 +38,7 @@
 #ifndef GRID_SIMPLECONTAINER_H
 #define GRID_SIMPLECONTAINER_H
 
-#include <vector>
+#include <deque>
 
 #include "typedcontainer.h"
 
@@ -54,8 +54,8 @@ template<class Level, class Type>
 class SimpleContainer : public TypedContainer<Type>
 {
 private:
-	/** All grids we control */
-	std::vector<Level> m_levels;
+	/** All grids we control (adding a level must not copy the others) */
+	std::deque<Level> m_levels;
 
 public:
 	/**
@@ -82,9 +82,8 @@ public:
 			int cacheHandSpread,
 			unsigned int level)
 	{
-		if (m_levels.size() <= level)
-			m_levels.resize(level+1,
-					Level(this->comm(), this->numa(), this->type()));
+		while (m_levels.size() <= level)
+			m_levels.emplace_back(this->comm(), this->numa(), this->type());
 
 		asagi::Grid::Error err = m_levels[level].open(
 				filename,
-- 
2.43.0


From dcb643ab228365c59a43bdb43b5dbc2c174fd8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 11/25] fix: typed get functions convert the first element of
 arrays and structs

---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..7839571 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -143,6 +143,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversions of the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..871f521 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -214,6 +214,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversions of the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From 5b53e52c50cf35a1faa271277d39116688fca7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 12/25] fix: keep a valid communicator if duplicating the new
 one fails

---
 mpi/mpicomm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f6d8d48..23cb985 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -105,11 +105,13 @@ public:
 	{
 		std::lock_guard<Lock> lock(mpiLock);
 
-		freeComm();
-
-		if (MPI_Comm_dup(comm, &m_comm) != MPI_SUCCESS)
+		MPI_Comm newComm;
+		if (MPI_Comm_dup(comm, &newComm) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
 
+		freeComm();
+		m_comm = newComm;
+
 		if (MPI_Comm_rank(m_comm, &m_rank) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
 		if (MPI_Comm_size(m_comm, &m_size) != MPI_SUCCESS)
-- 
2.43.0


From d62d2daa3852b1bf52c7715e003c9a6a0f071af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 13/25] fix: do not pass a negative color to MPI_Comm_split

---
 asagi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..1d1adc9 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -109,7 +109,7 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 	assert(mpiResult == MPI_SUCCESS);
 
 	MPI_Comm nodeComm;
-	mpiResult = MPI_Comm_split(comm, hash, rank, &nodeComm);
+	mpiResult = MPI_Comm_split(comm, static_cast<int>(hash & 0x7fffffff), rank, &nodeComm);
 	assert(mpiResult == MPI_SUCCESS);
 
 	// Gather all proc names of this node to detect Adler32 collisions
-- 
2.43.0


From 784b00415605d820371427f95dad4ad34dc87e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 14/25] fix: report variables without dimensions or without
 values

---
 io/netcdfreader.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/io/netcdfreader.cpp b/io/netcdfreader.cpp
index 801bcf4..3c093bd 100644
--- a/io/netcdfreader.cpp
+++ b/io/netcdfreader.cpp
@@ -90,7 +90,7 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 
 	nc_inq_varndims(m_file, m_variable, &m_dimensions);
 	
-	if (m_dimensions > MAX_DIMENSIONS) {
+	if (m_dimensions < 1 || m_dimensions > MAX_DIMENSIONS) {
 		logDebug(m_rank) << "Unsupported number of variable dimensions:"
 			<< m_dimensions;
 
@@ -114,6 +114,14 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 		nc_inq_dim(m_file, dimIds[i], name, &size);
 		m_names[i] = name;
 		m_size[i] = size;
+
+		if (size == 0) {
+			logDebug(m_rank) << "Dimension" << m_names[i] << "has no values";
+
+			nc_close(m_file);
+			m_file = -1;
+			return asagi::Grid::WRONG_SIZE;
+		}
 		
 		// Output C order since Level will reverse the order for the end-user
 		logDebug(m_rank) << "\t dimension" << (m_dimensions-i-1) << ":="
-- 
2.43.0


From e93baf5a33b6020d74b9a8b793cf9238264ea8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 15/25] fix: report a failed allocation to all NUMA domains

---
 numa/numacomm.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/numa/numacomm.h b/numa/numacomm.h
index 4f67bb8..71d4726 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -131,15 +131,20 @@ public:
 	template<class Allocator, typename T>
 	asagi::Grid::Error allocate(unsigned long size, T* &data)
 	{
-		if (domainId() == 0) {
+		asagi::Grid::Error allocErr = asagi::Grid::SUCCESS;
+		if (domainId() == 0)
 			// Allocate the memory with the master thread
-			asagi::Grid::Error err = Allocator::allocate(size * totalDomains(), data);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-		}
+			allocErr = Allocator::allocate(size * totalDomains(), data);
+
+		// All domains have to know if the allocation was successful
+		asagi::Grid::Error err = broadcast(allocErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (allocErr != asagi::Grid::SUCCESS)
+			return allocErr;
 
 		// Broadcast the pointer to all domains
-		asagi::Grid::Error err = broadcast(data);
+		err = broadcast(data);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From 52c5b4319586adc314ea66c5144eafb567dc2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 16/25] fix: NoNuma::registerThread accepts the NUMA detection
 flag

---
 numa/nonuma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numa/nonuma.h b/numa/nonuma.h
index 8c39aaa..7a5da54 100644
--- a/numa/nonuma.h
+++ b/numa/nonuma.h
@@ -72,7 +72,7 @@ public:
 	 * @param[out] masterThread Will be set to <code>true</code> since only
 	 *  one thread should exist.
 	 */
-	asagi::Grid::Error registerThread(bool &masterThread)
+	asagi::Grid::Error registerThread(bool &masterThread, bool detectNumaDomains = true)
 	{
 		masterThread = true;
 		return asagi::Grid::SUCCESS;
-- 
2.43.0


From 7ba42af7898418f893cf0f709dc91d7edd325f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 17/25] fix: name of the file_loads counter in the
 documentation

---
 documentation/user/02_usage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/documentation/user/02_usage.h b/documentation/user/02_usage.h
index 88826e2..156292d 100644
--- a/documentation/user/02_usage.h
+++ b/documentation/user/02_usage.h
@@ -297,7 +297,7 @@
  *   <td>Number of blocks transfered between processes</td>
  *  </tr>
  *  <tr>
- *   <td>file_load</td>
+ *   <td>file_loads</td>
  *   <td>Number of blocks loaded from file (after initialization)</td>
  *  </tr>
  *  <tr>
-- 
2.43.0


From 982695f44596cb52fc56377c1f5ff933c1284b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 18/25] fix: receive the dictionary entry with the tag it is
 sent with

---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..631a6ca 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -469,7 +469,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From b9d782d222aa1be615187cda4f59465a6eb7886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 19/25] fix: report a failed allocation of the cache dictionary

---
 transfer/mpicache.h       | 11 +++++++++--
 transfer/mpithreadcache.h |  8 +++++---
 transfer/mpiwincache.h    |  4 +++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index a34395a..620fe11 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -101,13 +101,20 @@ protected:
 		m_rankCacheSize = cacheSize * numaComm.totalDomains();
 
 		// Allocate the memory and broadcast the pointer
+		asagi::Grid::Error allocErr = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
-			Allocator::allocate(
+			allocErr = Allocator::allocate(
 					blockCount * totalDictEntrySize() * numaComm.totalDomains(),
 					m_dictionary);
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_dictionary);
+		asagi::Grid::Error err = numaComm.broadcast(allocErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (allocErr != asagi::Grid::SUCCESS)
+			return allocErr;
+
+		err = numaComm.broadcast(m_dictionary);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 631a6ca..cd5d0d3 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -363,8 +363,10 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
@@ -378,7 +380,7 @@ public:
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
 			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
@@ -404,7 +406,7 @@ public:
 			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..61b503d 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -166,8 +166,10 @@ public:
 			return err;
 
 		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-- 
2.43.0


From 932954c98d9b21d35b31c9b934fbe7ca0efc8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 20/25] fix: no grid sees an array or struct type before its
 MPI type exists

---
 types/arraytype.h  | 18 ++++++------------
 types/structtype.h | 15 +++++----------
 2 files changed, 11 insertions(+), 22 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 7839571..d70d65d 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -94,28 +94,22 @@ public:
 
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
-		// Lock the array size
-		m_lock.lock();
+		// Lock the array size (and the mpi datatype)
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
-			m_arraySize = arraySize;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			// Create the mpi datatype
-			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
+			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
-			if (arraySize != m_arraySize)
-				return asagi::Grid::WRONG_SIZE;
-		}
+			m_arraySize = arraySize;
+		} else if (arraySize != m_arraySize)
+			return asagi::Grid::WRONG_SIZE;
 
 		return asagi::Grid::SUCCESS;
 	}
diff --git a/types/structtype.h b/types/structtype.h
index 871f521..4f74633 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -144,13 +144,10 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		// Lock the size (and the mpi datatype)
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
-			m_size = size;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			MPI_Datatype tmpType;
 
@@ -181,12 +178,10 @@ public:
 			m_displacements = 0L;
 			m_types = 0L;
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
-			if (size != m_size)
-				return asagi::Grid::WRONG_SIZE;
-		}
+			m_size = size;
+		} else if (size != m_size)
+			return asagi::Grid::WRONG_SIZE;
 
 		return asagi::Grid::SUCCESS;
 	}
-- 
2.43.0


From a3362d329c18ac49aea8bb84562c015662864a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 21/25] fix: take the MPI lock for every MPI call outside of
 the communication thread

---
 asagi.cpp          | 2 ++
 mpi/mpicomm.h      | 1 +
 types/arraytype.h  | 7 ++++++-
 types/structtype.h | 7 ++++++-
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/asagi.cpp b/asagi.cpp
index 1d1adc9..bd34838 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -88,6 +88,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 	procName_t procName;
 	int procNameLength;
 
+	std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+
 	MPI_Get_processor_name(procName, &procNameLength);
 	assert(procNameLength <= MPI_MAX_PROCESSOR_NAME);
 
diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index 23cb985..5ff3120 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -149,6 +149,7 @@ public:
 	 */
 	void barrier() const
 	{
+		std::lock_guard<Lock> lock(mpiLock);
 		MPI_Barrier(m_comm);
 	}
 
diff --git a/types/arraytype.h b/types/arraytype.h
index d70d65d..236a332 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -44,6 +44,7 @@
 
 #include "basictype.h"
 #include "io/netcdfreader.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -79,8 +80,10 @@ public:
 	virtual ~ArrayType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 #endif // ASAGI_NOMPI
 	}
 
@@ -99,6 +102,8 @@ public:
 
 		if (m_arraySize == 0) {
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
diff --git a/types/structtype.h b/types/structtype.h
index 4f74633..2dacf8e 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -43,6 +43,7 @@
 #include <mutex>
 
 #include "basictype.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -128,8 +129,10 @@ public:
 	virtual ~StructType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 
 		delete [] m_blockLength;
 		delete [] m_displacements;
@@ -149,6 +152,8 @@ public:
 
 		if (m_size == 0) {
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Datatype tmpType;
 
 			// Create the mpi datatype
-- 
2.43.0


From 817114a166e676b2673f092f5a8901f3abe74151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 22/25] fix: close the file if opening a level failed before
 and is tried again

---
 grid/level/level.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/level/level.h b/grid/level/level.h
index 10c3e66..7a6a729 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -218,6 +218,9 @@ protected:
 
 		asagi::Grid::Error err;
 
+		// Opening this level may have failed before
+		closeInputFile();
+
 		// Open NetCDF file
 		m_inputFile = new io::NetCdfReader(filename, comm().rank());
 		if ((err = m_inputFile->open(varname)) != asagi::Grid::SUCCESS)
-- 
2.43.0


From 33879941e418573eaf1f276d6f903036480d8fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 23/25] fix: return the error of the own NUMA domain when
 opening a grid

---
 grid/grid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 5eef5ee..bb90b52 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -241,11 +241,16 @@ asagi::Grid::Error grid::Grid::open(const char* filename, unsigned int level)
 	}
 
 	// Synchronize the return value (also acts as a barrier)
-	asagi::Grid::Error err2 = m_numa.broadcast(err);
+	asagi::Grid::Error result = err;
+	asagi::Grid::Error err2 = m_numa.broadcast(result);
 	if (err2 != asagi::Grid::SUCCESS)
 		return err2;
 
-	return err;
+	// Do not lose an error that occurred in this NUMA domain only
+	if (err != asagi::Grid::SUCCESS)
+		return err;
+
+	return result;
 }
 
 unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
-- 
2.43.0


From c8f79bdac0932cab4e1765b2517f6e4b37adeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 24/25] fix: keep the sign of negative values of TIME-DIMENSION
 and CACHE-HAND-SPREAD

---
 grid/grid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index bb90b52..7ec12a1 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -201,8 +201,11 @@ void grid::Grid::setParam(const char* name, const char* value, unsigned int leve
 	std::replace(n.begin(), n.end(), '-', '_');
 
 	// Convert non name values to upper case
+	// (but keep the sign of numbers)
 	std::string v = value;
 	if (n != "VARIABLE"
+			&& n != "TIME_DIMENSION"
+			&& n != "CACHE_HAND_SPREAD"
 			&& !utils::StringUtils::startsWith(n, "BLOCK_SIZE_")) {
 		utils::StringUtils::toUpper(v);
 		std::replace(v.begin(), v.end(), '-', '_');
-- 
2.43.0


From 66788c0bcac0180f4ec7c8dc850c6b75037c8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:02 +0000
Subject: [PATCH 25/25] fix: no thread uses the array of handles while another
 one adds a handle

---
 fortran/pointerarray.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..907a7f4 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -61,9 +61,10 @@ private:
 	std::vector<T*> m_pointers;
 
 	/**
-	 * Lock, we use to make sure only one thread at a time adds a pointer
+	 * Lock, we use to make sure no thread uses the array while another
+	 * one adds a pointer
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +86,8 @@ public:
 	 */
 	T* get(int i) const
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +99,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0

