From f5f50105683679f9e580f7dd82c8ebde78d6b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:48 +0000
Subject: [PATCH 01/21] fix: clone_to_no_bias() into an owning matrix with
 biases gave it an extra column

---
 nntl/interface/math/smatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..153507b 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -497,6 +497,7 @@ namespace math {
 					return false;
 				}
 			} else {				
+				dest.m_bEmulateBiases = false;//to make resize() work correctly if dest.m_bEmulateBiases==true
 				if (!dest.resize(m_rows, cnb)) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
-- 
2.43.0


From 32d99d00f6762af525663de35fb530b67679e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:48 +0000
Subject: [PATCH 02/21] fix: strided binary tests stepped past (or short of)
 the last element

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 153507b..c7b1727 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From 3a761805cc22bdd40ff8962aff7288ce9c8a331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:48 +0000
Subject: [PATCH 03/21] fix: smatrix_deform::submatrix_cols_no_bias() lost the
 batch layout of the source

---
 nntl/interface/math/smatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index c7b1727..04fbc42 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1412,7 +1412,7 @@ namespace math {
 			NNTL_ASSERT(numCols);
 			NNTL_ASSERT(colStart + numCols <= cols_no_bias());
 			NNTL_ASSERT(!emulatesBiases() || bBatchInColumn());
-			return smatrix_deform(colDataAsVec(colStart), rows(), numCols, false);
+			return smatrix_deform(colDataAsVec(colStart), rows(), numCols, false, false, bBatchInRow());
 		}
 
 		// #supportsBatchInRow
-- 
2.43.0


From dce97eaa4cf8612572d21a6a10ebd22a95b59217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:48 +0000
Subject: [PATCH 04/21] fix: normal_vector() used the element count as the
 standard deviation

---
 nntl/interface/_i_rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..79498a8 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,7 +235,7 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m,st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
 				ptr[i] = distr(*this);
 			}
-- 
2.43.0


From 2be4f941207d78001b0ab64cf29b00630e4ce244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 05/21] fix: destruction of Workers could hang because of a
 lost wakeup

---
 nntl/interface/threads/workers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/workers.h b/nntl/interface/threads/workers.h
index 177f22c..0fa3acd 100644
--- a/nntl/interface/threads/workers.h
+++ b/nntl/interface/threads/workers.h
@@ -92,11 +92,11 @@ namespace threads {
 
 	public:
 		~Workers()noexcept {
+			//m_bStop must be changed under the lock, or a worker that has already tested it but hasn't fallen asleep yet misses the wakeup
+			m_mutex.lock();
 			m_bStop = true;
-
-			//m_mutex.lock();
 			m_waitingOrders.notify_all();
-			//m_mutex.unlock();
+			m_mutex.unlock();
 
 			for (auto& t : m_threads)  t.join();
 		}
-- 
2.43.0


From 658ada3e857d894db11427d914934dd359ff7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 06/21] fix: BgWorkers threads read their exec flag without
 holding the lock (data race with exec())

---
 nntl/interface/threads/bgworkers.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/bgworkers.h b/nntl/interface/threads/bgworkers.h
index fee760a..4fc49bd 100644
--- a/nntl/interface/threads/bgworkers.h
+++ b/nntl/interface/threads/bgworkers.h
@@ -289,15 +289,17 @@ namespace threads {
 			while (true) {
 				::std::atomic_thread_fence(::std::memory_order_acquire);//for m_taskWaitTO usage before mutex acquisition.
 				const auto sleepUntil = ::std::chrono::steady_clock::now() + m_taskWaitTO;
+				bool bExecNow = false;//bHas2Exec must be read only with the lock held
 				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, m_taskWaitTO
 					, [&bStop = m_bStop, &bGo2Waiting = m_bGo2Waiting
-					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec]()noexcept
+					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec, &bExecNow]()noexcept
 				{
-					return bStop || (::std::chrono::steady_clock::now() > utime && !bGo2Waiting && tasks.size() > 0) || h2e;
+					bExecNow = !!h2e;
+					return bStop || (::std::chrono::steady_clock::now() > utime && !bGo2Waiting && tasks.size() > 0) || bExecNow;
 				});
 				if (m_bStop) break;
 
-				if (bHas2Exec) {
+				if (bExecNow) {
 					m_execFn(id);
 
 					m_mutexTasks.lock_shared();
-- 
2.43.0


From 482a02a014b056daa9be1bb15fb197fe506e6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:52 +0000
Subject: [PATCH 07/21] fix: DataBuffer hands out the same room twice once an
 emptied buffer is completely claimed

---
 nntl/utils/data_buffer.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/data_buffer.h b/nntl/utils/data_buffer.h
index 34e19e9..fb3f87a 100644
--- a/nntl/utils/data_buffer.h
+++ b/nntl/utils/data_buffer.h
@@ -186,6 +186,8 @@ namespace utils {
 		size_t m_afterLastValidIdx{ 0 }; //last initialized element+1, so for a full container it is either 
 										 // equals to m_curIdx if m_curIdx!=0, or equals to m_total. Modifiable only by a one of bgthreads
 		size_t m_afterLastClaimedIdx{ 0 };//last claimed by bgthread element+1. zero means uninitialized
+		size_t m_pending{ 0 };//total count of elements that are claimed by bgthreads, but not delivered yet. It distinguishes
+			// an empty buffer that is completely claimed from an empty buffer nobody has claimed anything in
 		bool m_bEmpty{ true };
 
 	public:
@@ -294,7 +296,7 @@ namespace utils {
 			NNTL_ASSERT(bStateOK());
 
 			size_t r;
-			if (!m_bEmpty && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
+			if (m_pending == m_total || (!m_bEmpty && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total)))) {
 				//the buffer is either already full or will been generated to its full condition soon. Nothing should be done.
 				r = 0;
 			} else {
@@ -343,6 +345,8 @@ namespace utils {
 				}
 			}
 			NNTL_ASSERT(r <= n);
+			m_pending += r;
+			NNTL_ASSERT(m_pending <= m_total);
 			NNTL_ASSERT(m_afterLastClaimedIdx > 0);
 			NNTL_ASSERT(bStateOK());
 			//m_bufMutex.unlock();
@@ -359,7 +363,9 @@ namespace utils {
 
 			NNTL_ASSERT(bStateOK());
 			//NNTL_ASSERT(!m_afterLastValidIdx || m_curIdx != m_afterLastValidIdx);
-			NNTL_ASSERT(m_afterLastValidIdx != m_afterLastClaimedIdx);
+			NNTL_ASSERT(m_afterLastValidIdx != m_afterLastClaimedIdx || m_pending == m_total);
+			NNTL_ASSERT(n <= m_pending);
+			m_pending -= n;
 
 			//deciding where to put the data
 			if (m_afterLastValidIdx < m_afterLastClaimedIdx) {
-- 
2.43.0


From 4f5b552041e7b49c7c54204413d866b32b086dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 08/21] fix: CStd reports the real range of rand() to the
 distributions

---
 nntl/interface/_i_rng.h   | 2 +-
 nntl/interface/rng/cstd.h | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index 79498a8..03e4275 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -237,7 +237,7 @@ namespace rng {
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
 			::std::normal_distribution<real_t> distr(m,st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
-				ptr[i] = distr(*this);
+				ptr[i] = distr(get_self());
 			}
 		}
 		void normal_matrix(realmtx_t& A, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
diff --git a/nntl/interface/rng/cstd.h b/nntl/interface/rng/cstd.h
index 53825d0..ec8f1ef 100644
--- a/nntl/interface/rng/cstd.h
+++ b/nntl/interface/rng/cstd.h
@@ -76,6 +76,11 @@ namespace rng {
 		//int_4_random_shuffle_t operator()(int_4_random_shuffle_t lessThan)noexcept { return gen_i(lessThan); }
 
 		static int_4_distribution_t gen_int()noexcept { return static_cast<int_4_distribution_t>(_rand()); }
+#ifndef _CRT_RAND_S
+		//rand() never returns negative values, so the range of gen_int() is not the full range of the type
+		static constexpr int_4_distribution_t min() noexcept { return 0; }
+		static constexpr int_4_distribution_t max() noexcept { return RAND_MAX; }
+#endif
 
 		//////////////////////////////////////////////////////////////////////////
 		//generate FP value in range [0,a]
-- 
2.43.0


From c9d35eac938c6c34077c922ce11c180f50e6babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 09/21] fix: walk_over_set() must not drop the last sample when
 the remainder of the division by the batch size is 1

---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..ddc6c16 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -366,7 +366,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..0848e75 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -442,7 +442,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From 1b8c1f48ba9b392b813f1acc1d1fedb3e9783a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:43 +0000
Subject: [PATCH 10/21] fix: is_initialized4train() must not touch its
 arguments on failure nor promise minibatches in a fullbatch training mode

---
 nntl/train_data/_train_data_simple.h | 8 +++++---
 nntl/train_data/transf_train_data.h  | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index ddc6c16..ecc8d0b 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -162,13 +162,15 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;//args must be left untouched if we're to return false
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
-				bMiniBatch = !m_batch_x.empty();
+				bMiniBatch = m_bMiniBatchTraining;//m_batch_x may also be used for the inferencing only
 				return true;
 			}
 
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 0848e75..1fe3f30 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -280,12 +280,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;//args must be left untouched if we're to return false
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes
 				const auto dr = ::std::div(tbs, m_TFunct.samplesInBaseSample());
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| 0 != dr.rem || tbs > fpropBs) return false;
+					|| 0 != dr.rem || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = dr.quot < get_self().base_trainset_samples_count();
 				return true;
-- 
2.43.0


From 5d10ee60117cf28891a0cd58b69c5b39cb9b6524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:42 +0000
Subject: [PATCH 11/21] fix: in-memory train data must compare samples and
 features instead of rows and columns to support batch-in-row data

---
 nntl/train_data/inmem_train_data_stor.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nntl/train_data/inmem_train_data_stor.h b/nntl/train_data/inmem_train_data_stor.h
index 00ff57c..3f91f2e 100644
--- a/nntl/train_data/inmem_train_data_stor.h
+++ b/nntl/train_data/inmem_train_data_stor.h
@@ -176,10 +176,10 @@ namespace nntl {
 			static bool absorbsion_will_succeed(const x_mtxdef_t& _train_x, const y_mtxdef_t& _train_y
 				, const x_mtxdef_t& _test_x, const y_mtxdef_t& _test_y)noexcept //, const bool noBiasEmulationNecessary) noexcept
 			{
-				return !_train_x.empty() && !_train_y.empty() && _train_x.rows() == _train_y.rows()
-					&& !_test_x.empty() && !_test_y.empty() && _test_x.rows() == _test_y.rows()
-					&& _train_y.cols() == _test_y.cols()
-					&& _train_x.cols() == _test_x.cols()
+				return !_train_x.empty() && !_train_y.empty() && _train_x.batch_size() == _train_y.batch_size()
+					&& !_test_x.empty() && !_test_y.empty() && _test_x.batch_size() == _test_y.batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size() && _train_y.bBatchInRow() == _test_y.bBatchInRow()
+					&& _train_x.sample_size() == _test_x.sample_size() && _train_x.bBatchInRow() == _test_x.bBatchInRow()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& _train_x.emulatesBiases() && _test_x.emulatesBiases()
 					&& !_train_x.bDontManageStorage() && !_test_x.bDontManageStorage()
@@ -191,9 +191,9 @@ namespace nntl {
 			// #supportsBatchInRow
 			bool replace_Y_will_succeed(const y_mtxdef_t& _train_y, const y_mtxdef_t& _test_y)const noexcept
 			{
-				return !_train_y.empty() && _train_y.rows() == train_y().rows()
-					&& !_test_y.empty() && _test_y.rows() == test_y().rows()
-					&& _train_y.cols() == _test_y.cols()
+				return !_train_y.empty() && _train_y.batch_size() == train_y().batch_size()
+					&& !_test_y.empty() && _test_y.batch_size() == test_y().batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size() && _train_y.bBatchInRow() == _test_y.bBatchInRow()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& !_train_y.bDontManageStorage() && !_test_y.bDontManageStorage()
 					;
-- 
2.43.0


From bbfaec3bd7fca6b9a72de38873fb0e6e240d725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 12/21] fix: MCC() and F1Score() of a confusion matrix must not
 overflow integer counts

---
 nntl/utils/confusion_mtx.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nntl/utils/confusion_mtx.h b/nntl/utils/confusion_mtx.h
index 54f7dcc..19d7111 100644
--- a/nntl/utils/confusion_mtx.h
+++ b/nntl/utils/confusion_mtx.h
@@ -108,8 +108,10 @@ namespace nntl {
 			real_t Markedness()const noexcept { return PPV() + NPV() - real_t(1.); }
 			
 			real_t MCC()const noexcept {
-				const auto den = (TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
-				return den ? static_cast<real_t>(TP()*TN() - FP()*FN()) / ::std::sqrt(static_cast<real_t>(den))  : real_t(0.);
+				//products of counts easily overflow vec_len_t, therefore must be computed in real_t
+				const real_t tp = static_cast<real_t>(TP()), fp = static_cast<real_t>(FP()), tn = static_cast<real_t>(TN()), fn = static_cast<real_t>(FN());
+				const real_t den = (tp + fp)*(tp + fn)*(tn + fp)*(tn + fn);
+				return den > real_t(0.) ? (tp*tn - fp*fn) / ::std::sqrt(den) : real_t(0.);
 			}
 
 			real_t Jaccard()const noexcept {
@@ -117,8 +119,8 @@ namespace nntl {
 			}
 
 			real_t F1Score()const noexcept {
-				const auto tp2 = 2 * TP();
-				return static_cast<real_t>(tp2) / (tp2 + FP() + FN());
+				const real_t tp2 = real_t(2.) * static_cast<real_t>(TP());
+				return tp2 / (tp2 + FP() + FN());
 			}
 			//beta>1 weighs recall higher than precision
 			//beta<1 weighs recall lower than precision
-- 
2.43.0


From 85b82f1506b281670f7305b08820158db6b8e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 13/21] fix: layer_settings::set_default() must return a
 reference to itself as declared

---
 nntl/utils/layers_settings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/layers_settings.h b/nntl/utils/layers_settings.h
index bc01183..700e506 100644
--- a/nntl/utils/layers_settings.h
+++ b/nntl/utils/layers_settings.h
@@ -80,6 +80,7 @@ namespace utils {
 			if (!m_keeper.empty())
 				m_keeper.pop_front();
 			m_keeper.push_front(::std::forward<ST>(def));
+			return *this;
 		}
 
 		const setts_t& get(const layer_index_t idx)const noexcept {
-- 
2.43.0


From 698e2f95861545abc5cc1059f5c606a80b844b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:56 +0000
Subject: [PATCH 14/21] fix: softmax_xentropy_loss could not be used in an
 output layer

The static assertions of the output layer and its base required the activation to be usable in a hidden layer too, which softmax (documented as output only) never is.
---
 nntl/layer/fully_connected.h | 4 +++-
 nntl/layer/output.h          | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/layer/fully_connected.h b/nntl/layer/fully_connected.h
index ae7ef55..ccee6ed 100644
--- a/nntl/layer/fully_connected.h
+++ b/nntl/layer/fully_connected.h
@@ -47,7 +47,8 @@ namespace nntl {
 		typedef _impl::_act_wrap<FinalPolymorphChild, InterfacesT, ActivFunc> _base_class_t;
 
 	public:
-		static_assert(bActivationForHidden, "ActivFunc template parameter should be derived from activations::_i_activation");
+		static_assert(bActivationForHidden || bActivationForOutput, "ActivFunc template parameter should be derived from "
+			"activation::_i_activation<> or activation::_i_activation_loss<>");
 
 		static constexpr const char _defName[] = "fclFP";
 		static constexpr bool bAssumeFPropOnly = bFPropOnlyInDerived;
@@ -310,6 +311,7 @@ namespace nntl {
 	public:
 		typedef GradWorks grad_works_t;
 		static_assert(::std::is_base_of<_impl::_i_grad_works<real_t>, grad_works_t>::value, "GradWorks template parameter should be derived from _i_grad_works");
+		static_assert(bActivationForHidden, "ActivFunc template parameter should be derived from activation::_i_activation<>");
 
 		static constexpr const char _defName[] = "fcl";
 
diff --git a/nntl/layer/output.h b/nntl/layer/output.h
index db90f29..afe6718 100644
--- a/nntl/layer/output.h
+++ b/nntl/layer/output.h
@@ -47,8 +47,7 @@ namespace nntl {
 		typedef _LFC_FProp<FinalPolymorphChild, typename GradWorks::interfaces_t, ActivFunc, false> _base_class_t;
 
 	public:
-		static_assert(bActivationForOutput && bActivationForHidden, "ActivFunc template parameter must be derived from "
-			"activation::_i_activation_loss<> and activation::_i_activation<>");
+		static_assert(bActivationForOutput, "ActivFunc template parameter must be derived from activation::_i_activation_loss<>");
 
 		typedef GradWorks grad_works_t;
 		static_assert(::std::is_base_of<_impl::_i_grad_works<real_t>, grad_works_t>::value, "GradWorks template parameter should be derived from _i_grad_works");
-- 
2.43.0


From 806c8e2e794aa3cec1b225d1cb65dd1329f07c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 15/21] fix: set the common data before initializing individual
 learning rates

gw_init() called ILR_init(), which takes iMath from the common data, before
set_common_data(), so enabling ILR dereferenced a null pointer.
---
 nntl/grad_works/grad_works.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index fd24878..01a9f7f 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -300,10 +300,11 @@ namespace nntl {
 				if (!m_optMtxB.resize(weightsSize))return false;
 			}
 
-			if (!ILR_init(weightsSize))return false;
-
+			//ILR_init() uses get_iMath() which requires the common data
 			set_common_data(cd);
 
+			if (!ILR_init(weightsSize))return false;
+
 			//we would need twice weightsNumel to make LRDropout for NesterovMomentum if necessary
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
 			get_iMath().preinit(
-- 
2.43.0


From c575b107925cd5938d2e177ada2314c8276801aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 16/21] fix: missing comma in the ILR_props constructor (did
 not compile)

---
 nntl/grad_works/ILR_Props.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/grad_works/ILR_Props.h b/nntl/grad_works/ILR_Props.h
index d4df737..e425995 100644
--- a/nntl/grad_works/ILR_Props.h
+++ b/nntl/grad_works/ILR_Props.h
@@ -61,7 +61,7 @@ namespace GW { //GW namespace is for grad_works mixins and other stuff, that hel
 			: mulDecr(decr), mulIncr(incr), capLow(cLow), capHigh(cHigh) {}
 
 		ILR_props(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
-			set(decr, incr, cLow cHigh);
+			set(decr, incr, cLow, cHigh);
 		}
 		void set(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
 			NNTL_ASSERT((decr > 0 && decr < 1 && incr > 1 && cHigh > cLow && cLow > 0) || (decr == 0 && incr == 0 && cHigh == 0 && cLow == 0));
-- 
2.43.0


From a3360fb719d3bd0782a1552dc7b28724e724c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 17/21] fix: report the mean loss over the whole data set

calcLossAndReport() summed the mean losses of the batches the set was walked
in, so the reported loss and the divergence check depended on maxFpropSize.
---
 nntl/nnet.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..da58b80 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -277,6 +277,8 @@ namespace nntl {
 			const auto& activations = *m_Layers.output_layer().get_activations_storage();//we won't touch it until it's valid
 			real_t lossVal(0);
 
+			numel_cnt_t samplesCnt(0);
+
 			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
 			NNTL_ASSERT(batchesCnt > 0);
 
@@ -284,13 +286,16 @@ namespace nntl {
 
 			for (numel_cnt_t bi = 0; bi < batchesCnt; ++bi) {
 				td.next_subset(bi, cd);
-				lossVal += _calcLoss4batch(td.batchX(), td.batchY());
+				lossVal += _calcLoss4batch_nonnormalized(td.batchX(), td.batchY());
+				samplesCnt += td.batchY().batch_size();
 
 				NNTL_ASSERT(m_Layers.output_layer().is_activations_valid());
 				NNTL_ASSERT(&activations == m_Layers.output_layer().get_activations_storage());//sanity check
 				obs.report_results(bi, activations, td.batchY(), cd);
 			}
 
+			lossVal /= samplesCnt;//the loss is averaged over the whole set, whatever batches it was walked in
+
 			//after calculating loss based on batch data, we must add a loss based on layers properties/parameters
 			if (m_bCalcFullLossValue) lossVal += m_Layers.calcLossAddendum();
 
-- 
2.43.0


From d29900b6f26169ab0d07da9b8a82fba3ba1f444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 18/21] fix: train() with a smaller batch than the nnet was
 initialized for

A second train() without deinitialization set the batch size of the previous
initialization, while the data came in the batches requested now: writes
out of bounds in train data and layers.
---
 nntl/nnet.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index da58b80..7f7ee85 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -584,7 +584,8 @@ namespace nntl {
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
-			_set_mode_and_batch_size(0);//prepare for training (sets to maxBatchSize, that's already stored in common_data structure)
+			_set_training_mode_and_batch_size(maxBatchSize);//prepare for training. Note that a batch size stored in common_data
+			// structure may be bigger if the nnet was initialized earlier
 
 #if NNTL_DEBUG_CHECK_DENORMALS_ON_EACH_EPOCH
 			STDCOUTL("Denormals check... " << (get_iMath().ithreads().denormalsOnInAnyThread() ? "FAILED!!!" : "passed.") 
@@ -660,8 +661,8 @@ namespace nntl {
 					// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 					if (!onEpochEndCB(/**this, opts,*/ epochIdx)) break;
 
-					//should always call _set_mode_and_batch_size(0) because onEpochEndCB could change this object state
-					_set_mode_and_batch_size(0);
+					//should always set the mode because reporting and onEpochEndCB could change this object state
+					_set_training_mode_and_batch_size(maxBatchSize);
 				}
 			}
 
-- 
2.43.0


From 208013c1213c4a4fa6621d02c2b367081e46bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 19/21] fix: a NaN loss did not count as divergence

---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 7f7ee85..6eb8f19 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -645,7 +645,7 @@ namespace nntl {
 						} else {
 							// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 							const auto trainLoss = _report_training_progress(epochIdx, td, periodTime, opts.observer());
-							if (bCheckForDivergence && trainLoss >= opts.divergenceCheckThreshold())
+							if (bCheckForDivergence && !(trainLoss < opts.divergenceCheckThreshold()))//NaN is a divergence too
 								return _set_last_error(ErrorCode::NNDiverged);
 						}
 					}
-- 
2.43.0


From d9d417d610bb8bc9e1eddf65ddd82ad620066331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:27 +0000
Subject: [PATCH 20/21] fix: gradient check with a batch of the whole data set
 and a smaller online batch wrote through a null pointer

---
 nntl/nnet.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 6eb8f19..ac23f67 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -788,8 +788,10 @@ namespace nntl {
 			//////////////////////////////////////////////////////////////////////////
 
 			bool performCheck(const vec_len_t batchSize, const realmtx_t& data_x, const realmtx_t& data_y)noexcept {
+				//m_data needs to know the biggest batch size that is smaller than the whole data set (full batches are just aliases of the data)
 				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(biggestBatch == data_x.batch_size() ? 0 : biggestBatch, data_x, &data_y);
+				const vec_len_t maxPartialBatch = biggestBatch == data_x.batch_size() ? ::std::min(batchSize, m_ngcSetts.onlineBatchSize) : biggestBatch;
+				m_data.init(maxPartialBatch == data_x.batch_size() ? 0 : maxPartialBatch, data_x, &data_y);
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
-- 
2.43.0


From 38f7fc3f6f6b3216c8be396d377e633cc3182216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 21/21] fix: binfile reader leaked its conversion buffer on a
 truncated file

---
 nntl/_supp/io/binfile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index cb1ed54..d3cc207 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -393,8 +393,10 @@ namespace nntl_supp {
 
 #pragma warning(disable:28020)
 			//MSVC SAL goes "slightly" mad here
-			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp))
+			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp)) {
+				if (!bSameTypes) free(pReadTo);
 				return _set_last_error(ErrorCode::FailedToReadData);
+			}
 #pragma warning(default:28020)
 
 			if (!bSameTypes) {
-- 
2.43.0

