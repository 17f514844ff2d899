From c69ca5015e7ba4c96d29029599b98df226b1190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 01/28] fix: EventDispatcher survives listeners that unregister
 while being notified

Erasing the current list node from inside on_event() left dispatch() with an
invalid iterator.
---
 src/ldaplusplus/events/Events.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..3bbab1d 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -40,7 +40,9 @@ void EventDispatcher::remove_listener(std::shared_ptr<EventListenerInterface> li
 
 
 void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
-    for (auto l : listeners_) {
+    // iterate over a copy because a listener may add or remove listeners
+    auto listeners = listeners_;
+    for (auto l : listeners) {
         l->on_event(event);
     }
 }
-- 
2.43.0


From 3a12e62d39c0d565571c45f9b679b021bd85e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 02/28] fix: ThreadSafeEventDispatcher removes listeners
 immediately

Removals were deferred to the next process_events(), which also dropped a
listener registered again in between, decremented a begin() iterator when the
first listener was removed, and kept notifying a listener removed by another
one for the rest of the batch.
---
 include/ldaplusplus/events/Events.hpp |  4 ---
 src/ldaplusplus/events/Events.cpp     | 39 ++++++++-------------------
 2 files changed, 11 insertions(+), 32 deletions(-)

diff --git a/include/ldaplusplus/events/Events.hpp b/include/ldaplusplus/events/Events.hpp
index bcaa96b..9e0bb8a 100644
--- a/include/ldaplusplus/events/Events.hpp
+++ b/include/ldaplusplus/events/Events.hpp
@@ -6,7 +6,6 @@
 #include <memory>
 #include <mutex>
 #include <thread>
-#include <unordered_set>
 
 namespace ldaplusplus {
 namespace events {
@@ -223,9 +222,6 @@ class ThreadSafeEventDispatcher : public EventDispatcherInterface
         std::mutex listeners_mutex_;
         std::list<std::shared_ptr<EventListenerInterface> > listeners_;
 
-        std::mutex deleted_listeners_mutex_;
-        std::unordered_set<std::shared_ptr<EventListenerInterface> > deleted_listeners_;
-
         std::mutex events_mutex_;
         std::list<std::shared_ptr<Event> > events_;
 };
diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index 3bbab1d..8ce72c6 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -59,9 +59,9 @@ void ThreadSafeEventDispatcher::add_listener(
 void ThreadSafeEventDispatcher::remove_listener(
     std::shared_ptr<EventListenerInterface> listener
 ) {
-    std::lock_guard<std::mutex> l(deleted_listeners_mutex_);
+    std::lock_guard<std::mutex> l(listeners_mutex_);
 
-    deleted_listeners_.insert(listener);
+    listeners_.remove(listener);
 }
 
 void ThreadSafeEventDispatcher::dispatch(std::shared_ptr<Event> event) {
@@ -71,24 +71,6 @@ void ThreadSafeEventDispatcher::dispatch(std::shared_ptr<Event> event) {
 }
 
 void ThreadSafeEventDispatcher::process_events() {
-    // first lock the queue and the deleted listeners together and delete the
-    // listeners in the deleted list
-    {
-        std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
-        std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);
-
-        std::lock(l1, l2);
-
-        for (auto l=listeners_.begin(); l!=listeners_.end(); l++) {
-            if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
-                l = listeners_.erase(l);
-                l--;
-            }
-        }
-
-        deleted_listeners_.clear();
-    }
-
     // copy the event list
     std::list<std::shared_ptr<Event> > events;
     {
@@ -97,15 +79,16 @@ void ThreadSafeEventDispatcher::process_events() {
         events_.clear();
     }
 
-    // copy the listeners list
-    std::list<std::shared_ptr<EventListenerInterface> > listeners;
-    {
-        std::lock_guard<std::mutex> l(listeners_mutex_);
-        listeners = listeners_;
-    }
-
-    // dispatch events without worry
     for (auto ev : events) {
+        // copy the listeners list so that they can be added or removed by the
+        // listeners themselves
+        std::list<std::shared_ptr<EventListenerInterface> > listeners;
+        {
+            std::lock_guard<std::mutex> l(listeners_mutex_);
+            listeners = listeners_;
+        }
+
+        // dispatch the event without worry
         for (auto l : listeners) {
             l->on_event(ev);
         }
-- 
2.43.0


From 2282419bfaf7e7ee902ad80f6df2357bb5ea4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 03/28] fix: swap_endianess stores the swapped values

Arrays saved in the other byte order were read as garbage.
---
 include/ldaplusplus/NumpyFormat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..550ebbd 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,8 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From cb78b23023597ec8ad72d60bc17de3f0138e77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 04/28] fix: reject truncated and foreign files when reading
 numpy arrays

Short reads of the magic, the header or the payload were ignored and the
missing values were returned as zeros; the magic was never compared.
---
 include/ldaplusplus/NumpyFormat.hpp | 32 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 550ebbd..c35d63e 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -279,11 +279,6 @@ namespace numpy_format {
                 // read the magic and the version and assert that it is compatible
                 char MAGIC_AND_VERSION[8];
                 is.read(MAGIC_AND_VERSION, 8);
-                if (MAGIC_AND_VERSION[6] > 1) {
-                    throw std::runtime_error(
-                        "Only version 1 of the numpy format is supported"
-                    );
-                }
 
                 // if the file is empty (aka we read nothing) just throw a
                 // runtime error
@@ -293,6 +288,21 @@ namespace numpy_format {
                     );
                 }
 
+                if (
+                    is.gcount() != 8 ||
+                    std::string(MAGIC_AND_VERSION, 6) != "\x93NUMPY"
+                ) {
+                    throw std::runtime_error(
+                        "The file is not in the numpy format"
+                    );
+                }
+
+                if (MAGIC_AND_VERSION[6] != 1) {
+                    throw std::runtime_error(
+                        "Only version 1 of the numpy format is supported"
+                    );
+                }
+
                 // read the header len
                 uint16_t header_len;
                 is.read(reinterpret_cast<char *>(&header_len), 2);
@@ -303,6 +313,9 @@ namespace numpy_format {
                 // read the header
                 std::vector<char> buffer(header_len+1);
                 is.read(&buffer[0], header_len);
+                if (!is) {
+                    throw std::runtime_error("The header of the array is truncated");
+                }
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
 
@@ -343,18 +356,21 @@ namespace numpy_format {
                 }
 
                 // compute the total size of the data
-                int N = 1;
+                size_t N = 1;
                 for (auto c : data.shape_) {
                     N *= c;
                 }
 
                 // read the data
                 data.data_.resize(N);
-                is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                is.read(reinterpret_cast<char *>(data.data_.data()), N*sizeof(Scalar));
+                if (static_cast<size_t>(is.gcount()) != N*sizeof(Scalar)) {
+                    throw std::runtime_error("The data of the array are truncated");
+                }
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-                    swap_endianess(&data.data_[0], N);
+                    swap_endianess(data.data_.data(), N);
                 }
 
                 return is;
-- 
2.43.0


From e97e4f4dd3fe9c1374eb285f6457f243610c8264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 05/28] fix: convert zero dimensional numpy arrays without
 reading past the shape

---
 include/ldaplusplus/NumpyFormat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index c35d63e..8f603a8 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -236,7 +236,7 @@ namespace numpy_format {
             template <int Rows, int Cols, int Options>
             operator Eigen::Matrix<Scalar, Rows, Cols, Options>() const {
                 // get the needed rows, cols
-                int rows = shape_[0];
+                int rows = shape_.empty() ? 1 : shape_[0];
                 int cols = 1;
                 for (size_t i=1; i<shape_.size(); i++) {
                     cols *= shape_[i];
-- 
2.43.0


From 047d73b14fa2b40ddbd6936376d723f774eb765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 06/28] fix: MultinomialSupervisedEStep uses its tolerance for
 early stopping

The fraction of documents to compute the likelihood for was used instead.
---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From 3c31036aeae692e018710f1de4541005205439fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 07/28] fix: documents of an EigenCorpus refer to their corpus

---
 src/ldaplusplus/Document.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..840d3e9 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -79,7 +79,10 @@ size_t EigenCorpus::size() const {
 const std::shared_ptr<Document> EigenCorpus::at(size_t index) const {
     int i = indices_.get_index(index);
 
-    return std::make_shared<EigenDocument>(X_.col(i));
+    return std::make_shared<EigenDocument>(
+        X_.col(i),
+        std::shared_ptr<const Corpus>(this, [](const Corpus*){})
+    );
 }
 
 void EigenCorpus::shuffle() {
-- 
2.43.0


From 512bc72e7e8498e9d2ddd5e7f1b6f971c3198149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:50 +0000
Subject: [PATCH 08/28] fix: EigenClassificationCorpus accepts unlabelled
 documents and empty corpora

Negative classes were counted outside of the priors vector.
---
 src/ldaplusplus/Document.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 840d3e9..d76669d 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <numeric>
 #include <utility>
 
@@ -100,11 +101,13 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(y.maxCoeff()+1)
+    priors_(y.rows() > 0 ? std::max(y.maxCoeff()+1, 0) : 0)
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-        priors_[y_[i]] ++;
+        // negative classes mark the unlabelled documents
+        if (y_[i] >= 0)
+            priors_[y_[i]] ++;
     }
     priors_.array() /= priors_.sum();
 }
-- 
2.43.0


From 8c019f850fac74d400bee396a14980dbb8da2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 09/28] fix: topics without any words keep their distribution
 instead of becoming NaN

---
 src/ldaplusplus/em/UnsupervisedMStep.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/UnsupervisedMStep.cpp b/src/ldaplusplus/em/UnsupervisedMStep.cpp
index 37d6832..aca9460 100644
--- a/src/ldaplusplus/em/UnsupervisedMStep.cpp
+++ b/src/ldaplusplus/em/UnsupervisedMStep.cpp
@@ -9,8 +9,14 @@ void UnsupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
     // we maximized w.r.t \beta during each doc_m_step
-    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta = 
-        b_.array().colwise() / b_.array().rowwise().sum();
+    MatrixX &beta = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta;
+    for (int k=0; k<b_.rows(); k++) {
+        // topics that no word was assigned to have nothing to be updated with
+        Scalar topic_sum = b_.row(k).sum();
+        if (topic_sum != 0) {
+            beta.row(k) = b_.row(k) / topic_sum;
+        }
+    }
 
     b_.fill(0);
 }
-- 
2.43.0


From 0110df1ab8ba334767060cd771c6511709af209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 10/28] fix: skip the classifier update when a pass has no
 labeled documents

---
 src/ldaplusplus/em/FastSupervisedMStep.cpp | 4 ++++
 src/ldaplusplus/em/SupervisedMStep.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ldaplusplus/em/FastSupervisedMStep.cpp b/src/ldaplusplus/em/FastSupervisedMStep.cpp
index 5a52e78..0debbad 100644
--- a/src/ldaplusplus/em/FastSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastSupervisedMStep.cpp
@@ -62,6 +62,10 @@ void FastSupervisedMStep<Scalar>::m_step(
     );
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
+    // without labeled documents there is nothing to fit \eta to
+    if (docs_ == 0)
+        return;
+
     // resize the member variables to fit the documents we 've seen so far in
     // the doc_m_steps
     y_.conservativeResize(docs_);
diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..1dc8f18 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -73,6 +73,10 @@ void SupervisedMStep<Scalar>::m_step(
     );
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
+    // without labeled documents there is nothing to fit \eta to
+    if (docs_ == 0)
+        return;
+
     // resize the member variables to fit the documents we 've seen so far in
     // the doc_m_steps
     y_.conservativeResize(docs_);
-- 
2.43.0


From 584e03f469674ed5a339182071da39e3817cd1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 11/28] fix: SupervisedMStep handles empty and very long
 documents

---
 src/ldaplusplus/em/SupervisedMStep.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 1dc8f18..9f4e548 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -52,12 +52,14 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // get the expected_z_bar
     expected_z_bar_.col(docs_) = gamma - alpha;
-    expected_z_bar_.col(docs_).array() /= N;
+    if (N > 0)
+        expected_z_bar_.col(docs_).array() /= N;
 
     // get the variance_z_bar
     MatrixX phi_scaled = phi.array().rowwise() * X.cast<Scalar>().array().transpose();
     variance_z_bar_[docs_] = phi_scaled * phi_scaled.transpose();
-    variance_z_bar_[docs_] *= 1.0/(N * N);
+    if (N > 0)
+        variance_z_bar_[docs_] *= 1.0/(static_cast<double>(N) * N);
 
     docs_ += 1;
 }
-- 
2.43.0


From 5e2a10ec360054a65623e7395cba96600b532d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 12/28] fix: online maximization step uses the class weights it
 was given

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..8693615 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -112,6 +112,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From 661a9b11f4a15ef223e55927d49bd4551b977783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 13/28] fix: online maximization step starts every minibatch
 with empty statistics

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 8693615..615f673 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -108,6 +108,9 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
         (1-beta_weight_) * (b_.array().colwise() / b_.array().rowwise().sum())
     );
 
+    // forget the statistics of this minibatch
+    b_.fill(0);
+
     // update the eta
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
-- 
2.43.0


From a621dbdf777b83491f229caffc238a720438a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 14/28] fix: online maximization step survives empty documents
 and topics without words

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 615f673..da3a7a7 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -74,7 +74,10 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    Scalar words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0) {
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
+    }
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
@@ -103,10 +106,13 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     // update the topic distributions
     // TODO: Change the update to something more formal like the online update
     //       of Hoffman et al.
-    beta.array() = (
-        beta_weight_ * beta.array() +
-        (1-beta_weight_) * (b_.array().colwise() / b_.array().rowwise().sum())
-    );
+    for (int k=0; k<b_.rows(); k++) {
+        // topics that no word was assigned to have nothing to be updated with
+        Scalar topic_sum = b_.row(k).sum();
+        if (topic_sum != 0) {
+            beta.row(k) = beta_weight_ * beta.row(k) + ((1-beta_weight_) / topic_sum) * b_.row(k);
+        }
+    }
 
     // forget the statistics of this minibatch
     b_.fill(0);
-- 
2.43.0


From 0206e42235e68fa4545674c26298792f3b036088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 15/28] fix: supervised expectation step handles documents
 without words

---
 src/ldaplusplus/e_step_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..5f5a172 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -87,6 +87,8 @@ Scalar compute_supervised_likelihood(
         if (X[n] > 0)
             break;
     }
+    if (n < 0)
+        return likelihood;
     likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
     likelihood += - std::log((h.transpose() * phi.col(n)).value());
 
@@ -230,6 +232,9 @@ void compute_supervised_phi_gamma(
 
     // Compute the products that will allow us to compute and update h
     for (int n=0; n<X.rows(); n++) {
+        if (X[n] == 0)
+            continue;
+
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
         //exp_eta_scaled = (eta * X_ratio[n]).array().exp();
         products.array() *= (exp_eta_scaled.transpose() * phi.col(n)).array();
-- 
2.43.0


From ec3161b4a4388ebeef7c40dd5fb23ffc6dad942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 16/28] fix: supervised likelihood does not use h before it is
 computed

---
 src/ldaplusplus/em/SupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..35ce2ad 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -79,7 +79,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
         this->get_event_dispatcher()->
             template dispatch<events::ExpectationProgressEvent<Scalar> >(
                 e_step_utils::compute_supervised_likelihood<Scalar>(
-                    X, y, alpha, beta, eta, phi, gamma, h
+                    X, y, alpha, beta, eta, phi, gamma
                 )
             );
     } else {
-- 
2.43.0


From 241d145d2d3643ce15fbc5e8074e168ad0d11e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 17/28] fix: --continue_from_unsupervised loads the model it
 names

---
 src/applications/fslda.cpp | 2 +-
 src/applications/slda.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/fslda.cpp b/src/applications/fslda.cpp
index 13414ac..fef6ca4 100644
--- a/src/applications/fslda.cpp
+++ b/src/applications/fslda.cpp
@@ -50,7 +50,7 @@ void add_initialization_options(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
diff --git a/src/applications/slda.cpp b/src/applications/slda.cpp
index 1a02f81..04bfa40 100644
--- a/src/applications/slda.cpp
+++ b/src/applications/slda.cpp
@@ -53,7 +53,7 @@ LDA<double> create_lda_for_train(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
-- 
2.43.0


From 828e45320f99291bf377b7c023207ff92f03c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 18/28] fix: EpochProgress accumulates the likelihood without
 truncating it

---
 include/applications/EpochProgress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/applications/EpochProgress.hpp b/include/applications/EpochProgress.hpp
index 3bd247f..064fe16 100644
--- a/include/applications/EpochProgress.hpp
+++ b/include/applications/EpochProgress.hpp
@@ -20,7 +20,7 @@ class EpochProgress : public events::EventListenerInterface
 
     private:
        int em_iterations_;
-       int likelihood_;
+       double likelihood_;
        int cnt_likelihoods_;
        int is_first_time_;
 };
-- 
2.43.0


From 504001263d1c59426301429f5a44cbd223f61c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:10 +0000
Subject: [PATCH 19/28] fix: the likelihood bound counts every occurrence of a
 word

---
 src/ldaplusplus/e_step_utils.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 5f5a172..dd2b0cb 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -19,8 +19,8 @@ Scalar compute_unsupervised_likelihood(
 
     Scalar likelihood = 0;
 
-    // Make sure we ignore phi for words that are not in the document
-    MatrixX<Scalar> phi2 = phi.array().rowwise() * (X.array() != 0).cast<Scalar>().transpose();
+    // Every occurrence of a word counts and words not in the document don't
+    MatrixX<Scalar> phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
 
     // \Psi(\gamma) - \Psi(\sum_j \gamma)
     VectorX<Scalar> t1 = gamma.unaryExpr(cwise_digamma).array() - math_utils::digamma(gamma.sum());
@@ -30,16 +30,15 @@ Scalar compute_unsupervised_likelihood(
     likelihood += std::lgamma(alpha.sum()) - alpha.unaryExpr(cwise_lgamma).sum();
 
     // E_q[log p(z | \theta)]
-    likelihood += (phi2.transpose() * t1).sum();
+    likelihood += (phi_scaled.transpose() * t1).sum();
 
     // E_q[log p(w | z, \beta)]
-    auto phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
-    likelihood += (phi_scaled * (beta.array() + 1e-44).log()).sum();
+    likelihood += (phi_scaled.array() * (beta.array() + 1e-44).log()).sum();
 
     // H(q)
     likelihood += -((gamma.array() - 1).matrix().transpose() * t1).value();
     likelihood += -std::lgamma(gamma.sum()) + gamma.unaryExpr(cwise_lgamma).sum();
-    likelihood += -(phi2.array() * (phi2.array() + 1e-44).log()).sum();
+    likelihood += -(phi_scaled.array() * (phi.array() + 1e-44).log()).sum();
     
     return likelihood;
 }
-- 
2.43.0


From 64ab844efcb0206fd1c247724e40cf92c5e4f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:22 +0000
Subject: [PATCH 20/28] fix: the line search never takes a step it has not
 evaluated

---
 include/ldaplusplus/optimization/GradientDescent.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index e4a8107..fa9bd03 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -119,8 +119,10 @@ class ArmijoLineSearch : public LineSearch<ProblemType, ParameterType>
             ParameterType x_copy(x0.rows(), x0.cols());
             Scalar value_x0 = problem.value(x0);
             Scalar decrease = beta_ * (grad_x0.array() * direction.array()).sum();
-            Scalar value = value_x0;
-            Scalar a = 1.0/tau_;
+            Scalar a = 1.0;
+
+            x_copy = x0 - a * direction;
+            Scalar value = problem.value(x_copy);
 
             while (value > value_x0 - a * decrease) {
                 a *= tau_;
-- 
2.43.0


From 40494db76cefe8498ad5bb5d6a7f4963a465f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:22 +0000
Subject: [PATCH 21/28] fix: gradient descent reports the gradient of the
 current point

---
 include/ldaplusplus/optimization/GradientDescent.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index fa9bd03..ab6836e 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -195,10 +195,12 @@ class GradientDescent
             // And the iterations in this one
             size_t iterations = 0;
 
+            problem.gradient(x0, grad);
+
             // Whether we stop or not is decided by someone else
             while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
-                problem.gradient(x0, grad);
                 value = line_search_->search(problem, x0, grad, grad);
+                problem.gradient(x0, grad);
             }
         }
 
-- 
2.43.0


From af65e2bceee8ffc131a4e7bd7251a2b3621430d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:22 +0000
Subject: [PATCH 22/28] fix: correspondence topics are updated with the
 expected word counts

---
 src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
index 484c175..d5680ef 100644
--- a/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp
@@ -67,8 +67,8 @@ void CorrespondenceSupervisedMStep<Scalar>::doc_m_step(
     );
     phi_scaled_sum_ = phi_scaled_.rowwise().sum();
 
-    // Update for beta
-    b_ += phi_scaled_;
+    // Update for beta, every word counts regardless of being chosen by lambda
+    b_.array() += phi.array().rowwise() * X.cast<Scalar>().transpose().array();
 
     // Update for eta
     h_.col(y) += phi_scaled_sum_;
-- 
2.43.0


From 1c2b1329ce79bb38a63ef4e29f4e70f8d35d776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 23/28] fix: fast supervised phi stays finite when the largest
 classifier weight is tiny

---
 src/ldaplusplus/e_step_utils.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index dd2b0cb..2bc364f 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -1,3 +1,6 @@
+#include <cmath>
+#include <limits>
+
 #include "ldaplusplus/e_step_utils.hpp"
 #include "ldaplusplus/utils.hpp"
 
@@ -337,9 +340,16 @@ void compute_supervised_approximate_phi(
     if (max_eta > 0)
         eta_scaled /= max_eta;
 
-    phi = beta.array().colwise() * (
+    // only the differences of the exponents matter because phi is normalized,
+    // keep them in a range where the exponential neither overflows nor vanishes
+    // no matter how much eta is scaled
+    VectorX<Scalar> exponents = (
         psi_gamma + C*(eta_scaled.col(y) - eta_scaled * softmax_eta_z).array()
-    ).unaryExpr(cwise_fast_exp).array();
+    );
+    exponents.array() -= exponents.maxCoeff();
+    exponents = exponents.cwiseMax(std::log(std::numeric_limits<Scalar>::min()) / 2);
+
+    phi = beta.array().colwise() * exponents.unaryExpr(cwise_fast_exp).array();
     //phi = phi.array().rowwise() / phi.colwise().sum().array();
     math_utils::normalize_cols(phi);
 }
-- 
2.43.0


From b15b85007021102d91d6abf460aafdc52fb8ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:03 +0000
Subject: [PATCH 24/28] fix: npy headers too short to hold the order of the
 array are rejected

---
 include/ldaplusplus/NumpyFormat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 8f603a8..87bab2e 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -318,6 +318,9 @@ namespace numpy_format {
                 }
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
+                if (header.size() < 35) {
+                    throw std::runtime_error("The header of the array is malformed");
+                }
 
                 // we can parse the header efficiently using the fact that the
                 // specification requires the dictionary to be passed by
-- 
2.43.0


From d3007a025cdead704069a7e700176d3d205ea5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 25/28] fix: report a model that could not be written
 completely

save_lda() ignored the state of the stream, so training into a full disk or
a directory that does not exist ended successfully with a truncated or
missing model.
---
 src/applications/lda_io.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/applications/lda_io.cpp b/src/applications/lda_io.cpp
index 4b66a23..5298acf 100644
--- a/src/applications/lda_io.cpp
+++ b/src/applications/lda_io.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 
 #include "ldaplusplus/NumpyFormat.hpp"
 
@@ -68,6 +69,12 @@ void save_lda(
     model << numpy_format::NumpyOutput<double>(model_parameters->alpha);
     model << numpy_format::NumpyOutput<double>(model_parameters->beta);
     model << numpy_format::NumpyOutput<double>(model_parameters->eta);
+
+    // the last bytes may reach the disk only now
+    model.close();
+    if (!model) {
+        throw std::runtime_error("Could not write the model to " + model_path);
+    }
 }
 
 std::shared_ptr<parameters::SupervisedModelParameters<double> > load_lda(
-- 
2.43.0


From bf0f5aa18889595eb49e32f110e02d2a58474328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 26/28] fix: report an array that could not be written
 completely

numpy_format::save() to a path ignored failures of opening and writing, so
transforming into a full disk ended successfully with a truncated result.
---
 include/ldaplusplus/NumpyFormat.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 87bab2e..e99051e 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -405,6 +405,12 @@ namespace numpy_format {
         );
 
         save(out_stream, matrix);
+
+        // the last bytes may reach the disk only now
+        out_stream.close();
+        if (!out_stream) {
+            throw std::runtime_error("Could not write the data to " + save_path);
+        }
     }
 
 
-- 
2.43.0


From 5b05e440b6d7af7077f13742fabb324e538217ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:23 +0000
Subject: [PATCH 27/28] fix: leave no loadable file behind when writing a
 result fails midway

---
 include/ldaplusplus/NumpyFormat.hpp | 6 ++++++
 src/applications/lda_io.cpp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index e99051e..dc74c79 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -407,8 +407,14 @@ namespace numpy_format {
         save(out_stream, matrix);
 
         // the last bytes may reach the disk only now
+        bool opened = out_stream.is_open();
         out_stream.close();
         if (!out_stream) {
+            // closing writes again what could not be written, so what is left
+            // is not always a truncated array; leave nothing that can be loaded
+            if (opened) {
+                std::ofstream(save_path, std::ios::trunc);
+            }
             throw std::runtime_error("Could not write the data to " + save_path);
         }
     }
diff --git a/src/applications/lda_io.cpp b/src/applications/lda_io.cpp
index 5298acf..c89d2f7 100644
--- a/src/applications/lda_io.cpp
+++ b/src/applications/lda_io.cpp
@@ -71,8 +71,14 @@ void save_lda(
     model << numpy_format::NumpyOutput<double>(model_parameters->eta);
 
     // the last bytes may reach the disk only now
+    bool opened = model.is_open();
     model.close();
     if (!model) {
+        // closing writes again what could not be written, so what is left is
+        // not always a truncated model; leave nothing that can be loaded
+        if (opened) {
+            std::ofstream(model_path, std::ios::trunc);
+        }
         throw std::runtime_error("Could not write the model to " + model_path);
     }
 }
-- 
2.43.0


From b3847be38d16b9696980653095ed875cce496c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 28/28] fix: deliver the last events of a pass when training
 runs on another thread

---
 src/ldaplusplus/LDA.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 606e8b0..ee1c8fe 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -132,6 +132,10 @@ void LDA<Scalar>::partial_fit(std::shared_ptr<corpus::Corpus> corpus) {
 
     // inform the world that the epoch is over
     get_event_dispatcher()->template dispatch<events::EpochProgressEvent<Scalar> >(model_parameters_);
+
+    // if this is not the thread that created the dispatcher the events of the
+    // m step and the epoch are still waiting
+    process_worker_events();
 }
 
 
-- 
2.43.0

