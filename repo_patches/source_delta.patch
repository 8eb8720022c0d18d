From 2d577af70a9eb724adf34399c958b70b78282c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:28 +0000
Subject: [PATCH 01/21] fix: keep fractional values in rowwise train/test split

The triplets were declared with the integer type, so every value was
truncated and the two parts no longer summed back to the input.
---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a19e162..0cbc3d7 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -76,7 +76,7 @@ struct SplitFunction {
   split_imple(const CSRMatrix<Real> &X, std::int64_t random_seed,
               Args... args) {
     Derived::check_args(args...);
-    using Triplet = Eigen::Triplet<Integer>;
+    using Triplet = Eigen::Triplet<Real>;
     std::mt19937 random_state(random_seed);
     std::vector<Integer> col_buffer;
     std::vector<Real> data_buffer;
@@ -105,7 +105,7 @@ struct SplitFunction {
       }
     }
     CSRMatrix<Real> X_train(X.rows(), X.cols()), X_test(X.rows(), X.cols());
-    auto dupfunction = [](const Integer &a, const Integer &b) { return a + b; };
+    auto dupfunction = [](const Real &a, const Real &b) { return a + b; };
     X_train.setFromTriplets(train_data.begin(), train_data.end(), dupfunction);
     X_test.setFromTriplets(test_data.begin(), test_data.end(), dupfunction);
     X_train.makeCompressed();
-- 
2.43.0


From b4ea291a9782444298634396104c302630b38877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:28 +0000
Subject: [PATCH 02/21] fix: sort only the current column's coefficients in
 SLIM top_k

Entries left in the buffer by a previously processed column took part in
the sort and could displace the column's own coefficients.
---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 0cbc3d7..b8d46d4 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -392,7 +392,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             }
             int64_t n_taken_coeffs = nnz;
             if (nnz > top_k) {
-              std::sort(argsort_buffer.begin(), argsort_buffer.end(),
+              std::sort(argsort_buffer.begin(), argsort_buffer.begin() + nnz,
                         [](RealAndIndex val1, RealAndIndex val2) {
                           return val1.first > val2.first;
                         });
-- 
2.43.0


From a2281a2193cead069c0e7c726d1e6d3e73083349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:11 +0000
Subject: [PATCH 03/21] fix: recommend no item when cutoff is zero

---
 src/irspack/utils/id_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 8d8e47f..3e2ed55 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -242,6 +242,8 @@ class ItemIDMapper(Generic[ItemIdType]):
             high_score_inds = score.argsort()[::-1]
         recommendations: List[Tuple[ItemIdType, float]] = []
         for i in high_score_inds:
+            if len(recommendations) >= cutoff:
+                break
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
@@ -251,8 +253,6 @@ class ItemIDMapper(Generic[ItemIdType]):
                 if item_id in forbidden_item_ids:
                     continue
             recommendations.append((item_id, float(score_this)))
-            if len(recommendations) >= cutoff:
-                break
         return recommendations
 
     def score_to_recommended_items_batch(
-- 
2.43.0


From cad597e0a0e82f89e3beb128d9bdae9712ffdda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:11 +0000
Subject: [PATCH 04/21] fix: do not overwrite the caller's scores for forbidden
 items

---
 src/irspack/utils/id_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 3e2ed55..90d8119 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -304,6 +304,7 @@ class ItemIDMapper(Generic[ItemIdType]):
         elif allowed_item_ids is not None:
             allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
         if forbidden_item_ids is not None:
+            score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
                 score[
                     u, self._item_id_list_to_index_list(forbidden_ids_per_user)
-- 
2.43.0


From 8399e6e4721c7bb190b3fc6098f90629a46097c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:26 +0000
Subject: [PATCH 05/21] fix: never recommend an item twice when
 allowed_item_ids has duplicates

---
 src/irspack/utils/id_mapping.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 90d8119..4ac8daa 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -233,7 +233,8 @@ class ItemIDMapper(Generic[ItemIdType]):
 
         if allowed_item_ids is not None:
             allowed_item_indices = np.asarray(
-                self._item_id_list_to_index_list(allowed_item_ids), dtype=np.int64
+                self._item_id_list_to_index_list(dict.fromkeys(allowed_item_ids)),
+                dtype=np.int64,
             )
             high_score_inds = allowed_item_indices[
                 score[allowed_item_indices].argsort()[::-1]
@@ -299,10 +300,13 @@ class ItemIDMapper(Generic[ItemIdType]):
         allowed_item_indices: List[List[int]] = []
         if per_user_allowed_item_ids is not None:
             allowed_item_indices = [
-                self._item_id_list_to_index_list(_) for _ in per_user_allowed_item_ids
+                self._item_id_list_to_index_list(dict.fromkeys(_))
+                for _ in per_user_allowed_item_ids
             ]
         elif allowed_item_ids is not None:
-            allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
+            allowed_item_indices = [
+                self._item_id_list_to_index_list(dict.fromkeys(allowed_item_ids))
+            ]
         if forbidden_item_ids is not None:
             score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
-- 
2.43.0


From 3f59ab54214cbebf19d37ac4470401ce3c51ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:45 +0000
Subject: [PATCH 06/21] fix: honour n_test_user whatever test_user_ratio is

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 06608a7..a382d10 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -317,7 +317,7 @@ def split_dataframe_partial_user_holdout(
 
     train_uids, val_test_uids = _split_list(uids, (n_val_user + n_test_user), rns)
 
-    if (test_user_ratio * len(uids)) >= 1:
+    if n_test_user >= 1:
         val_uids, test_uids = _split_list(
             val_test_uids,
             n_test_user,
-- 
2.43.0


From 60530cf9dd7725e34cc83d47870c4285fe3bc516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:45 +0000
Subject: [PATCH 07/21] fix: use rating_column for the train users as well

---
 src/irspack/split/userwise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index a382d10..07ce2f8 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -332,7 +332,12 @@ def split_dataframe_partial_user_holdout(
     item_all: List[Any] = list(set(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
-        df_train, user_column, item_column, user_ids=train_uids, item_ids=item_all
+        df_train,
+        user_column,
+        item_column,
+        user_ids=train_uids,
+        item_ids=item_all,
+        rating_column=rating_column,
     )
 
     valid_data: Dict[str, UserTrainTestInteractionPair] = dict(
-- 
2.43.0


From 7c4081acf551f9134c9299ed5c31a7b8301eceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:45 +0000
Subject: [PATCH 08/21] fix: keep rating_column in the time-based user-wise
 split

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 07ce2f8..ece7630 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -191,7 +191,7 @@ def split_train_test_userwise_time(
 ) -> UserTrainTestInteractionPair:
     unique_user_ids = np.asarray(list(set(df_[user_column])))
     df_train, df_test = split_last_n_interaction_df(
-        df_[[user_column, item_column, time_column]],
+        df_,
         user_column,
         time_column,
         n_heldout=n_heldout,
-- 
2.43.0


From 186214c920fcd68c15e13fab3917c2770c61f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:45 +0000
Subject: [PATCH 09/21] fix: reject user ratios that select more users than
 there are

---
 src/irspack/split/userwise.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index ece7630..d7ad593 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -306,11 +306,8 @@ def split_dataframe_partial_user_holdout(
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
         test_user_ratio = n_test_user / n_users_all
-    else:
-        if (n_test_user + n_val_user) > n_users_all:
-            raise ValueError(
-                "n_val_user + n_test_users exceeds the number of total users."
-            )
+    if (n_test_user + n_val_user) > n_users_all:
+        raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
     df_all = df_all.drop_duplicates([user_column, item_column])
     rns = convert_randomstate(random_state)
-- 
2.43.0


From 8a18aeb724a04110e6b00caf206e3e224a429b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:59 +0000
Subject: [PATCH 10/21] fix: allow holding out the interactions of no
 validation and test user

---
 src/irspack/split/specified.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 0e0fd8c..7abd3f1 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -95,11 +95,12 @@ def holdout_specific_interactions(
             int(v_user_ratio_train * n_validatable_users),
             rns,
         )
-    v_test_users, v_val_users = _split_list(
-        v_val_test_users,
-        int(len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio),
-        rns,
-    )
+    n_val_users = 0
+    if val_test_ratio > 0.0:
+        n_val_users = int(
+            len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio
+        )
+    v_test_users, v_val_users = _split_list(v_val_test_users, n_val_users, rns)
     df_train = pd.concat(
         [
             df[df[user_column].isin(v_train_users)],
-- 
2.43.0


From d67518f16ad7c0100cf403c51151238439b23740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:30 +0000
Subject: [PATCH 11/21] fix: convert interactions with a zero rating to a
 dataframe

---
 src/irspack/split/userwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index d7ad593..912cad9 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -83,8 +83,8 @@ class UserTrainTestInteractionPair:
         if self.item_ids is None:
             raise RuntimeError("Setting item_ids is required to use this method.")
         X.sort_indices()
-        row, col = X.nonzero()
-        data = X.data
+        X_coo = X.tocoo()
+        row, col, data = X_coo.row, X_coo.col, X_coo.data
         return pd.DataFrame(
             dict(
                 user_id=[user_ids[r] for r in row],
-- 
2.43.0


From e78e05b43d3b61e7edb6bd39ec76430062b670df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:52 +0000
Subject: [PATCH 12/21] fix: evaluate recommendation dataframes whatever their
 columns are called

---
 src/irspack/evaluation/evaluate_df_to_df.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index cb24550..14acc3e 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -49,16 +49,12 @@ def evaluate_recommendation_df(
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
     user_index_to_ground_truth: Dict[int, List[int]] = {}
-    for rec_row in df_recommendation.itertuples():
-        uid = getattr(rec_row, user_column)
-        iid = getattr(rec_row, item_column)
+    for uid, iid in zip(df_recommendation[user_column], df_recommendation[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_recommendation.setdefault(u_index, []).append(i_index)
 
-    for gt_row in df_ground_truth.itertuples():
-        uid = getattr(gt_row, user_column)
-        iid = getattr(gt_row, item_column)
+    for uid, iid in zip(df_ground_truth[user_column], df_ground_truth[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_ground_truth.setdefault(u_index, []).append(i_index)
-- 
2.43.0


From e7afeec839c9922214aba99f7ec4954bd4bab2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:52 +0000
Subject: [PATCH 13/21] fix: send the Hugging Face token to Hugging Face only

---
 src/irspack/dataset/mind.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 2056cfb..a0f8aaa 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -103,11 +103,14 @@ class MINDDataManager:
                 )
                 url = f"{base_url}/{filename}"
                 print(f"downloading {url}...")
-                self._download(
-                    url,
-                    path,
-                    hf_token=hf_token if download_source == "huggingface" else None,
-                )
+                token: Optional[str] = None
+                if download_source == "huggingface":
+                    token = (
+                        hf_token
+                        or os.environ.get("HF_TOKEN")
+                        or os.environ.get("HUGGING_FACE_HUB_TOKEN")
+                    )
+                self._download(url, path, hf_token=token)
 
         self.size = size
         self.paths = paths
@@ -115,12 +118,7 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        token = (
-            hf_token
-            or os.environ.get("HF_TOKEN")
-            or os.environ.get("HUGGING_FACE_HUB_TOKEN")
-        )
-        headers = {"Authorization": f"Bearer {token}"} if token else {}
+        headers = {"Authorization": f"Bearer {hf_token}"} if hf_token else {}
         request = urllib.request.Request(url, headers=headers)
         temporary_path: Optional[Path] = None
         try:
-- 
2.43.0


From 3028b4fc9a11b1b98c18f55d6147911624d97ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:52 +0000
Subject: [PATCH 14/21] fix: do not leave a truncated archive behind an
 interrupted download

---
 src/irspack/dataset/downloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/downloader.py b/src/irspack/dataset/downloader.py
index 653cf89..67411b4 100644
--- a/src/irspack/dataset/downloader.py
+++ b/src/irspack/dataset/downloader.py
@@ -43,7 +43,12 @@ class BaseDownloader(metaclass=ABCMeta):
                 download = True
             if download:
                 print("start download...")
-                self._save_to_zippath(zippath)
+                partial_path = zippath.with_name(zippath.name + ".part")
+                try:
+                    self._save_to_zippath(partial_path)
+                    partial_path.replace(zippath)
+                finally:
+                    partial_path.unlink(missing_ok=True)
                 print("complete")
             else:
                 raise RuntimeError("could not read zipFile")
-- 
2.43.0


From 05534fab5f35968739b70164d209fb5d15ece470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 15/21] fix: do not keep a MIND archive whose download was cut
 short

---
 src/irspack/dataset/mind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index a0f8aaa..33d5619 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -2,6 +2,7 @@ import json
 import os
 import shutil
 import urllib.request
+from http.client import IncompleteRead
 from io import BytesIO
 from pathlib import Path
 from tempfile import NamedTemporaryFile
@@ -128,6 +129,9 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
+                if response.length:
+                    # The connection was closed before the whole body arrived.
+                    raise IncompleteRead(b"", response.length)
             temporary_path.replace(path)
         except HTTPError as err:
             if err.code in (401, 403):
-- 
2.43.0


From a0c2fcb688ba12a43c0f10dcaea6d911c7b1057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 16/21] fix: do not forward the Hugging Face token to redirect
 targets

---
 src/irspack/dataset/mind.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 33d5619..d89451c 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -119,8 +119,10 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        headers = {"Authorization": f"Bearer {hf_token}"} if hf_token else {}
-        request = urllib.request.Request(url, headers=headers)
+        request = urllib.request.Request(url)
+        if hf_token:
+            # Do not forward the token to the hosts the request is redirected to.
+            request.add_unredirected_header("Authorization", f"Bearer {hf_token}")
         temporary_path: Optional[Path] = None
         try:
             with urllib.request.urlopen(request) as response:
-- 
2.43.0


From d667d6734cea382fa1ec5764951e72d16a3dad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:55 +0000
Subject: [PATCH 17/21] fix: return the best parameters when a learnt parameter
 is also suggested

---
 src/irspack/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 3fd1676..22831ad 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -191,13 +191,13 @@ class Optimizer:
         )
 
         study.optimize(objective_func, n_trials=n_trials, timeout=timeout)
-        best_params = dict(
+        best_params = {
             **study.best_trial.params,
             **{
                 key: val
                 for key, val in study.best_trial.user_attrs.items()
                 if is_valid_param_name(key)
             },
-        )
+        }
         trials_df = study_to_dataframe(study)
         return (best_params, trials_df)
-- 
2.43.0


From e04b51db1d0f1b29227c450811bea1033b794c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:55 +0000
Subject: [PATCH 18/21] fix: tune_doubling_dimension when two dimensions reach
 the same score

---
 src/irspack/recommenders/ials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index c26f3dc..6a4e198 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -751,7 +751,7 @@ class IALSRecommender(
             prev_params = study.best_params.copy()
             dimension *= 2
         final_result_df = pd.concat([x[2] for x in results])
-        final_bp = sorted(results)[0][1]
+        final_bp = min(results, key=lambda x: x[0])[1]
 
         return final_bp, final_result_df
 
-- 
2.43.0


From 1bf0037cbf3189357c9f92aeecf61393628b6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:44 +0000
Subject: [PATCH 19/21] fix: keep every trial's scores when several workers
 share a study

---
 src/irspack/optimization/optimizer.py | 35 +++++++++++++--------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 22831ad..fbf193a 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -1,7 +1,7 @@
 import logging
 import re
 import time
-from typing import TYPE_CHECKING, Any, Callable, Dict, List, Optional, Tuple, Type
+from typing import TYPE_CHECKING, Any, Callable, Dict, Optional, Tuple, Type
 
 import pandas as pd
 
@@ -19,19 +19,15 @@ ParameterSuggestFunction = Callable[["Trial"], Dict[str, Any]]
 
 
 def add_score_to_trial(trial: "Trial", score: Dict[str, float], cutoff: int) -> None:
-    score_history: List[Tuple[int, Dict[str, float]]] = trial.study.user_attrs.get(
-        "scores", []
+    # One attribute per trial, so that the workers of a distributed optimization
+    # never overwrite each other's scores.
+    trial.study.set_user_attr(
+        f"scores_{trial.number}",
+        {
+            f"{score_name}@{cutoff}": score_value
+            for score_name, score_value in score.items()
+        },
     )
-    score_history.append(
-        (
-            trial.number,
-            {
-                f"{score_name}@{cutoff}": score_value
-                for score_name, score_value in score.items()
-            },
-        )
-    )
-    trial.study.set_user_attr("scores", score_history)
 
 
 def study_to_dataframe(study: "Study") -> pd.DataFrame:
@@ -42,12 +38,15 @@ def study_to_dataframe(study: "Study") -> pd.DataFrame:
         re.sub(r"^(user_attrs|params)_", "", colname) for colname in result_df.columns
     ]
 
-    trial_and_scores: List[Tuple[float, Dict[str, float]]] = study.user_attrs.get(
-        "scores", []
-    )
+    user_attrs = study.user_attrs
+    # studies started with older versions have a single "scores" attribute
+    trial_and_scores: Dict[int, Dict[str, float]] = dict(user_attrs.get("scores", []))
+    for key, scores in user_attrs.items():
+        matched = re.match(r"^scores_(\d+)$", key)
+        if matched is not None:
+            trial_and_scores[int(matched.group(1))] = scores
     score_df = pd.DataFrame(
-        [x[1] for x in trial_and_scores],
-        index=[x[0] for x in trial_and_scores],
+        list(trial_and_scores.values()), index=list(trial_and_scores.keys())
     )
     score_df.index.name = "number"
     result_df = result_df.join(score_df, how="left")
-- 
2.43.0


From 5a9038539c595f22425954e4ccfb1c9c968c3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:02 +0000
Subject: [PATCH 20/21] fix: start iALS factors at zero when init_std is 0
 instead of uninitialised memory

---
 cpp_source/als/IALSTrainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index c18aa0f..4f99cc3 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -72,6 +72,8 @@ struct Solver {
           factor(i, k) = dist(gen);
         }
       }
+    } else {
+      factor.setZero();
     }
   }
 
-- 
2.43.0


From 22f6ce98a126e6b71a23710371fd28bb644480c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:30 +0000
Subject: [PATCH 21/21] fix: give a row without interactions a zero iALS
 embedding with every solver

With the default alpha0=0 the Cholesky solver raised, the coordinate-descent
solver turned the whole model into NaN, and the subspace solver kept the random
initial vector for a user or an item without any interaction; CG already sets it
to zero, which minimises the loss.
---
 cpp_source/als/IALSTrainer.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 4f99cc3..2392c82 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -295,6 +295,11 @@ private:
           if (cursor_local >= target_factor.rows()) {
             break;
           }
+          if (X.outerIndexPtr()[cursor_local] ==
+              X.outerIndexPtr()[cursor_local + 1]) {
+            target_factor.row(cursor_local).setZero();
+            continue;
+          }
           P_local.noalias() = P;
           SymmetricMatrix P_adjoint = P_local.selfadjointView<Eigen::Upper>();
 
@@ -469,6 +474,10 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            target_factor_subspaced.row(cursor_local).setZero();
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
@@ -592,6 +601,10 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            target_factor_subspaced(cursor_local) = 0;
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
-- 
2.43.0

