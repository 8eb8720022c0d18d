"""Texts of the properties (source of properties.jsonl and MANIFEST.json)."""
NA = {}
META = []


def P(id, title, statement, over, quant, why, files, mech, observe, note, **kw):
    META.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                     observe=observe, note=note, **kw))


P("C01", "Rowwise split partitions every interaction and value exactly",
  "Splitting an interaction matrix row by row puts every stored interaction in exactly one of train and test with its value unchanged, so train + test equals the input (fractional and negative values included). Each row's test part has the promised number of interactions: floor (or ceil) of ratio times the row's interactions, or the fixed count capped at what the row has.",
  ["inputs", "configurations"], "every sparse matrix up to the bound with arbitrary real values, every ratio, fixed count, ceil mode and every shuffle order",
  "Tests use one integer matrix and a few ratios; fractional values, tie/rounding boundaries of ratio*n and all shuffle orders are not sampled.",
  ["cpp_source/util.hpp", "cpp_source/util.cpp", "src/irspack/utils/__init__.py"],
  [("SparseMatrix split by shuffled column buffer", "cpp_source/util.hpp: rowwise_train_test_split"), ("python front end", "src/irspack/utils/__init__.py: rowwise_train_test_split")],
  ["rowwise_train_test_split(X, ...) return values"],
  "Every matrix up to the stated sizes with symbolic values, symbolic ratio and every permutation of the shuffle.")

P("C07", "Recommendation lists: best allowed items, in order, no repeats",
  "Every top-N retrieval (by user id, by history, single or batch, any worker count) returns at most the requested number of distinct items, in non-increasing score order, each with the score the model gave it, and no item left out scores higher than one that is in. Only items permitted by the allow-list (per call or per user) and not in the forbid-list or the already-seen set appear, ids map to exactly the model column they were registered for, and items scored -inf never appear. The caller's score array and arguments are not modified.",
  ["inputs", "configurations", "schedules"], "every score array, allow/forbid list (duplicates, unknown ids included), cutoff, worker count and thread interleaving within the bound",
  "Tests check a few random score matrices; ties, duplicated/empty lists, cutoff zero and thread interleavings are not sampled.",
  ["src/irspack/utils/id_mapping.py", "cpp_source/util.hpp"],
  [("per-row partial sort with allow-list", "cpp_source/util.hpp: retrieve_recommend_from_score"), ("id mapping", "src/irspack/utils/id_mapping.py: IDMapper / ItemIDMapper")],
  ["ItemIDMapper.score_to_recommended_items(_batch)", "IDMapper.recommend_for_known_user_id(_batch)", "IDMapper.recommend_for_new_user(_batch)"],
  "Symbolic scores (including -inf), symbolic lists, every interleaving with at most 2 scheduling delays.")

P("C08", "Seen items are masked, and nothing else is changed by masking",
  "A recommender's masked scores for known users equal its raw scores except at the user's own training interactions (explicitly stored entries), which are -inf; masked scores for cold users do the same with the supplied history. Scores for a block of users, for a list of user ids and for all users agree, and the popularity recommender scores every item by the sum of its interaction values (their number, when all are one) for any user, known or new.",
  ["inputs"], "every training matrix and user selection within the bound",
  "Tests sample a few matrices and never compare all access paths on arbitrary user selections.",
  ["src/irspack/recommenders/base.py", "src/irspack/recommenders/toppop.py"],
  [("seen masking", "src/irspack/recommenders/base.py: get_score_remove_seen / get_score_remove_seen_block / get_score_cold_user_remove_seen"), ("base similarity scoring", "src/irspack/recommenders/base.py: BaseSimilarityRecommender / BaseUserSimilarityRecommender")],
  ["score arrays returned by get_score*"],
  "Symbolic training matrices, similarity matrices and histories.")

P("C09", "Ranking metrics equal their definitions for every score and truth",
  "For any score array and ground truth, the reported hit rate, recall, nDCG, MAP, precision, item coverage, entropy, Gini index, valid/total user counts equal the textbook definitions applied to each user's top-cutoff list, where the list holds the highest-scoring items (masked -inf items never count) restricted to the recommendable items in force. Users without ground truth are excluded from the averages but counted in the totals. The numbers do not depend on the number of threads, the block partition or the scheduling.",
  ["inputs", "schedules", "configurations"], "every score array, ground truth, recommendable-item configuration, cutoff, thread count and interleaving within the bound",
  "Tests compare against sklearn-like references on random float scores with one thread count; ties, empty users, restricted items and interleavings are not covered.",
  ["cpp_source/evaluator.cpp", "src/irspack/evaluation/evaluator.py"],
  [("per-thread metric accumulation and merge", "cpp_source/evaluator.cpp: EvaluatorCore::get_metrics"), ("metric definitions", "cpp_source/evaluator.cpp: Metrics")],
  ["EvaluatorCore.get_metrics_f64(...).as_dict()"],
  "Symbolic scores and ground truth, every interleaving with at most 2 scheduling delays.")

P("C10", "Evaluating a recommender scores exactly its masked recommendations",
  "Evaluating a known-user recommender gives the same numbers as computing its seen-masked scores for exactly the users from the evaluator's offset onwards and applying the metric definitions, for every mini-batch size and thread count. With the masking option set explicitly, exactly the given interactions are masked (and not the training ones). The target metric reported is the requested metric at the requested cutoff, for every requested cutoff.",
  ["inputs", "configurations"], "every score table, ground truth, offset, mini-batch size, mask and metric name within the bound",
  "Tests never vary the mini-batch size against the offset and check masks on one random case only.",
  ["src/irspack/evaluation/evaluator.py"],
  [("mini-batched evaluation", "src/irspack/evaluation/evaluator.py: Evaluator._get_scores_as_list / get_score / get_scores")],
  ["Evaluator.get_score", "Evaluator.get_scores", "Evaluator.get_target_score"],
  "Symbolic score tables and ground truth.")

P("C11", "Cold-user evaluation feeds exactly the input histories to the model",
  "Cold-user evaluation queries the model with exactly the input interactions of each user in order, hides exactly those interactions (or the explicitly given mask) from the recommendations, and the numbers equal the metric definitions on those masked scores for every mini-batch size. The input and ground-truth matrices must describe the same users.",
  ["inputs", "configurations"], "every history, ground truth, mask and mini-batch size within the bound",
  "Tests run one shape and one mini-batch size.",
  ["src/irspack/evaluation/evaluator.py"],
  [("cold user evaluation", "src/irspack/evaluation/evaluator.py: EvaluatorWithColdUser")],
  ["EvaluatorWithColdUser.get_score(s)"],
  "Symbolic histories, scores and ground truth.")

P("C13", "KNN similarities equal their formulas and keep the best top-k",
  "Item- and user-based nearest neighbour models use exactly the documented similarity (cosine, asymmetric cosine, Jaccard, Tversky, with shrinkage, optionally normalised and TF-IDF/BM25 weighted) between each pair of items or users. For each row exactly the top-k most similar neighbours are kept (fewer only when there are fewer non-zero ones) with their exact similarity, and an item or user is never its own neighbour in the recommender's similarity matrix. Results do not depend on the number of threads or scheduling.",
  ["inputs", "configurations", "schedules"], "every interaction matrix, shrinkage, alpha/beta, top_k, weighting scheme and thread count within the bound",
  "Tests compare random matrices at a single set of hyper-parameters with top_k larger than the item count.",
  ["cpp_source/knn/knn.hpp", "cpp_source/knn/similarities.hpp", "cpp_source/knn/wrapper.cpp", "src/irspack/recommenders/knn.py", "src/irspack/recommenders/user_knn.py"],
  [("blockwise threaded similarity", "cpp_source/knn/knn.hpp: KNN::compute_similarity_imple"), ("similarity formulas", "cpp_source/knn/similarities.hpp")],
  ["similarity matrices of the KNN recommenders and *SimilarityComputer.compute_similarity"],
  "Symbolic matrices and hyper-parameters.")

P("C14", "Random-walk similarities equal alpha-powered path probabilities",
  "P3alpha and RP3beta item weights equal the two-step random-walk transition probabilities with edge probabilities raised to alpha, divided (RP3beta) by the target item's popularity to the power beta, with at most top-k source items kept per target item, those of largest weight. With weight normalisation every non-empty row sums to one.",
  ["inputs", "configurations"], "every non-negative interaction matrix, alpha, beta, top_k and normalisation flag within the bound",
  "Tests check one random matrix per configuration.",
  ["cpp_source/knn/knn.hpp", "cpp_source/knn/similarities.hpp", "src/irspack/recommenders/p3.py", "src/irspack/recommenders/rp3.py"],
  [("random-walk similarity", "cpp_source/knn/similarities.hpp: P3alphaComputer / RP3betaComputer")],
  ["W_ / similarity matrix of the learnt recommender"],
  "Symbolic matrices; powers as uninterpreted-with-axioms or fixed exponents.")

P("C15", "SLIM coefficients are exact coordinate minimisers, non-negative, no self-loop",
  "Every SLIM column is what exact coordinate descent on the documented elastic-net objective produces from the zero vector in the given number of sweeps: the item's own coefficient is zero, and with the positivity option no coefficient is negative. With a per-column limit only that column's largest coefficients are kept, unchanged. The result does not depend on the number of threads or scheduling.",
  ["inputs", "configurations", "schedules"], "every interaction matrix, l1/l2 weight, limit, sweep count, visiting order, thread count within the bound",
  "Tests compare against scikit-learn on one matrix; limits, thread counts and visiting orders are not quantified.",
  ["cpp_source/util.hpp", "src/irspack/recommenders/slim.py"],
  [("threaded coordinate descent", "cpp_source/util.hpp: SLIM"), ("front end", "src/irspack/recommenders/slim.py")],
  ["SLIMRecommender.W"],
  "Symbolic matrices and regularisation, every visiting order.")

P("C16", "Dense SLIM and EDLAE weights solve their regularised problem exactly",
  "The dense item weight matrices have a zero diagonal and satisfy the stationarity conditions of the documented ridge (or dropout-weighted ridge) problem subject to that zero diagonal. User scores are the user's history times that matrix, for known and cold users alike.",
  ["inputs", "configurations"], "every interaction matrix, positive regularisation and dropout probability within the bound",
  "Tests check a random matrix numerically at one parameter.",
  ["src/irspack/recommenders/dense_slim.py", "src/irspack/recommenders/edlae.py"],
  [("closed form solution", "src/irspack/recommenders/dense_slim.py / edlae.py: _learn")],
  ["W of the learnt recommender"],
  "Symbolic matrices and regularisation; 3x3 inverses exact.")

P("C24", "Weighting and normalisation helpers equal their formulas",
  "BM25 and TF-IDF weighting multiply each interaction by the documented factor, with no effect on the sparsity pattern or the caller's matrix; removing the diagonal zeroes exactly the diagonal and keeps everything else; row normalisation of a CSC matrix makes each non-empty row sum to one while preserving proportions.",
  ["inputs", "configurations"], "every sparse matrix (empty rows/columns included) and parameters within the bound",
  "Tests sample one or two random matrices.",
  ["cpp_source/util.hpp", "cpp_source/util.cpp", "src/irspack/utils/__init__.py"],
  [("weighting", "cpp_source/util.hpp: okapi_BM_25_weight / tf_idf_weight / remove_diagonal"), ("l1 normalisation", "src/irspack/utils/__init__.py: l1_normalize_row")],
  ["return values"],
  "Symbolic matrices and parameters; log/sqrt as constrained functions.")

P("C25", "Threaded sparse product is exact for every thread count and schedule",
  "The multi-threaded sparse product equals the mathematical product for every shape, thread count and interleaving, and its inputs are unchanged. The thread-count setting resolves to the explicit argument, else the environment variable, else the machine's value, and an unusable value is rejected with an error.",
  ["inputs", "schedules", "configurations"], "every pair of sparse matrices, thread count (more threads than rows included) and interleaving within the bound; every environment value",
  "Tests run one random product with two thread counts.",
  ["cpp_source/util.hpp", "src/irspack/utils/__init__.py", "src/irspack/_threading.py"],
  [("row-block parallel product", "cpp_source/util.hpp: parallel_sparse_product"), ("thread count", "src/irspack/_threading.py: get_n_threads")],
  ["sparse_mm_threaded return value", "get_n_threads"],
  "Symbolic matrices, every interleaving with at most 2 scheduling delays.")

P("C02", "Last-n time split holds out exactly each user's latest interactions",
  "The time-based split puts every row of the table in exactly one of the two results with all its columns and its index label unchanged, and no held-out row of a user is older than a kept row of the same user. The number held out per user is the given count capped at the user's rows, or floor (ceil on request) of the ratio times the user's rows. The input table is not modified.",
  ["inputs", "configurations"], "every table up to the bound: any user pattern, any timestamps (ties included), any ratio, any count",
  "Tests check one random table with distinct-ish timestamps and a few ratios.",
  ["src/irspack/split/time.py"],
  [("sort by user and time, count from the end of each group", "src/irspack/split/time.py: split_last_n_interaction_df")],
  ["split_last_n_interaction_df return values"],
  "Symbolic timestamps, user identities and ratio on the real pandas.")

P("C03", "User hold-out split partitions users and interactions without loss",
  "The partial user hold-out split assigns every user to exactly one of train, validation and test with the requested numbers (or floor of ratio times users), and rejects requests for more users than exist. Each user's row contains exactly that user's distinct interactions with their ratings under the returned item order: all in the learning part for train users, and split between learning and held-out part for the others with the promised held-out count. With a time column no held-out interaction of a user is older than one left in the learning part.",
  ["inputs", "configurations"], "every event log up to the bound, any ratings/timestamps, counts or ratios, ceil mode, every outcome of the random shuffles",
  "Tests use one random log, never ratings, and never compare the matrices with the log.",
  ["src/irspack/split/userwise.py", "src/irspack/utils/__init__.py"],
  [("user shuffle and slices", "src/irspack/split/userwise.py: split_dataframe_partial_user_holdout"), ("per-user split", "src/irspack/split/userwise.py: split_train_test_userwise_random / _time")],
  ["split_dataframe_partial_user_holdout return values"],
  "Symbolic ratings, timestamps, ratios and shuffles.")

P("C04", "Holding out specified interactions leaks none of them into learning",
  "Holding out specified interactions assigns every user to exactly one of train, validation and test, and only users having a specified interaction can be in validation or test, in the requested shares up to rounding. For validation and test users the learning part counts exactly the unspecified events and the held-out part exactly the specified ones; for train users all events are in the learning part. Shares summing above one are rejected.",
  ["inputs", "configurations"], "every event log up to the bound, any indicator (mask or positions), any shares, every outcome of the shuffles",
  "Tests check one random log and aggregate counts only.",
  ["src/irspack/split/specified.py"],
  [("user partition and per-part matrices", "src/irspack/split/specified.py: holdout_specific_interactions")],
  ["holdout_specific_interactions return values"],
  "Symbolic shares and masks, every shuffle.")

P("C05", "Table-to-matrix conversion keeps every event under the right ids",
  "Converting an event table to a sparse matrix puts at the row and column labelled with a user and item the sum of the ratings of their events (the number of events when no rating column is given), and nothing anywhere else. When ids are supplied, rows and columns are exactly those ids in that order and events of other ids are dropped; otherwise the returned ids are exactly the distinct ids occurring.",
  ["inputs"], "every table up to the bound with arbitrary ids and ratings, any id lists",
  "Tests check one table.",
  ["src/irspack/utils/__init__.py"],
  [("categorical codes to csr", "src/irspack/utils/__init__.py: df_to_sparse")],
  ["df_to_sparse return values"],
  "Symbolic ids and ratings on the real pandas.")

P("C06", "Train/test pairs stay aligned through views, tables and concatenation",
  "A train/test pair exposes the given learning and held-out matrices unchanged (an all-zero held-out matrix when none is given), their sum, and tables listing each stored interaction once with its user id, item id and rating. Concatenating two pairs stacks users, learning and held-out parts in the same order and leaves the operands unchanged. Inconsistent shapes or id lists are rejected.",
  ["inputs"], "every pair of matrices up to the bound with arbitrary stored values (zeros included)",
  "Tests check one random dataset without zero ratings.",
  ["src/irspack/split/userwise.py"],
  [("pair container", "src/irspack/split/userwise.py: UserTrainTestInteractionPair")],
  ["X_train, X_test, X_all, df_train(), df_test(), concat()"],
  "Symbolic matrices.")

P("C12", "Evaluating recommendation tables equals the metrics of the listed items",
  "Evaluating a table of recommendations against a table of ground truth gives the metric definitions applied to each user's recommended items in table order and that user's distinct ground-truth items, averaged over the users occurring in both tables, whatever the row order, the column names, the index and the number of threads. The two tables are not modified.",
  ["inputs", "schedules"], "every pair of tables up to the bound: any coincidence of user and item ids, interleaved users, repeated ground-truth rows, users in one table only, any thread interleaving",
  "Tests compare one random table with the array-based evaluator.",
  ["src/irspack/evaluation/evaluate_df_to_df.py", "cpp_source/evaluator.cpp"],
  [("tables to lists", "src/irspack/evaluation/evaluate_df_to_df.py: evaluate_recommendation_df"), ("list metrics", "cpp_source/evaluator.cpp: evaluate_list_vs_list")],
  ["evaluate_recommendation_df return value"],
  "Symbolic ids on the real pandas and the compiled metric code.")

P("C21", "Early stopping keeps the best validated epoch and stops when promised",
  "Training with a validation evaluator runs epoch after epoch, validates exactly every validate_epoch epochs, stops after score_degradation_max consecutive validations without a strictly better score (or at max_epoch), and leaves the model in the state of the earliest epoch with the best validation score, reporting that epoch as the learnt number of epochs. Each validation that does not end the training is reported to the trial, and training is abandoned exactly when the trial asks for it. Without evaluator all epochs are run and the last state kept; saving and restoring a state brings back exactly the saved one.",
  ["inputs", "histories", "configurations"], "every sequence of validation scores (ties included), pruning decisions, epoch budget, validation frequency and patience within the bound",
  "Tests use one unimodal score curve.",
  ["src/irspack/recommenders/base_earlystop.py"],
  [("early stopping loop", "src/irspack/recommenders/base_earlystop.py: BaseRecommenderWithEarlyStopping.learn_with_optimizer"), ("state snapshot", "src/irspack/recommenders/base_earlystop.py: save_state / load_state")],
  ["epochs run and validated, final state, learnt_config, reports to the trial"],
  "Symbolic validation scores and pruning decisions.")

P("C22", "Tuning returns the best trial's parameters and a faithful history",
  "Hyper-parameter tuning trains one model per trial on the given (or suggested) data with exactly the suggested parameters overridden by the fixed ones, and returns the suggested and learnt parameters of a completed trial with the best value of the target metric; fixed parameters are not searched by default. The returned history has one row per trial with its parameters, minus its target score, and all metrics at the cutoff for completed trials, and no trial's scores are lost when several workers share a study. Dimension-doubling tuning searches each following dimension within the given factor of the previous best and returns the overall best, ties included.",
  ["inputs", "histories", "schedules"], "every assignment of scores (ties included), suggested values, pruned/completed outcomes, fixed parameters, resumed studies and every interleaving of two workers' study accesses within the bound",
  "Tests run one seeded study and never ties, shared studies or overridden parameters.",
  ["src/irspack/optimization/optimizer.py", "src/irspack/recommenders/base.py", "src/irspack/recommenders/ials.py"],
  [("objective and history", "src/irspack/optimization/optimizer.py: Optimizer / add_score_to_trial / study_to_dataframe"), ("tuning entry points", "src/irspack/recommenders/base.py: BaseRecommender.tune"), ("doubling", "src/irspack/recommenders/ials.py: IALSRecommender.tune_doubling_dimension")],
  ["return values of tune / optimize_with_study / tune_doubling_dimension, arguments the recommender class receives"],
  "Symbolic scores and suggestions on a model of the optuna study; traces and counterexamples run on the real optuna.")

P("C23", "Search ranges and configurations reach the recommender unchanged",
  "A parameter range is rejected exactly when its lower bound exceeds its upper bound, and otherwise asks the trial once for its (prefixed) name with exactly its bounds, step, scale or choices and returns what the trial answered. The default search space of a recommender proposes exactly its declared parameters except the fixed ones, all accepted by the recommender. Building a recommender from a configuration passes every configured value unchanged, keeps it, and refuses another recommender's configuration.",
  ["inputs", "configurations"], "every pair of bounds, every step and prefix, every subset of fixed parameters, arbitrary configuration values, all shipped recommenders",
  "Tests sample one study with fixed ranges.",
  ["src/irspack/optimization/parameter_range.py", "src/irspack/recommenders/base.py"],
  [("ranges", "src/irspack/optimization/parameter_range.py"), ("default suggestion and configuration", "src/irspack/recommenders/base.py: default_suggest_parameter / from_config")],
  ["requests made to the trial, constructor arguments, attributes"],
  "Symbolic bounds and configuration values.")

P("C26", "Dataset archives are complete or absent, and tokens stay where they belong",
  "Whatever happens during a download (connection cut or reset, timeout, interruption, any HTTP error, at any point), the archive path is at every moment either absent or complete, a failure is reported as an error and leaves no partial file behind, and a later attempt succeeds. Existing archives are used without asking or downloading; nothing is downloaded without consent. For MIND the archive fetched is that of the requested size, split and source, denied access (401, 403, 409) is reported as RuntimeError, and the Hugging Face token (argument, then HF_TOKEN, then HUGGING_FACE_HUB_TOKEN) is sent to Hugging Face only, never to another host.",
  ["inputs", "crash points", "fault schedules"], "every fault kind at every socket-level step, every HTTP error status, every combination of existing archives, consent, size, source and tokens within the bound",
  "Tests never exercise a failing download.",
  ["src/irspack/dataset/downloader.py", "src/irspack/dataset/mind.py", "src/irspack/dataset/neu_mf.py", "src/irspack/dataset/amazon_music.py"],
  [("download then rename", "src/irspack/dataset/downloader.py: BaseDownloader.__init__"), ("MIND download", "src/irspack/dataset/mind.py: MINDDataManager.__init__ / _download")],
  ["files present at every step, exceptions, requests sent"],
  "Symbolic fault point and HTTP status; the standard library's HTTP client runs on a stand-in socket.")

P("C17", "iALS updates solve the documented weighted least-squares problem",
  "In every training epoch the user factors, then the item factors, are the solution of the implicit-ALS normal equations for the current other side: confidence alpha0 on all pairs plus the (optionally log-scaled) interaction values, regularisation reg * (alpha0 * n_other + nnz)^nu, target 1 (or 1 + the alpha0 term for the ORIGINAL loss). Cholesky solves them exactly, conjugate gradient with enough steps does, one conjugate-gradient step minimises along the gradient, and iALS++ performs the block coordinate descent for the configured block size and iterations. Cold users and items are embedded by the same equations with the prediction-time settings; rows without interactions get the zero vector; nu_star rescales reg as documented; equations without a minimum (negative values) are refused by Cholesky and conjugate gradient instead of being answered silently. The result does not depend on the number of threads or the schedule.",
  ["inputs", "configurations", "schedules"], "arbitrary interaction values, alpha0, reg and factor entries within the bound, all solvers, losses, block sizes, thread interleavings with <= 2 scheduling delays",
  "Tests compare with a reference at a few random matrices and only after convergence.",
  ["cpp_source/als/IALSTrainer.hpp", "cpp_source/als/wrapper.cpp", "src/irspack/recommenders/ials.py"],
  [("solver steps", "cpp_source/als/IALSTrainer.hpp: Solver"), ("front end", "src/irspack/recommenders/ials.py: IALSRecommender")],
  ["get_user_embedding / get_item_embedding after run_epoch, compute_user_embedding, compute_item_embedding"],
  "Exact real arithmetic; the assertions are the normal equations themselves (a polynomial identity decided for all values).")

P("C18", "The reported iALS loss is the objective being minimised",
  "IALSTrainer.compute_loss returns half of: the confidence-weighted squared error over all user-item pairs (for both loss types), plus the frequency-scaled regularisation of the user and item factors, plus, with features, the distance to the feature prior and the ridge penalty of the feature weights; for any factors, any number of threads and any schedule.",
  ["inputs", "configurations", "schedules"], "arbitrary factors, interactions, hyper-parameters, feature matrices and weights within the bound; every interleaving with <= 2 scheduling delays",
  "Tests only check that the loss decreases on a random matrix.",
  ["cpp_source/als/IALSTrainer.hpp", "src/irspack/recommenders/ials.py"],
  [("loss", "cpp_source/als/IALSTrainer.hpp: IALSTrainer::compute_loss")], ["IALSTrainer.compute_loss()"],
  "The returned term is proved equal to the textbook sum over all pairs.")

P("C19", "Feature-aware iALS: prior, ridge weights, warm-up and cold-start scores",
  "With user or item features (dense or sparse, one or both sides) every epoch after the warm-up solves each row's equations with the feature prior (features times weights) and then sets the weights to the ridge solution (F' L F + lambda I) W = F' L U; during the warm-up epochs the update is the plain one and the weights stay zero. Embeddings of cold rows with features solve the same equations (with an empty history if none is given), and all feature-based scores are the products of those embeddings with the other side's factors, known items first and the additional items after. Wrong shapes, a non-positive lambda, the IALSPP solver, missing feature weights, undetermined rows and equations without a minimum are refused.",
  ["inputs", "configurations", "schedules"], "arbitrary interactions, feature entries, weights and hyper-parameters within the bound; every interleaving with <= 2 scheduling delays",
  "Tests sample a few random feature matrices at convergence.",
  ["cpp_source/als/IALSTrainer.hpp", "src/irspack/recommenders/ials.py"],
  [("feature-aware step", "cpp_source/als/IALSTrainer.hpp: IALSTrainer::step / update_feature_weight"), ("cold start", "src/irspack/recommenders/ials.py: compute_*_embedding_from_features")],
  ["factors and feature weights after run_epoch, embeddings, scores, exceptions"],
  "Exact real arithmetic; optimality conditions are the assertions.")

P("C20", "iALS scores, saved state and pickles agree with the factors",
  "get_score, get_score_block (any range, any number of threads), the cold-user and the embedding-based scores are all the inner products of the corresponding factors; ranges outside the users are refused. Saving and loading the state restores user and item factors and feature weights exactly, an unpickled model embeds and scores exactly like the original, and the random start is a function of the seed and proportional to init_std, whatever the number of threads.",
  ["inputs", "histories", "schedules"], "arbitrary factors, ranges and weights within the bound, every interleaving with <= 2 scheduling delays, arbitrary random draws",
  "Tests use a handful of matrices; block boundaries, feature weights in saved state and pickled configurations are not covered for all values.",
  ["cpp_source/als/IALSTrainer.hpp", "cpp_source/als/wrapper.cpp", "src/irspack/recommenders/ials.py"],
  [("block scores", "cpp_source/als/IALSTrainer.hpp: IALSTrainer::user_scores"), ("state", "src/irspack/recommenders/ials.py: IALSTrainer.save_state / load_state"), ("pickling", "cpp_source/als/wrapper.cpp")],
  ["return values, restored factors, exceptions"],
  "Arbitrary factors; the real pickle module carries the symbolic values.")

P("C27", "Dataset readers return every record of the archive, exactly",
  "For every archive of a supported dataset (MIND, MovieLens 100K/1M/20M, NeuMF splits, CiteULike-a, Amazon music) the reader returns one row per record of the file, in file order, with every id, rating, label, count and text in its own column unchanged and times converted to the instant they denote. MIND impressions give one row per candidate with its click label, its position within its own impression and its split (train before dev), clicks are exactly the candidates labelled 1, and an article or a NeuMF test pair listed more than once is returned once with the data of its first appearance. Genres are exactly the flags set; CiteULike document ids are zero-based and a user line with a wrong count is refused; a file missing from or ambiguous in a MIND archive, or an unknown split, is refused.",
  ["inputs", "configurations"], "every value of the cells (any equalities among ids, any labels, flags, counts and times) in archives up to the bound, every split selection and archive layout",
  "Tests read one or two hand-written lines per dataset; repeated ids, several impressions per user, wrong counts and other layouts are not sampled.",
  ["src/irspack/dataset/mind.py", "src/irspack/dataset/neu_mf.py", "src/irspack/dataset/citeulike.py", "src/irspack/dataset/amazon_music.py", "src/irspack/dataset/movielens/ML100K.py", "src/irspack/dataset/movielens/ML1M.py", "src/irspack/dataset/movielens/ML20M.py"],
  [("MIND long form", "src/irspack/dataset/mind.py: MINDDataManager.read_impressions"), ("1-vs-100 test pairs", "src/irspack/dataset/neu_mf.py: NeuMFDownloader.read_train_test"), ("genre flags", "src/irspack/dataset/movielens/ML100K.py: read_item_info")],
  ["data frames returned by the read_* methods, exceptions"],
  "Cells are solver terms from the moment they leave pandas' text parser; the native replay writes the model's values to a real archive.")

P("C28", "Factor models score by the factors their library fitted on the training data",
  "TruncatedSVD, NMF and BPRFM recommenders pass exactly the training matrix and the configured hyper-parameters to their library (the rank of an SVD capped below the number of items, one LightFM epoch per epoch, an unknown BPR loss refused), and whatever factors the library returns, the scores of known users (any selection or block), of cold users and from embeddings are the products of those factors (plus the item biases for BPR), and scoring before learning is refused. Mult-VAE training uses every user's history exactly once per epoch in minibatches of the configured size, minimises mean negative log-likelihood plus the KL term with the weight annealed linearly to its goal, carries parameters and optimiser state over, scores by the decoder at the posterior mean without dropout or noise, and a saved state restores the scores of the moment it was saved.",
  ["inputs", "configurations", "histories"], "arbitrary factors and network weights returned by the libraries, arbitrary interaction values, hyper-parameters, every shuffle and minibatch size within the bound",
  "The tests of these wrappers need the optional libraries and compare a few random runs with themselves.",
  ["src/irspack/recommenders/truncsvd.py", "src/irspack/recommenders/nmf.py", "src/irspack/recommenders/bpr.py", "src/irspack/recommenders/multvae.py"],
  [("SVD", "src/irspack/recommenders/truncsvd.py: TruncatedSVDRecommender"), ("NMF", "src/irspack/recommenders/nmf.py: NMFRecommender"), ("BPR", "src/irspack/recommenders/bpr.py: BPRFMTrainer / BPRFMRecommender"), ("Mult-VAE", "src/irspack/recommenders/multvae.py: MultVAETrainer / MultVAE")],
  ["arguments received by the libraries, get_score*, get_*_embedding, exceptions"],
  "sklearn, lightfm, jax, haiku and optax are uninterpreted: their results are solver variables and their calls are recorded.")
