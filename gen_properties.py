"""Writes properties.jsonl (kept as a generator so the long text stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

NOTEST = "The only runnable tests exercise the in-memory table class; nothing starts two parties, so no schedule, fault, history or multi-party input is ever reached. "
G, H = "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py"
TG, TH = "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py"
TI = "federation/transfer_inst.py"

prop("C01", "Federated training is lossless with respect to centralised boosting",
 "For any vertically partitioned dataset (labels at the guest, features spread over the guest and one or more hosts) and any admissible parameters, the jointly trained model is the one centralised second-order gradient boosting would produce on the pooled, binned features: every split is the best admissible one over all parties' selected features (up to numerical tolerance), and a node becomes a leaf only at the maximum depth or when no admissible split exceeds the minimum gain. "
 "Depth, minimum-sample and minimum-leaf limits always hold, children partition their parent's rows by the owner's feature value against the recorded threshold, and every leaf weight equals -G/(H+lambda) of exactly the training rows that reach it. "
 "This holds for binary, multi-class and regression tasks, for dense, sparse, constant, tied, negative and zero-valued columns and for any number of hosts.",
 ["inputs", "configurations", "schedules"], "all datasets, party counts, parameter settings and message schedules",
 NOTEST + "Losslessness quantifies over data, parameters and parties at once.",
 [TG, TH, G, H, "ml/tree/splitter.py", "ml/tree/feateur_histogram.py", "ml/tree/creterion.py", "ml/feature/binning/quantile_binning.py"],
 [("histogram accumulation over own plaintext and over ciphertexts", "ml/tree/feateur_histogram.py"), ("guest/host split merge", TG + " find_best_split_guest_and_host"), ("row dispatch between parties", TG + " redispatch_node / " + TH + " find_dispatch")],
 ["trees of every party after fit", "training rows routed through the union of the parties' thresholds"])

prop("C02", "Results do not depend on message timing or scheduling",
 "With the same data, parameters, randomness and host connection order, training and prediction give bit-for-bit the same trees, loss history, feature importances and predictions at every party however messages are delayed, fragmented into short reads and writes, buffered, or interleaved, and however slowly any party runs. "
 "No transient slowness, partition that heals, or clock jump may alter a result.",
 ["schedules", "fault_sequences"], "all delivery schedules, fragmentations, buffer sizes, stalls, healed partitions and clock jumps",
 NOTEST + "A test observes one accidental schedule of the operating system.",
 [TI, G, H, TG, TH], [("length-prefixed framing over a byte stream", TI), ("fixed send/receive order per protocol phase", TG + " fit / " + TH + " fit")],
 ["trees, history_loss, feature_importances_ and predictions of perturbed runs against the calm run"])

prop("C03", "Transport delivers each message exactly once, in order, intact, to its addressee",
 "For every sequence of sends and receives on the guest and host transport endpoints, each picklable value sent arrives exactly once, in order per direction, equal to its value at the moment of the send call, whatever the payload size and however the byte stream is fragmented. "
 "Sending to one host index reaches only that host, index -1 reaches every host exactly once, receiving with index -1 returns one value per host in host order, and any other index raises ValueError without sending or consuming anything.",
 ["schedules", "histories", "inputs"], "all interleavings, fragmentations, payloads and call histories with 1 to 4 hosts",
 NOTEST + "Short reads at every byte offset, and histories of mixed directed and broadcast operations, are never produced by a loopback test.",
 [TI], [("16-byte length header and read loop", TI + " send_data/recv_data"), ("index routing", TI + " send_data_to_hosts/recv_data_from_hosts")],
 ["values returned by the receive calls of every endpoint against a queue model"])

prop("C04", "A dead or disconnected peer is reported, never hung on or papered over",
 "If a party's process dies, or its connection is closed or reset, at any byte of any message in any phase of training or prediction, every other party either finishes with exactly the results of an undisturbed run or raises an error within a bounded number of steps. "
 "No surviving party may block forever, spin, accept a truncated message as data, or return a partial or different model or prediction as if it had succeeded, and no transport send or receive may return normally after its connection was reported broken during it.",
 ["crash_points", "fault_sequences", "schedules"], "every crash or disconnect point (byte offset of every message, either direction) of every party",
 NOTEST + "Crash points are byte positions inside a multi-party conversation.",
 [TI, TG, TH, G, H], [("end-of-stream detection in the read loop", TI + " recv_data")],
 ["outcome (result or exception) of every surviving party's fit/predict/transport call"])

prop("C05", "Training and prediction always make progress while the network makes progress",
 "With live parties and a network that eventually delivers every byte, fit and predict terminate at every party, for any send/receive buffer size, any stall or healed partition, any number of hosts and any admissible parameters. "
 "No schedule leaves two parties waiting for each other, and no party ends a phase with unread messages or with a message its peer still expects unsent.",
 ["schedules", "fault_sequences", "configurations"], "all buffer sizes, stalls, healed partitions, party counts, parameters and schedules",
 NOTEST + "Deadlock depends on buffer capacity and on the order in which parties reach matching sends and receives.",
 [TI, TG, TH, G, H], [("matching send/receive sequence of both roles", TG + " fit/predict, " + TH + " fit/predict"), ("empty-queue break taken by both roles", TG + " fit")],
 ["simulator deadlock and step-budget detection; residue in every pipe when the parties return"])

prop("C06", "The guest never discloses labels, gradients or scores to a host",
 "Nothing a host receives during training or prediction contains, in clear or as an unblinded encryption, a label, gradient, hessian, sum of them, split gain, leaf weight, boosted score, probability or loss value; gradients travel only as semantically secure ciphertexts under the guest's own key. "
 "Ciphertext blinding is fresh wherever the selected encryption mode promises re-encryption, and the guest's private key (or anything that yields it) is never sent. (The public fixed-point exponent that accompanies a ciphertext, the tree structure and the number of rounds are not counted as disclosures.)",
 ["inputs", "histories", "configurations"], "all datasets, tasks, parameters and complete message histories of a run",
 NOTEST + "Confidentiality is a statement about every value in every message of every run.",
 [TG, G, "ml/secureprotol/encrypt.py", "ml/secureprotol/fate_paillier.py", "ml/secureprotol/encrypt_mode.py", TI],
 [("gradient encryption before sending", TG + " sync_encrypted_grad_and_hess"), ("node masking", TG + " sync_tree_node_queue / sync_tree"), ("ciphertext obfuscation", "ml/secureprotol/fate_paillier.py")],
 ["every decoded guest-to-host message on the simulated wire"])

prop("C07", "Feature values and split thresholds never leave the party that owns them",
 "No message in any direction contains a party's raw or binned feature values, its bin boundaries, its split thresholds or bin indices, or its feature names or row identifiers (other than the alignment keys the parties share); a host reveals to the guest only encrypted statistics for admissible candidate splits, the anonymous index of its chosen feature, and the left/right outcome for the rows of its own nodes. "
 "What one host sends is not forwarded to another host beyond which site owns a node, the anonymous index of its feature, and which child a row goes to.",
 ["inputs", "histories", "configurations"], "all datasets, parameters, party counts and complete message histories of a run",
 NOTEST + "Confidentiality is a statement about every value in every message of every run.",
 [TH, TG, H, G], [("threshold masking through a local dictionary", TH + " encode/decode"), ("masked bid in the split sent back", TH + " sync_final_splitinfo_host")],
 ["every decoded message on the simulated wire, in both directions"])

prop("C08", "All parties finish training with one consistent model",
 "After fit returns, every party holds the same number of trees with identical structure: the same node ids, child links, leaf flags and owning site for each node, children allocated uniquely, and every node reachable. "
 "For each internal node the owning party, and only that party, holds a decodable feature and threshold, the threshold being one of its own bin boundaries for that feature, and no party is named owner of a node it cannot decide.",
 ["inputs", "configurations", "schedules"], "all datasets, parameters, party counts and schedules",
 NOTEST + "Agreement is between separately trained processes.",
 [TG, TH, G, H], [("tree broadcast at the end of each tree", TG + " sync_tree"), ("threshold dictionary pruning", TH + " remove_duplicated_split_nodes / convert_bin_to_real")],
 ["trees_ (serialised tree parameters) of every party after fit"])

prop("C09", "Predictions follow the trained trees, row by row",
 "For any batch of rows, the joint prediction of each row equals the initial score plus the learning-rate-weighted sum of the weights of the leaves that row reaches in the parties' trees, converted to probability, class or value as the task prescribes with the label attached unchanged, and the output has exactly the input's row keys. "
 "A row's prediction does not depend on the other rows in the batch, their order or their keys, nor on earlier calls, and predicting a training row reproduces its training-time score.",
 ["inputs", "histories", "configurations"], "all batches, batch orders, keys, party counts and trained models",
 NOTEST + "Prediction is a multi-round conversation whose path depends on the rows.",
 [TG, TH, G, H], [("alternating traversal of guest and host nodes", TG + " predict / " + TH + " predict"), ("score accumulation", G + " predict_f_value")],
 ["predict() output table of the guest against an independent walk of the parties' trees"])

prop("C10", "Calls are repeatable: inputs are not altered and models survive restart",
 "Fitting and predicting leave the caller's data tables and rows unchanged, so a table used for fit can be used again for predict or for another fit with the meaning it had before; predicting the same table twice gives the same answer and leaves the model unchanged. "
 "A party restarted with only its serialised trees (and the guest's scalar model state) rejoins and yields identical predictions.",
 ["histories", "crash_points", "inputs"], "all sequences of fit, predict and restart over shared tables",
 NOTEST + "The property is about histories of calls on shared objects and about restart from durable state.",
 ["ml/feature/binning/base_binning.py", "ml/tree/boosting_tree.py", G, H, TG, TH],
 [("format conversion and binning of input rows", "ml/tree/boosting_tree.py data_format_transform; ml/feature/binning/base_binning.py"), ("tree (de)serialisation", TG + " get_model/load_model, " + TH + " get_model/load_model")],
 ["deep snapshots of input tables before and after each call; predictions before and after restart"])

prop("C11", "Encryption modes are interchangeable over any call history",
 "For every sequence of encrypt calls, data shapes and re-encryption rates, what the strict, fast and balance calculators return decrypts row by row to the values passed in that call with the same keys and row structure, also when values repeat, change sign or are zero. "
 "In strict mode every call draws fresh blinding for every value; a call that fails part-way because the entropy source fails leaves the calculator able to serve a retried or later call correctly; and training in any mode yields the same model.",
 ["histories", "fault_sequences", "inputs"], "all call histories, values, modes, rates and entropy failures inside a call",
 NOTEST + "The fast and balance modes carry state from call to call, so correctness is about histories.",
 ["ml/secureprotol/encrypt_mode.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/fate_paillier.py"],
 [("difference-based update of previous ciphertexts", "ml/secureprotol/encrypt_mode.py encrypt")],
 ["decryption of every returned table; trained trees under each mode"], [("prev_data/prev_encrypted_data", "state carried between calls", "ml/secureprotol/encrypt_mode.py")])

prop("C12", "All parties run the same number of rounds and stop by the stated rule",
 "Training runs at most the configured number of rounds and one tree per class per round; with early stopping on, it stops after the first round whose loss differs from the previous round's by less than the tolerance, and every party stops after the same round; with it off, all rounds run. "
 "The loss history has one entry per completed round, each equal to the task's loss of the scores after that round over all training rows.",
 ["inputs", "configurations", "schedules"], "all datasets, tolerances, round counts, tasks and schedules",
 NOTEST + "Stopping is a distributed decision taken from data-dependent losses.",
 [G, H, "ml/optim/convergence.py", "ml/loss/cross_entropy.py", "ml/loss/regression_loss.py"],
 [("stop flag broadcast", G + " sync_stop_flag / " + H + " sync_stop_flag"), ("loss difference test", "ml/optim/convergence.py")],
 ["number of trees at every party, history_loss, stop flags on the wire"])

prop("C13", "Encrypted split statistics are exact, complete, and decide the agreed split",
 "For each open node the encrypted statistics a host submits decrypt to exactly the gradient and hessian sums of that node's rows on the left of each of its admissible candidate splits, with every admissible candidate present and no inadmissible one. "
 "The index the guest returns is a candidate of maximal gain above the threshold (or none when there is none), the split the host returns carries that candidate's statistics and gain, and rows dispatched to a host come back sent left or right by that very split; the split adopted for a node is the best of those the hosts returned and the guest's own.",
 ["inputs", "configurations", "histories"], "all nodes, batches, depths, trees, hosts, datasets and parameters",
 NOTEST + "The values exist only as ciphertexts between two processes.",
 [TG, TH, "ml/tree/splitter.py", "ml/tree/feateur_histogram.py", "ml/secureprotol/fate_paillier.py", "ml/secureprotol/fixedpoint.py"],
 [("homomorphic histogram", "ml/tree/feateur_histogram.py"), ("candidate enumeration", "ml/tree/splitter.py find_split_single_histogram_host"), ("best candidate choice", TG + " find_host_split")],
 ["decoded wire messages decrypted with the guest's key"])

prop("C14", "Key generation always terminates and yields working, independent keys",
 "For every supported key length, and for every entropy source that misbehaves (extreme, repeating or failing draws) for a bounded number of draws, generating a key pair terminates and produces a key of the requested size with two distinct prime factors, under which encryption followed by decryption (and ciphertext addition and scalar multiplication) returns the plaintext result. "
 "Distinct entropy gives distinct keys, and an entropy failure surfaces as an error rather than as a weak or partial key.",
 ["fault_sequences", "configurations", "inputs"], "all key lengths of either parity, ciphers (Paillier, RSA, affine), and entropy streams including extreme, repeating and failing ones",
 NOTEST + "Key generation loops until the entropy source satisfies it, so termination is about all entropy streams.",
 ["ml/secureprotol/fate_paillier.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/affine.py", "ml/secureprotol/gmpy_math.py"],
 [("prime search loop", "ml/secureprotol/fate_paillier.py generate_keypair; ml/secureprotol/gmpy_math.py getprimeover"), ("affine parameter search", "ml/secureprotol/affine.py generate_keypair")],
 ["keys and round trips under scripted entropy"])

prop("C15", "The guest and host programs work end to end",
 "Started with consistent arguments, the guest and host programs train and predict together on row-aligned splits of their files (every party's train and test parts hold the same rows), whatever the file sizes, the split ratio (both parts being non-empty), the number of hosts and the relative speed of the programs once the guest is listening, and all exit normally. "
 "The accuracy the guest prints equals the fraction of test rows predicted correctly by the equivalent library calls, and a log disk that fails or fills up during the run does not change or abort it.",
 ["schedules", "fault_sequences", "inputs", "configurations"], "all datasets, ratios, host counts, start orders, schedules and log-write failures",
 NOTEST + "No test starts the programs.",
 ["guest.py", "host.py", "i_o/utils.py", "ml/utils/logger.py", TI],
 [("same-seed shuffle in both programs", "guest.py data_split, host.py data_split"), ("argument handling", "guest.py, host.py")],
 ["program exit status and standard output; the trees the programs trained"])

prop("C16", "The component run interface returns every requested prediction",
 "Running a party through the component interface with training data, and optionally validation data, fits on the training data and returns one prediction per training row marked 'train' and one per validation row marked 'validation' (rows having distinct keys), equal to what separate fit and predict calls return, with the documented output header; run again with evaluation data only, the trained party returns one prediction per row marked 'test' and its model is unchanged; run again with training data, it gives what a first run would. "
 "With need_run off, it passes the data through untouched and exchanges no message, and invalid parameters are rejected before any message is sent.",
 ["inputs", "configurations", "schedules"], "all datasets, parameter dictionaries and schedules",
 NOTEST + "No test drives the component interface.",
 ["ml/model_base.py", "ml/utils/param_extract.py", "ml/tree/boosting_tree.py", G, H],
 [("stage selection and output assembly", "ml/model_base.py run/_run_data"), ("parameter extraction", "ml/utils/param_extract.py")],
 ["save_data() of the guest after run()"])

prop("C17", "Dataset loading is faithful or fails: never silently partial",
 "Reading a labelled or unlabelled CSV file returns exactly its rows in order - header names without the id and label columns, ids, labels and numeric features - independently of how the underlying reads are split. "
 "A read error, or a file whose rows do not match the header (a torn last row, a missing or extra column, a stray blank or non-numeric line), raises an error instead of yielding rows that are wrong, missing or misaligned.",
 ["fault_sequences", "crash_points", "inputs"], "all files, truncation points, read sizes and read errors",
 NOTEST + "Truncation points and read splits are not sampled by any test.",
 ["i_o/utils.py"], [("line-by-line parse", "i_o/utils.py read_from_csv_with_lable/read_from_csv_with_no_lable")],
 ["return values and exceptions of the two readers over a simulated disk"])

prop("C18", "Feature subsampling and feature importance are accounted correctly",
 "In every tree a party uses only features selected for that tree, max(1, floor(rate x features)) of its own, drawn afresh per tree from its random source; candidates and splits never use an unselected feature. "
 "The guest's feature importances equal, per (site, feature), the number of splits (or the total gain) over all trees of the model, with nothing missing and nothing extra.",
 ["inputs", "configurations", "schedules"], "all datasets, rates, random streams, trees and parties",
 NOTEST + "Sampling is random per tree and party; importance accumulates over the whole distributed run.",
 [G, H, TG, "ml/tree/splitter.py", "ml/tree/feateur_histogram.py"],
 [("random feature choice", G + " sample_valid_features, " + H + " sample_valid_features"), ("importance update", TG + " update_feature_importance; " + G + " update_feature_importance")],
 ["trees, feature_importances_, candidate counts on the wire"])

prop("C19", "Performance and security settings do not change what is learned",
 "The number of nodes split per batch, the encryption key length, the encryption mode and the re-encryption rate, and dense versus sparse input representation, do not alter the structure, thresholds, leaf weights or predictions of the model trained from the same data and randomness, up to numerical tolerance and to the choice between splits whose gains tie within it. "
 "Adding a host whose features are all constant changes neither the structure nor the predictions.",
 ["configurations", "inputs", "schedules"], "all pairs of settings differing only in these knobs, all datasets and schedules",
 NOTEST + "It relates pairs of complete distributed executions.",
 [TG, TH, "ml/secureprotol/encrypt_mode.py", "ml/tree/feateur_histogram.py", "ml/tree/boosting_tree.py"],
 [("batching of nodes", TG + " fit / " + TH + " fit"), ("node_map and positional split lists", TG + " federated_find_split/merge_splitinfo")],
 ["trees and predictions of the paired runs"])

# properties this family does not decide
prop("C20", "Table operations implement their relational meaning",
 "Mapping, filtering, joining, uniting, subtracting and reducing in-memory tables return the result their relational definition prescribes for every table and function.",
 ["inputs"], "all tables and functions", "Twelve example-based tests; the quantifier is over all tables and functions.",
 ["computing/d_table.py"], [("dictionary-backed table", "computing/d_table.py")], ["returned tables"])
prop("C21", "Quantile summaries meet their rank-error bound",
 "For every stream of values and every merge order, querying a quantile returns a value whose rank is within the configured relative error of the requested rank.",
 ["inputs"], "all value streams and error settings", "No test touches the summaries.",
 ["ml/feature/quantile_summaries.py"], [("Greenwald-Khanna compression", "ml/feature/quantile_summaries.py")], ["query results"])
prop("C22", "Loss gradients and hessians are the derivatives of the losses",
 "For every loss, the gradient and hessian returned for a label and score are the first and second derivative of the loss that is reported.",
 ["inputs"], "all labels, scores and loss parameters", "No test touches the losses.",
 ["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py"], [("closed-form derivatives", "ml/loss")], ["returned numbers"])
prop("C23", "Fixed-point encoding is exact within its stated precision for every number",
 "Encoding a number and decoding it returns it within the stated precision for every representable number and exponent.",
 ["inputs"], "all numbers", "No test touches the encoder.",
 ["ml/secureprotol/fixedpoint.py"], [("base-16 fixed point", "ml/secureprotol/fixedpoint.py")], ["decoded numbers"])
prop("C24", "Parameter objects reject exactly the inadmissible settings",
 "Checking a parameter object raises for every inadmissible value and accepts every admissible one.",
 ["inputs"], "all parameter values", "No test touches parameter checking.",
 ["ml/param"], [("check methods", "ml/param/*.py")], ["exceptions"])
prop("C25", "The single-process trainer matches centralised boosting",
 "The local, non-federated trainer produces the model centralised boosting would produce.",
 ["inputs"], "all datasets and parameters", "Its only test cannot be run in this environment.",
 ["xgboost/hetero_secureboosting_tree_guest.py", "xgboost/hetero_decision_tree_guest.py"], [("local training loop", "xgboost/")], ["trees"])

prop("C26", "A run leaves nothing behind that changes a later one",
 "What a training or a prediction produces depends on its data, its parameters and its random source only, not on what the process or the machine did before: after trainings and predictions of other data with other parameters in the same process, completed or broken off by a failing connection, a new model, or one of those trained before or broken off that is fitted again, trains and predicts exactly as in a fresh process, parameters the caller leaves alone have their documented defaults, and models trained earlier still predict what they predicted, also over a new connection after theirs broke; a broken call leaves the tables it was given unaltered. "
 "After guest and host programs have ended, normally, by a crash of either side, a broken connection or an operator, they can be started again at once on the same machines, with the same files and port, and give what they give on a fresh machine.",
 ["histories", "crash points", "inputs", "configurations", "schedules"], "all sequences of completed and broken runs before, all crash points, all datasets and parameters",
 NOTEST + "It relates whole executions to their histories: shared defaults, caches, files and ports only matter on a second run.",
 [G, H, TG, TH, "ml/param/boosting_tree_param.py", "federation/transfer_inst.py", "guest.py", "host.py", "ml/utils/logger.py"],
 [("parameter objects as default arguments, copied", "ml/param/boosting_tree_param.py BoostingTreeParam.__init__"), ("listening socket", "federation/transfer_inst.py TransferInstGuest.__init__"), ("log files opened at start", "ml/utils/logger.py MyLoggerFactory.build"), ("per-model state", G + " __init__, " + H + " __init__")],
 ["models, predictions and printed accuracy after a history, compared with those of a fresh process"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
