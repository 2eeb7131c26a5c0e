#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "A search runs exactly its trial budget and starts none after the time limit",
 "A request to run at most N trials for at most T seconds starts exactly N trials if T does not elapse first, and never more than N. Once T has elapsed since the request no worker picks up another trial (only the trials already picked up are finished), and if T has not elapsed all N trials are run; this holds for every request made one after another on the same pool. A request made while an earlier one is still running replaces what is left of that one: apart from trials already picked up, only its own budget and time limit count.",
 ["schedules","histories","configurations"],
 "every number of workers, every interleaving of workers and callers, every moment at which the time limit expires, every sequence of requests on one pool (including zero or negative budgets and limits)",
 "The pool tests are timing based (sleeps, one real schedule, and excluded from the stable suite as flaky); they never run a time limit that expires at a chosen point nor compare trial counts under other schedules.",
 ["src/thts.cpp","include/thts.h"],
 [("worker_fn takes a trial under the work lock and decrements the remaining count","src/thts.cpp worker_fn"),("work_left tests remaining trials and elapsed time","src/thts.cpp work_left"),("run_trials sets budget, start and limit","src/thts.cpp run_trials")],
 [("trials_remaining","trials not yet picked up","include/thts.h"),("start_time/max_run_time","time limit of the current request","include/thts.h")],
 ["user environment: a trial context is sampled when a trial starts and released when it ends","ThtsPool::run_trials/join return"])

prop("C02", "Running, joining and destroying a search pool always return",
 "Every blocking run request, every join and every destruction of the pool returns once its work is finished or its time limit has passed, however the workers and callers are scheduled. No wake-up is lost: not when the time limit passes while workers are idle or between two checks, not with more workers than trials, not for several joining threads, and not when the pool is destroyed while trials are running.",
 ["schedules","histories","configurations"],
 "every interleaving of worker, joiner and destructor steps (including spurious wake-ups), every expiry moment of the time limit, 1..n workers, any number of joiners",
 "A lost wake-up needs a specific interleaving of a notify, a wait and a clock reading; the tests run one schedule with real sleeps, and the thread-pool tests are excluded from the stable suite.",
 ["src/thts.cpp","include/thts.h"],
 [("condition variables signalled when a worker finds no work","src/thts.cpp worker_fn"),("join waits until no work is left and no worker is busy","src/thts.cpp join"),("destructor clears the alive flag and wakes the workers","src/thts.cpp ~ThtsPool")],
 [("num_threads_working","workers inside a trial","include/thts.h"),("thread_pool_alive","cleared by the destructor","include/thts.h")],
 ["return of ThtsPool::run_trials, ThtsPool::join, ~ThtsPool under a controlled scheduler"])

prop("C03", "Pool reuse: join means quiescent, re-targeting is safe, destruction is final",
 "When a blocking run or a join returns, no trial is in progress; a non-blocking run returns without waiting for the trials. Re-targeting an idle pool at a new problem succeeds and every later trial works on, and is logged for, the new problem only, while re-targeting a pool that still has trials to run or in progress is refused with an error and changes nothing. After destruction returns no further trial or environment call happens, and destruction starts no new trial.",
 ["schedules","histories"],
 "every history of run, join, re-target and destroy calls, blocking or not, and every interleaving of those calls with the workers",
 "No test re-targets a pool, none destroys a busy pool, and none looks at the state of trials at the instant a call returns.",
 ["src/thts.cpp","include/thts.h"],
 [("set_new_env refuses while working","src/thts.cpp set_new_env"),("join condition covers in-flight trials","src/thts.cpp join"),("destructor joins the workers","src/thts.cpp ~ThtsPool")],
 [("root_node/thts_manager/logger","the problem currently searched","include/thts.h")],
 ["user environment call-backs","exceptions from ThtsPool::set_new_env"])

prop("C04", "Every trial is a legal walk from the root that stops where it must",
 "Each trial starts at the root, visits a decision node, takes one of that state's valid actions, visits the matching chance node, takes one of its possible outcomes, and continues at the decision node reached, visiting every node on the way exactly once. It stops at the first sink state or at the maximum depth and, in tree-expansion (MCTS) mode, also at the first decision node reached through an outcome that was new to its chance node; it stops nowhere else, and environments may make trials of unequal length.",
 ["inputs","schedules","configurations"],
 "every environment, algorithm, depth limit, expansion mode and transposition setting, and every interleaving of concurrent trials",
 "Tests walk fixed trees of mocks with one thread; they never combine depth limits, sinks, expansion mode and concurrent expansion of the same chance node.",
 ["src/thts.cpp","src/thts_decision_node.cpp","src/thts_chance_node.cpp"],
 [("run_selection_phase / should_continue_selection_phase","src/thts.cpp"),("is_leaf / is_sink","src/thts_decision_node.cpp")],
 [], ["virtual visit/select/sample calls on user-subclassable nodes","environment call-backs"])

prop("C05", "Each trial backs up exactly its own path with the right rewards",
 "After the walk, every chance node and decision node on the path is backed up exactly once, bottom-up and chance node before its decision node, and nothing else is backed up. Each receives the rewards collected before it in order, the rewards from it onwards (most recent first, starting with the heuristic value of the final node), their sum, and the total return of the whole trial.",
 ["inputs","schedules","configurations"],
 "every path length (including zero), every reward sequence including negative and outcome-dependent rewards, every algorithm, every interleaving with other trials",
 "Tests check one or two fixed paths on mocks with one thread.",
 ["src/thts.cpp"],
 [("run_backup_phase","src/thts.cpp"),("reward obtained from the environment per step","src/thts.cpp run_selection_phase")],
 [], ["virtual backup calls and their arguments"])

prop("C06", "Multi-threaded search and evaluation are free of data races",
 "While several workers search the same tree, log, or evaluate a policy, and while the caller uses the pool's public calls, any two conflicting accesses to shared memory are ordered by synchronisation. This holds for every algorithm, with and without a transposition table, for any number of transposition-table locks and with logging on.",
 ["schedules","configurations","inputs"],
 "every interleaving of workers and callers, every algorithm and option combination",
 "The tests never run under a race detector and the algorithms are never run multi-threaded by the stable suite with assertions that could notice a race.",
 ["src/thts.cpp","src/thts_chance_node.cpp","src/thts_decision_node.cpp","include/algorithms/common/","src/algorithms/","src/mc_eval.cpp","include/thts_manager.h"],
 [("one lock per node, children locked while read by their parent","src/thts_decision_node.cpp, src/thts_chance_node.cpp"),("transposition-table locks","src/thts_chance_node.cpp create_child_node_itfc"),("logging lock, random-generator lock, evaluator lock","src/thts.cpp, include/thts_manager.h, src/mc_eval.cpp")],
 [], ["memory accesses and synchronisation operations of the compiled code (compiler instrumentation)"])

prop("C07", "Concurrent tree search never deadlocks, even when nodes are shared",
 "No set of workers searching one tree can block each other forever, in any algorithm, including when a transposition table lets several chance nodes share decision nodes and while a logger reads the root. A lock taken for a node is released by the end of the operation on that node, also when the operation is repeated by many workers.",
 ["schedules","inputs","configurations"],
 "every interleaving of selection, sampling, backup and logging steps; every environment whose states can be reached along several paths; every algorithm and number of transposition-table locks",
 "Deadlock needs two workers holding different shared children at the same instant; tests use no shared nodes with more than one thread.",
 ["src/thts_chance_node.cpp","src/thts_decision_node.cpp","include/algorithms/common/dp_chance_node.h","include/algorithms/common/ent_chance_node.h","src/thts.cpp"],
 [("parents lock all children in one global order","src/thts_chance_node.cpp lock_all_children"),("lock order manager table -> nothing","src/thts_chance_node.cpp create_child_node_itfc")],
 [], ["controlled scheduler: set of blocked threads"])

prop("C08", "No visit or backup is ever lost or double counted",
 "Whenever no trial is in progress, every node's visit count equals its initial (pseudo) count plus the number of trials whose walk passed through it; a chance node's visits equal the sum over outcomes of the passages into its children, and a decision node's passages equal the trials that ended there plus those that continued into its chance nodes. Backup counts likewise equal the initial count plus the trials backed up through the node (plus one per visit for nodes that can only end trials, in the algorithms that count them).",
 ["schedules","inputs","configurations"],
 "every interleaving of any number of workers, all algorithms, shared nodes included",
 "Lost updates only show under particular interleavings; the tests compare counts only for single-threaded runs on one grid.",
 ["src/thts.cpp","src/thts_decision_node.cpp","src/thts_chance_node.cpp","src/algorithms/"],
 [("counters updated under the node lock","src/thts.cpp run_selection_phase/run_backup_phase")],
 [("num_visits, num_backups","per-node counters","include/thts_decision_node.h, include/algorithms/*")],
 ["node counters after join"])

prop("C09", "Transposition table: one node per (timestep, outcome), shared and never stale",
 "With the table on, all chance nodes at the same timestep that reach the same observation share one decision node, different timesteps or different observations never share, and with the table off nothing is shared. Concurrent discovery of the same state by several workers still creates one node, and after a tree has been discarded the table never hands out or fails on its dead nodes: a new search with the same manager works and builds fresh nodes.",
 ["schedules","histories","inputs","configurations"],
 "every environment graph, every interleaving of concurrent discoveries, every number of table locks, every history of building and discarding trees with one manager",
 "One single-threaded unit test checks a hit; no test uses several locks, concurrent discovery, or a reused manager.",
 ["src/thts_chance_node.cpp","include/thts_manager.h","include/thts_types.h"],
 [("create_child_node_itfc looks up and inserts under the table lock","src/thts_chance_node.cpp")],
 [("dmap / dmap_mutexes","the table and its locks","include/thts_manager.h")],
 ["identity of decision nodes reached through chance nodes"])

prop("C10", "The search tree only ever represents legal histories of the environment",
 "Every chance-node child belongs to a valid action of its decision node's state and every decision-node child to an outcome the environment can produce with positive probability from that state and action; a child's state, depth and timestep follow from its parent's (a decision child is one deeper and one later, a chance child is at its parent's). Nodes, once added, keep their identity, state, position and place in the tree, looking up or re-creating an existing child returns that same child, and a sink state's heuristic value is zero while any other node's is the supplied heuristic of its state.",
 ["inputs","schedules","configurations","histories"],
 "every environment, every algorithm, every interleaving, the whole life of a tree",
 "Tests look at a few hand-made nodes; no test checks whole trees produced by the algorithms.",
 ["src/thts_decision_node.cpp","src/thts_chance_node.cpp","src/algorithms/"],
 [("create_child_node_itfc / create_child_node_helper of every algorithm","src/thts_*_node.cpp, src/algorithms/*"),("children maps keyed by value equality","include/thts_types.h")],
 [("children, state, action, decision_depth, decision_timestep, heuristic_value","node identity","include/thts_decision_node.h, include/thts_chance_node.h")],
 ["tree reachable from the root"])

prop("C11", "UCT and PUCT values are the exact averages of backed-up returns",
 "In UCT and PUCT every chance node's value is the arithmetic mean of the returns-from-here of all trials backed up through it, and every decision node's value is that mean including the configured number of pseudo-trials of its heuristic value (the heuristic alone before any backup). The order in which concurrent trials back up does not matter beyond rounding.",
 ["inputs","schedules","configurations"],
 "every reward stream, heuristic, number of pseudo-trials, interleaving and tree shape",
 "Unit tests feed a handful of numbers to one node; no test relates node values to the trials of a whole run.",
 ["src/algorithms/uct/uct_decision_node.cpp","src/algorithms/uct/uct_chance_node.cpp","src/algorithms/uct/puct_decision_node.cpp"],
 [("incremental mean","backup_average_return"),("pseudo-trial initialisation","UctDNode constructor")],
 [("avg_return, num_backups","value and weight","include/algorithms/uct/*.h")],
 ["node values after each backup"])

prop("C12", "UCT and PUCT choose by the UCB rule from the mover's point of view",
 "Without a prior, an action never tried at a node is chosen (uniformly among the untried) before any other; otherwise the chosen action maximises value plus bias times exploration term (log- or power-based on the node's and the child's visits, times the prior if given), with values negated for the opponent and ties broken uniformly. The automatic bias is the largest absolute child value (but at least its configured minimum), and with exploration probability e a uniformly random valid action is taken instead.",
 ["inputs","schedules","configurations"],
 "every set of child statistics, every bias, power, prior, exploration probability and player, at every point of a concurrent search",
 "Unit tests fix a few statistics; no test checks every selection made in real runs, the opponent's side with priors, or the automatic bias with negative values.",
 ["src/algorithms/uct/uct_decision_node.cpp","src/algorithms/uct/puct_decision_node.cpp","src/helper_templates.cc"],
 [("fill_ucb_values / compute_ucb_term / select_action_ucb / select_action_random","src/algorithms/uct")],
 [], ["actions returned by select_action given the node's statistics"])

prop("C13", "Recommended actions are the best ones by the documented criterion",
 "Asking any node for a recommendation returns a valid action of its state that maximises the configured criterion from the mover's point of view: most visits if so configured, else the algorithm's value estimate (average return, soft value, dynamic-programming value or empirical average), where actions reaching the configured visit threshold take precedence over those that do not. Ties are broken uniformly, a node without children recommends a uniformly random valid action (or, for the soft-value criterion, by the default values), and asking does not change the tree.",
 ["inputs","configurations","histories"],
 "every tree reachable by search, every algorithm, threshold, mode and player",
 "Unit tests check UCT on fixed numbers and integration tests only the final action on two toy problems.",
 ["src/algorithms/uct/uct_decision_node.cpp","src/algorithms/ments/ments_decision_node.cpp","src/algorithms/ments/dbments_decision_node.cpp","src/algorithms/ments/dents/dents_decision_node.cpp","src/algorithms/common/dp_decision_node.cpp","src/algorithms/common/emp_node.cpp"],
 [("recommend_action of each algorithm","src/algorithms"),("get_max_key_break_ties_randomly","src/helper_templates.cc")],
 [], ["actions returned by recommend_action_itfc"])

prop("C14", "MENTS, RENTS and TENTS soft values equal their defining formulas",
 "After each backup a MENTS-family decision node's soft value is temperature times the log-sum-exp of its actions' soft Q-values over temperature (weighted by the parent's policy in RENTS, the sparse-max over the node's recorded Q-values in TENTS), negated in and out for the opponent, with untried actions valued by the prior's pseudo-value or the default value. A chance node's soft value is the environment reward plus the backup-count-weighted mean of its backed-up children, the results stay finite wherever the formula is finite even for very large value-to-temperature ratios, and a fresh node's value is its heuristic or default.",
 ["inputs","schedules","configurations"],
 "every temperature, reward scale, prior, default value, player and tree; every point of a concurrent search",
 "Tests compare final values on two toy problems with loose tolerances; single-node formulas, priors, large ratios and opponents are not tested.",
 ["src/algorithms/ments/ments_decision_node.cpp","src/algorithms/ments/ments_chance_node.cpp","src/algorithms/ments/rents/rents_decision_node.cpp","src/algorithms/ments/tents/tents_decision_node.cpp"],
 [("backup_soft / compute_action_weights / get_soft_q_value","src/algorithms/ments"),("spmax, q-value maps","src/algorithms/ments/tents")],
 [("soft_value, num_backups","value and weight","include/algorithms/ments/*.h")],
 ["node values after each backup"])

prop("C15", "Entropic searches sample actions from exactly their documented policy",
 "At every decision node of MENTS, RENTS, TENTS, DB-MENTS, DENTS and EST the action distribution is the algorithm's Boltzmann (or sparse-max) policy over its Q-values at the current temperature, mixed with the prior by its decaying weight and with the uniform distribution by exploration probability min(cap, epsilon/log(visits+1)), using the root's own epsilon at the root if set. It is a probability distribution over the valid actions (negligible entries may be dropped), and actions are drawn from it.",
 ["inputs","schedules","configurations"],
 "every set of child statistics, temperature schedule, epsilon, cap, prior weight, player and depth",
 "No test looks at the distributions themselves except two fixed cases.",
 ["src/algorithms/ments/ments_decision_node.cpp","src/algorithms/ments/rents/rents_decision_node.cpp","src/algorithms/ments/tents/tents_decision_node.cpp","src/algorithms/ments/dents/dents_decision_node.cpp","src/algorithms/est/est_decision_node.cpp"],
 [("compute_action_distribution / compute_action_weights / select_action","src/algorithms/ments")],
 [], ["distribution computed by and actions drawn at decision nodes"])

prop("C16", "Dynamic-programming and empirical values are exact Bellman and mean backups",
 "In DB-MENTS, DENTS and EST (dynamic-programming mode) a decision node's value after a backup is the maximum (minimum for the opponent) over its backed-up actions and a chance node's value is the environment reward plus the backup-count-weighted mean of its children, a node never backed up having its heuristic value; in empirical mode the values are running means of the returns, the decision node's including one pseudo-trial of its heuristic.",
 ["inputs","schedules","configurations"],
 "every environment, heuristic, reward stream, player, mode and interleaving",
 "Tests check end results on two toy problems with tolerances.",
 ["src/algorithms/common/dp_decision_node.cpp","src/algorithms/common/dp_chance_node.cpp","src/algorithms/common/emp_node.cpp","src/algorithms/ments/dbments_decision_node.cpp","src/algorithms/ments/dbments_chance_node.cpp","src/algorithms/est/","src/algorithms/ments/dents/"],
 [("backup_dp / backup_emp / visit_dp","src/algorithms/common")],
 [("dp_value, avg_return, num_backups","values and weights","include/algorithms/common/*.h")],
 ["node values after each backup"])

prop("C17", "DENTS entropies and soft values follow the search policy",
 "In DENTS a decision node's subtree entropy is the entropy of its current search policy (counted negatively for the opponent) plus the policy-weighted subtree entropies of its children, a chance node's is the visit-weighted mean over its children, and both are finite for every legal configuration. The Q-value used for search is the value estimate plus the decayed value temperature times the child's subtree entropy, and the stored soft value equals the node's value plus its value temperature times its entropy; EST uses the value estimate alone.",
 ["inputs","schedules","configurations"],
 "every environment, temperature schedule, epsilon (including zero), player and mode",
 "Tests check end results on toy problems only.",
 ["src/algorithms/common/ent_decision_node.cpp","src/algorithms/common/ent_chance_node.cpp","src/algorithms/ments/dents/","src/algorithms/est/"],
 [("backup_ent","src/algorithms/common"),("get_soft_q_value, get_value_temp, backup","src/algorithms/ments/dents")],
 [("local_entropy, subtree_entropy, soft_value","per-node values","include/algorithms/common/ent_*.h")],
 ["node values after each backup"])

prop("C18", "Two-player search is exactly symmetric between the players",
 "In a two-player zero-sum game, negating all rewards, heuristics and default values and letting the other player move first yields, for the same random choices, the same walks, the same recommendations and exactly negated values at every node, in every algorithm. In particular the player to move at odd timesteps minimises, and single-player searches never treat any node as an opponent's.",
 ["inputs","configurations","schedules"],
 "every environment, algorithm and option combination",
 "No stable test runs a two-player game through an algorithm.",
 ["src/thts_decision_node.cpp","src/thts_chance_node.cpp","src/algorithms/"],
 [("is_opponent and the sign applied in every value, selection and recommendation rule","src/algorithms")],
 [], ["paired runs: node values, walks and recommendations"])

prop("C19", "Sampling follows the given weights and never fails on a valid distribution",
 "Drawing from a weighted map, categorical, uniform or mixed distribution returns each key with probability proportional to its current weight, never a key of zero weight or a key not in the distribution, and a draw fails with an error only if masses declared normalised do not sum to one. This holds for unnormalised weights of any positive total, with the direct and the alias method, after any sequence of weight updates, key insertions and replacements of the distribution (once the configured refresh interval is reached), and picking a maximal key returns each maximal key with equal probability and no other.",
 ["inputs","histories","configurations"],
 "every weight map, every random draw, every sequence of updates, both sampling methods and every refresh interval",
 "Tests use a few fixed weight maps; no test changes the size of an alias-sampled distribution or uses weights summing to less than one.",
 ["src/helper_templates.cc","src/distributions/categorical_distribution.cc","src/distributions/discrete_uniform_distribution.cc","src/distributions/mixed_distribution.cc"],
 [("sample_from_distribution, get_max_key_break_ties_randomly","src/helper_templates.cc"),("alias table construction","src/distributions/categorical_distribution.cc")],
 [], ["keys returned for given random draws"])

prop("C20", "Seeded runs reproduce and random draws stay in range",
 "Random integers lie in the requested half-open range and random reals in [0,1), and both streams are spread over their whole range. Two managers with the same non-zero seed produce identical streams, so a single-threaded search or evaluation with the same non-zero seed, environment and options builds an identical tree and makes identical recommendations, while seed zero gives independent streams.",
 ["inputs","histories","configurations"],
 "every seed, range and call sequence; every algorithm and option combination",
 "Tests mock the random source.",
 ["include/thts_manager.h","src/thts.cpp","src/algorithms/"],
 [("seeded generators behind one lock","include/thts_manager.h")],
 [], ["values drawn; paired seeded runs"])

prop("C21", "Monte-Carlo evaluation runs the asked roll-outs and reports their statistics",
 "An evaluation runs exactly the requested number of roll-outs for any number of threads; each starts in the initial state with its own context, takes recommended actions while inside the tree and valid uniformly random actions once outside, and ends at a sink state or after the maximum number of actions, whichever comes first. Its return is the sum of the rewards on the way, and the reported mean and standard deviation are those of all returns sampled so far.",
 ["inputs","schedules","configurations"],
 "every tree, environment (including ones that never reach a sink), roll-out length, number of roll-outs and threads, every interleaving",
 "Evaluation has no test at all.",
 ["src/mc_eval.cpp","include/mc_eval.h"],
 [("run_rollout / thread_run_rollouts / get_mean_return / get_stddev_return","src/mc_eval.cpp"),("EvalPolicy follows the tree","src/mc_eval.cpp")],
 [], ["environment call-backs during roll-outs; reported statistics"])

prop("C22", "The search log records the root's progress faithfully and on schedule",
 "The log begins with a zero entry, then gains an entry after every configured number of completed trials or elapsed run time, each holding the total run time so far (earlier runs included) and the root's true statistics at that moment, so run times and visits never decrease. It keeps working across consecutive runs and under concurrency without losing or duplicating entries, and writing it out gives one header and one row per entry with all the columns of the logger's kind.",
 ["histories","schedules","configurations"],
 "every sequence of runs (trial- or time-limited), every trial and time interval, every logger kind, every interleaving of workers",
 "Logging has no test.",
 ["src/thts_logger.cpp","src/thts.cpp","src/algorithms/uct/uct_logger.cpp","src/algorithms/ments/ments_logger.cpp","src/algorithms/ments/dbments_logger.cpp"],
 [("should_log thresholds, try_log under the logging lock","src/thts_logger.cpp, src/thts.cpp")],
 [("entries, prior_runtime, thresholds","log state","include/thts_logger.h")],
 ["CSV written by write_to_ostream"])

prop("C23", "The per-trial context is a faithful key-value store private to its trial",
 "A value put under a key is returned unchanged (same object) by every later lookup until it is overwritten or erased, mutable and constant entries never interfere with each other, other keys are unaffected, and looking up an absent key raises an error. Each trial gets one context of its own, passed to every node operation of that trial and to no other trial.",
 ["histories","schedules","inputs"],
 "every sequence of put, get, overwrite and erase operations over any keys and value types; every interleaving of concurrent trials",
 "One test stores two values and reads them back.",
 ["src/thts_env_context.cpp","include/thts_env_context.h","src/thts.cpp"],
 [("two maps of shared pointers","src/thts_env_context.cpp"),("context sampled per trial","src/thts.cpp run_thts_trial")],
 [], ["context API; context identity in node call-backs"])

prop("C24", "Equal states and actions are interchangeable everywhere",
 "For the built-in state, observation and action types, equality is an equivalence that holds exactly when type and contents agree, equal objects have equal hashes and print identically, and unequal contents print differently; collections of values, and distributions over them, print every element. Looking up a child, a policy entry or a transposition entry therefore works with any equal object, not just the identical one.",
 ["inputs"],
 "every pair of values of the built-in types, including negative and extreme integers, swapped components and empty strings",
 "Tests never compare objects across types or look up with equal-but-not-identical keys systematically.",
 ["src/thts_types.cpp","include/thts_types.h","src/helper_templates.cc"],
 [("equals_itfc / hash / std::equal_to specialisations","src/thts_types.cpp")],
 [], ["equality, hash, printing, map lookups"])

prop("C25", "Temperatures decay exactly by the configured schedule and never below the floor",
 "The search and value temperatures at a node equal the initial temperature times the chosen decay function of the scaled visit count, never below the configured minimum, using the root's own scale at the root if one is set, and stay constant if no schedule is set. The decay functions start at one, never increase with visits and stay positive (as far as a double can represent them).",
 ["inputs","configurations"],
 "every visit count, scale, initial and minimum temperature, schedule and depth",
 "Decay has no test.",
 ["src/algorithms/common/decaying_temp.cpp","src/algorithms/ments/ments_decision_node.cpp","src/algorithms/ments/dents/"],
 [("compute_decayed_temp and decay functions","src/algorithms/common/decaying_temp.cpp"),("get_temp / get_value_temp","src/algorithms/ments")],
 [], ["temperatures used by nodes"])

prop("C26", "Printed trees show exactly the searched tree",
 "Pretty-printing a node to a given depth shows every node within that depth exactly once under its parent, labelled by its action or outcome, with its current visit count and value, nested by depth and with balanced brackets, and marks non-terminal decision nodes cut off by the depth limit. Printing changes nothing.",
 ["inputs","configurations"],
 "every tree, algorithm and print depth",
 "One test compares a fixed two-level tree.",
 ["src/thts_decision_node.cpp","src/thts_chance_node.cpp"],
 [("get_pretty_print_string_helper","src/thts_decision_node.cpp, src/thts_chance_node.cpp")],
 [], ["printed string"])

prop("C27", "Default observations of an environment agree with its transitions",
 "In a fully observable environment the observation of a transition is the next state itself, with probability one, both when its distribution is queried and when it is sampled. A partially observable environment without its own observation model gets an error instead of a silently wrong observation, and one with its own model has it used for queries and samples alike.",
 ["inputs","configurations"],
 "every environment, action and state, both observability modes, every random draw",
 "Tests cover one fully observable environment.",
 ["src/thts_env.cpp","include/thts_env.h"],
 [("default observation functions","src/thts_env.cpp")],
 [], ["observation distribution and samples"])

prop("C28", "Discarding a search frees it entirely, and never what is still held",
 "When the pool and the root of a search are released, every node not reachable from a root the caller still holds is destroyed at once, also with a transposition table, with several trees under one manager, and after multi-threaded runs. Keeping any node inside the tree instead keeps exactly the tree below it, with structure and numbers unchanged, ready to be searched again. Once all trees and the manager are released, the manager and the environment are destroyed too.",
 ["histories","configurations","schedules"],
 "every history of searching, keeping a subtree, dropping roots and building further trees; every algorithm; with and without the transposition table",
 "Tests release everything only at exit and never look at what is freed.",
 ["include/thts_decision_node.h","include/thts_chance_node.h","include/thts_manager.h","src/thts_decision_node.cpp","src/thts_chance_node.cpp"],
 [("child maps and parent pointers","include/thts_decision_node.h, include/thts_chance_node.h"),("transposition table","include/thts_manager.h, src/thts_chance_node.cpp")],
 [], ["which nodes, managers and environments still exist"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
