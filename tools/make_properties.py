"""Writes properties.jsonl (one source for ids, titles, statements and anchors)."""
import json, os

DF = "data_formatting/data_formatting/"
RS = "railway_solvers/railway_solvers/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


prop("C01", "Timetable files are read completely and faithfully",
     "Reading a schedule file yields exactly the trains that have a section in it, each with its own category, name, origin and destination lines. Each train's route has the same rows in the same order as its section, and every cell of a row is kept, an empty cell staying empty.",
     ["inputs"], "every schedule file in the documented layout: any number of trains, route lengths, markers (from/departs, to/terminates) and cell contents",
     "The tests look up a few trains of one bundled file; a section boundary, first or last train, or cell pattern they do not name is never compared.",
     [DF + "time_table_check.py", "helpers.py"],
     [("section scanner", DF + "time_table_check.py:timetable_to_train_dict"), ("table and times lookup", DF + "time_table_check.py:get_arrdep, get_arr_dep_vals, train_time_table")],
     ["result of reading a file, compared with an independent reader"])

prop("C02", "Every block of a route gets its own running time and station",
     "For each train and each block it enters, the attached running time is the one the network table gives for the move from that block to the next one, in the travelled direction and for the speed class the train has on that block; the last block has none. Each block is marked with the station it belongs to, and with nothing if it belongs to none.",
     ["inputs"], "every connected route over every network table, in both row orientations, with speed classes mixed along one route",
     "Tests compare a handful of pairs of one network; direction, speed class and position in the route vary jointly over all pairs.",
     [DF + "new_time_tables.py", DF + "utils.py", "helpers.py"],
     [("running time lookup", DF + "new_time_tables.py:single_passing_time, passing_times_4blocks"), ("station annotation", DF + "utils.py:get_block_station"), ("direction and class to column", DF + "utils.py:get_path_type_colunm")])

prop("C03", "A broken route is rejected and a connected one is accepted",
     "If any two consecutive blocks of a route are not neighbours in the network, checking the route fails with an error, whether the blocks are unknown or known but not adjacent, and so does preparing the train's running times. A route whose consecutive blocks are all neighbours, in either direction, is accepted without error.",
     ["inputs"], "every route over every network, with breaks at any position and of any kind (unknown block, skipped block, swapped blocks, jump to another line)",
     "Tests try one unknown block; breaks between two known blocks and breaks at other positions are not tried.",
     [DF + "time_table_check.py", DF + "new_time_tables.py"],
     [("continuity check", DF + "time_table_check.py:check_path_continuity"), ("neighbour assertion", DF + "new_time_tables.py:single_passing_time")])

prop("C04", "Route questions are answered consistently with the train's route",
     "The list of stations of a train, the station that follows a given one, the blocks it uses inside a station and the blocks strictly between two of its stations always agree with its block sequence and the station table. The blocks two trains share between two stations are exactly the blocks both use there, in the first train's order, and the relative direction is reported as same or opposite accordingly. Trains listed at a station are exactly those whose route touches it (or, on request, those that also go beyond it).",
     ["inputs"], "every set of trains, every train, pair of trains, station and pair of stations, including stations not on the route and reversed order",
     "Tests ask about ten fixed combinations of one data set.",
     [DF + "utils.py", DF + "time_table_check.py"],
     [("route queries", DF + "utils.py:get_blocks_b2win_station4train, subsequent_station, get_trains_at_station, blocks_list_4station"), ("common blocks", DF + "utils.py:get_common_blocks_and_direction_b2win_trains, check_common_specific_elements_lists")])

prop("C05", "Running, stopping and preparation times add up from the blocks",
     "The running time between consecutive stations of a train is the sum of the times of the blocks strictly between them, and its minimal stay at a station is the time of its station block plus, except where the train starts, the extra turnaround time stated there. A turnaround time stated where the train starts is reported as its preparation time instead, and only there; rounding, when requested, is applied to the sums and never to the parts.",
     ["inputs", "configurations"], "every train, every station on its route (first, intermediate, last), with and without turnaround, rounded and unrounded, for all trains or a subset",
     "Tests check selected keys of one data set; turnaround at an intermediate station is not among them.",
     [DF + "make_J_taus.py", DF + "utils.py", "helpers.py"],
     [("times per train", DF + "make_J_taus.py:get_taus_pass, get_taus_stop, get_taus_prep"), ("sums", DF + "utils.py:minimal_passing_time, minimal_stay, turn_around_time"), ("assembly", "helpers.py:make_taus")])

prop("C06", "Headways are safe and not larger than necessary",
     "For two trains taking the same blocks from one station to the next, the headway is the smallest time after which the second may follow the first so that, whenever it enters a block, the first has left that block and, except on the sections with simplified signalling, the one after it. Trains that go to the same next station over different blocks need no headway, and every ordered pair of trains on the same section has exactly one value.",
     ["inputs", "configurations"], "every ordered pair of trains on every section, any mix of faster and slower trains and of block times, rounded and unrounded",
     "Tests compare a few pairs; whether the value is safe at every block of the section for every speed mix is a statement about all of them.",
     [DF + "make_J_taus.py"],
     [("headway computation", DF + "make_J_taus.py:get_taus_headway")])

prop("C07", "Trains sharing a line track are grouped exactly",
     "For each pair of consecutive stations, every train travelling between them in that order appears exactly once, and two such trains are in the same group exactly when they use the same blocks between the stations. No train appears for a section it does not travel in that direction.",
     ["inputs"], "every set of trains over every network, including several parallel tracks, empty sections and trains ending or starting at the section's stations",
     "Tests list the groups of two bundled data sets.",
     [DF + "make_J_taus.py", DF + "utils.py"],
     [("grouping", DF + "make_J_taus.py:jd"), ("path comparison", DF + "utils.py:common_path")])

prop("C08", "Every head-on pair on a shared track is found",
     "Two trains that run in opposite directions between two consecutive stations over the same non-empty chain of blocks are listed for that section exactly once, with the direction of the first-named train matching the order of the stations. No other pair is listed.",
     ["inputs"], "every set of trains over single and double track, including trains that start or end at either station and files listing the trains in any order",
     "Tests check one bundled single-track data set, in which the trains that end at the section are not at issue.",
     [DF + "make_J_taus.py"],
     [("head-on pairs", DF + "make_J_taus.py:josingle, josingle_dict_generate")])

prop("C09", "Trains using one station track are grouped exactly",
     "At each station, every train whose route touches the station appears exactly once and two trains are in the same group exactly when they use the same track there. Only depots and yards where several trains may stand together are left out.",
     ["inputs"], "every set of trains and stations, including trains starting, passing and ending, and the excluded depots",
     "Tests list the groups of bundled data sets only.",
     [DF + "make_J_taus.py"],
     [("grouping", DF + "make_J_taus.py:jtrack, jtrack_subroutine, exclusion_list_jtrack")])

prop("C10", "Every pair of trains needing the same switch is found",
     "At each station, for each pair of trains and each combination of arriving from a previous station and leaving to a next one, the combination is listed exactly when the sets of switches the two movements pass have a switch in common. Depots are left out, and movements between the main station and its yard are listed once, at the main station.",
     ["inputs"], "every set of trains, every pair, every movement (in/out), every way the switch column is written (text list, single number, decimal pair, missing)",
     "Tests list the pairs of bundled data sets only, where several cell forms do not occur.",
     [DF + "make_switch_set.py", DF + "make_J_taus.py"],
     [("switches of a movement", DF + "make_switch_set.py:z_in, z_out"), ("pairs", DF + "make_J_taus.py:jswitch, make_jswitch_dict")])

prop("C11", "Rolling-stock connections are found, placed and ordered correctly",
     "Two trains whose numbers differ by an appended 9 share rolling stock. They are connected at the station where the route of one ends in the block in which the route of the other begins, and the arriving train is named first.",
     ["inputs"], "every set of trains: either train of the pair may come first, at any station, several pairs per station, with look-alike numbers present",
     "Tests know the pairs of one file.",
     [DF + "make_J_taus.py"],
     [("pairs by number", DF + "make_J_taus.py:get_trains_pair9"), ("meeting place", DF + "make_J_taus.py:get_jround")])

prop("C12", "Times are measured in minutes from the reference time",
     "The planned departures list exactly the stations of a train with a stated departure, with the signed number of minutes from the reference time, and the starting conditions give each train exactly one entry, at its first station, from its departure there, else its estimated entry, else the reference time itself. Moving the reference time by some minutes moves every value by exactly that many minutes.",
     ["inputs", "configurations"], "every set of trains and every pair of clock times on the same day, before and after the reference",
     "Tests use a few trains and two reference times.",
     [DF + "scheduling_tools.py", "helpers.py"],
     [("planned departures", DF + "scheduling_tools.py:get_schedule, calc_time_diff"), ("starting conditions", DF + "scheduling_tools.py:get_initial_conditions"), ("assembly", "helpers.py:make_timetable")])

prop("C13", "A delay changes only the delayed train, by exactly that much",
     "Adding a delay to a train adds exactly that many minutes to that train's starting time and leaves every other train, and the given conditions themselves, unchanged. Delays of several trains can be added in any order with the same result, and delays of one train add up.",
     ["inputs", "histories"], "every set of train numbers (including numbers that are suffixes or prefixes of each other) and station names, every sequence of delays",
     "Tests delay one train in a set where no number is part of another.",
     [DF + "scheduling_tools.py", DF + "utils.py"],
     [("delay", DF + "scheduling_tools.py:add_delay")])

prop("C14", "Each train is weighted once, by its category, where its delay counts",
     "Every train gets exactly one weight, given by its category, or the empty-run weight if it is the shunting part of a rolling-stock pair. The weight is placed at the last station the train leaves, which is its last station unless its route ends there, and exactly the trains whose route ends inside a station are reported as ending there.",
     ["inputs", "configurations"], "every set of trains of every category, ending inside or beyond a station, with and without shunting partners, every choice of weight values",
     "Tests use one file, in which no ordinary train's number looks like a shunting number.",
     [DF + "scheduling_tools.py", DF + "utils.py"],
     [("weights", DF + "scheduling_tools.py:make_weights"), ("terminating trains", DF + "utils.py:get_skip_stations")])

prop("C15", "What is derived for some trains does not depend on the others",
     "Adding, removing or reordering other trains of a schedule never changes the times, headways, conflicts, weights or connections derived for the remaining trains. Deriving anything leaves the given tables unchanged, and deriving it again, in any order of requests, gives the same result.",
     ["inputs", "histories"], "every schedule, every subset and order of its trains, every sequence of derivation requests",
     "Tests call each function once on a fixed file.",
     [DF + "make_J_taus.py", DF + "utils.py", DF + "scheduling_tools.py", "helpers.py"],
     [("derivations", DF + "make_J_taus.py"), ("assembly", "helpers.py:make_train_set, make_timetable")])

prop("C16", "Every accepted plan respects each train's own running and turnaround times",
     "In every plan the optimisation model accepts, no train leaves before its earliest possible or scheduled time or later than the allowed maximal delay after it, it needs at least its running time between stations and at least its minimal stay in them, and a train formed from another's rolling stock leaves no earlier than the arrival of that one plus the preparation time.",
     ["inputs", "schedules", "configurations"], "every problem instance and every feasible assignment of its model, not only optimal ones, for integer and continuous times",
     "Tests check the optimum of small instances returned by one solver; they are not part of the runnable suite and cannot cover the feasible set.",
     [RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("stay", RS + "linear_solver.py:minimal_stay_constrin"), ("circulation", RS + "linear_solver.py:rolling_stock_circ"), ("earliest times", RS + "helpers_functions.py:earliest_dep_time"), ("bounds", RS + "linear_solver.py:delay_varibles")],
     ["every model built by create_linear_problem"])

prop("C17", "Every accepted plan keeps trains on the line apart",
     "In every plan the optimisation model accepts, of two trains following each other on a line track one leaves at least the headway after the other, and of two trains meeting head-on on one track one leaves only when the other has arrived, unless both are the same rolling stock.",
     ["inputs", "schedules", "configurations"], "every problem instance and every feasible assignment of its model",
     "Tests check optima of a few small instances.",
     [RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("following trains", RS + "linear_solver.py:minimal_span_constrain"), ("head-on trains", RS + "linear_solver.py:single_line_constrain"), ("big-M", RS + "helpers_functions.py:get_M")])

prop("C18", "Every accepted plan keeps trains in stations apart",
     "In every plan the optimisation model accepts, two trains that use the same station track and both leave again (or hand their rolling stock on) never occupy it at the same time, trains that followed each other on one line track do not change order when they enter the same station track, and two movements over a common switch are separated by at least the switch time.",
     ["inputs", "schedules", "configurations"], "every problem instance and every feasible assignment of its model, with starting, passing, terminating and turning trains",
     "Tests check optima of a few small instances.",
     [RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("station tracks", RS + "linear_solver.py:track_occuparion, trains_order_at_s, keep_trains_order"), ("switches", RS + "linear_solver.py:switch_occ, switch_occupation")])

prop("C19", "No conflict-free plan is excluded and the best one is found",
     "Every assignment of delays within the limit that respects the running, headway, track, switch and turnaround rules is accepted by the optimisation model. Hence the solved plan has the least possible weighted delay, and the problem is reported infeasible only if no such plan exists.",
     ["inputs", "configurations"], "every problem instance and every conflict-free plan for it",
     "Tests know the optimum of a few small instances and cannot see which plans a model leaves out.",
     [RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("big-M and redundancy tests", RS + "helpers_functions.py:get_M"), ("order variables", RS + "linear_solver.py:update_y3, update_y4, get_y3, get_y4_singleline, get_y4_in")])

prop("C20", "The optimised quantity is exactly the weighted relative delay",
     "The model has one delay for every departure of every train that any rule or weight concerns (a train that hands on its rolling stock departs as its successor), limited to the allowed range and to whole minutes when asked for, and every other quantity is a yes/no order choice. The objective is the sum over trains and stations of the weight times the delay divided by the maximal delay, and nothing else; each station's share reported for a solution adds up to it.",
     ["inputs", "configurations"], "every problem instance, weight table, delay limit and variable category",
     "Tests read single objective values of small instances.",
     [RS + "linear_solver.py"],
     [("objective", RS + "linear_solver.py:objective"), ("variables", RS + "linear_solver.py:delay_varibles, order_variables"), ("share", RS + "linear_solver.py:impact_to_objective")])

prop("C21", "Names, order of listing and time origin do not influence the solution",
     "Renaming trains or stations, listing trains, pairs, groups or stations in another order, or shifting all times by a constant leaves the set of acceptable delay plans and the optimum unchanged.",
     ["inputs", "histories"], "every problem instance and every renaming (numbers or texts, including names contained in each other), reordering and shift",
     "Tests use fixed names and orders.",
     [RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("order variable lookup", RS + "linear_solver.py:get_y3, get_y4_singleline, get_y4_in"), ("skip test", RS + "linear_solver.py:track_occuparion"), ("key strings", RS + "helpers_functions.py:tau, penalty_weights")])

prop("C22", "The constrained quantum model is the same problem",
     "The constrained model built for the hybrid solver has the same variables, ranges, constraints and objective as the linear problem: an assignment satisfies each constraint in one exactly when it does in the other, and the objective values are equal.",
     ["inputs"], "every linear problem with bounded integer variables, constraints of all three senses, any coefficients and bounds; every assignment",
     "Tests compare five hand-made problems, by multisets of coefficients.",
     [RS + "converter_cqm.py"],
     [("conversion", RS + "converter_cqm.py:convert_to_cqm")])

prop("C23", "The QUBO has the solutions of the problem as its ground states",
     "For every assignment of the problem's variables the lowest energy of the QUBO over the auxiliary bits equals the weighted objective plus, for each constraint, its own penalty times the squared violation, so it is the objective exactly for feasible assignments. Every integer in a variable's range can be represented, and nothing outside it.",
     ["inputs", "configurations"], "every linear problem built for dispatching, every assignment of bits, every choice of penalties",
     "Tests compare coefficients of hand-made problems with one constraint and penalty 1.",
     [RS + "converter_bqm.py"],
     [("penalties by constraint family", RS + "converter_bqm.py:_get_placeholder"), ("slack range", RS + "converter_bqm.py:_get_slack_ub"), ("conversion", RS + "converter_bqm.py:convert_to_pyqubo, convert_to_bqm")])

prop("C24", "Samples are decoded, judged and ranked truthfully",
     "Decoding a sampled bit string gives each variable the value its bits encode, keeps samples and energies paired and loses none. For each sample the reported objective, the satisfied constraints and feasibility are those of the linear problem, and the chosen sample is the feasible one with the smallest objective or, if none is feasible, the one with the lowest energy.",
     ["inputs", "histories"], "every problem and every sample set: feasible and infeasible, tied, unsorted, with repeated samples",
     "Tests run one annealer on small instances and look at the best result.",
     [RS + "converter_bqm.py", RS + "results_manipulation.py"],
     [("decoding", RS + "converter_bqm.py:convert_to_bqm interpreter"), ("judging", RS + "results_manipulation.py:analyze_constraints, get_objective, get_results"), ("choice", RS + "results_manipulation.py:get_best_feasible_sample")])

prop("C25", "The chosen solver gets the problem and the settings it was asked for",
     "For each solution method, the solver of that kind, and no other, receives the model of the given problem with the given penalties, number of reads and sweeps, temperature range, annealing time, chain strength and time limit. The returned record carries that solver's own samples and information, and any settings it lists are those actually used.",
     ["inputs", "configurations"], "every problem, every method and every combination of settings",
     "Tests cannot reach the samplers and inspect nothing of what they receive.",
     [RS + "d_wave_solves.py", "helpers.py"],
     [("samplers", RS + "d_wave_solves.py:sim_anneal, real_anneal, constrained_solver, hybrid_anneal"), ("dispatch", "helpers.py:q_process, solve_on_quantum")])

prop("C26", "The reported timetable is the solved plan",
     "For every train and every station it leaves, the reported departure is the earliest departure plus the solved delay, the reported arrival is the departure from the previous station plus the running time, and the conflicted times are the same without the solved delays, all counted from the reference time and rounded to whole minutes. No train or departure is missing, and a solution supplied from a sampler is reported in the same way as one stored in the model.",
     ["inputs", "configurations"], "every solved problem and every supplied sample",
     "Tests read single values for small instances; the assembly of the report is untested.",
     ["helpers.py", RS + "linear_solver.py"],
     [("report", "helpers.py:print_optimisation_results"), ("times", RS + "linear_solver.py:delay_and_acctual_time")])

prop("C27", "The solving programs solve the announced cases and store what they solved",
     "Each solving program, for each of its cases and solver choices, builds the problem from the case's files, applies every announced delay to the announced train and solves that problem. The stored results are those of the solve, complete for every disturbance or run, and the timetable shown later from stored results is the stored solution.",
     ["configurations", "histories"], "every program, case, solver, category, number of runs and time limit, and the sequence solve-then-display",
     "No test runs the programs.",
     ["solve_real_problem.py", "solve_KO_GLC_problems.py", "wisla_problems.py", "helpers.py"],
     [("programs", "solve_real_problem.py, solve_KO_GLC_problems.py, wisla_problems.py"), ("stored tables", "helpers.py:load_timetables, build_timetables")])

prop("C28", "Train diagrams show the stored timetable at the right place and time",
     "The diagram of a stored timetable draws, for the solved and for the conflicted timetable alike, every stored arrival and departure of a drawn train at the distance of that station along the chosen segment, in the order of travel, and nothing else. Exactly the trains that were asked for and those calling at two or more stations of the segment outside the Katowice main station are drawn. The listing of a stored timetable and the answers where stations and routes lie on the lines agree with the stored data and the lines' official distances.",
     ["inputs"], "every stored timetable, every line of the network, every set of trains",
     "No test touches the diagram scripts.",
     ["solutions_quantum/data4diagrams/train_utils.py", "solutions_quantum/data4diagrams/railway_lines.py", "solutions_quantum/data4diagrams/echo_gnuplot_file.py", "solutions_quantum/data4diagrams/read_quantum_pickle.py"],
     [("projection on lines", "solutions_quantum/data4diagrams/train_utils.py"), ("positions", "solutions_quantum/data4diagrams/railway_lines.py")])

prop("C29", "A solved schedule can be run block by block without conflict",
     "Take any schedule file, any initial delays and any plan accepted for it: if every train is run block by block with the network's running times and the planned departures, no two trains are ever in the same line block or on the same station track at the same time, trains never meet head-on between stations, and movements over a common switch do not coincide (up to the rounding asked for).",
     ["inputs", "schedules", "configurations"], "every schedule over every network whose trains share sections completely or not at all, every set of initial delays, every accepted plan",
     "No test goes from a schedule file to a plan, let alone runs the plan on the infrastructure.",
     ["helpers.py", DF + "make_J_taus.py", RS + "linear_solver.py"],
     [("whole pipeline", "helpers.py:make_train_set, make_timetable; " + RS + "linear_solver.py:create_linear_problem")],
     ["independent block-level simulation of the accepted plans"])

prop("C30", "Reported problem sizes are true",
     "The numbers of order choices, delays and constraints reported for a problem are exactly those of its optimisation model, whatever the trains and stations are called, and the numbers of fields and couplings reported for a binary model are those of its non-zero coefficients. Sizes of a solved problem are reported only if every order choice has come out as a clear yes or no.",
     ["inputs", "configurations"], "every problem, every naming of trains and stations, every solution and every binary model",
     "One test compares the counts for one model with all coefficients present; the published tables of sizes come from these counts.",
     ["helpers.py", RS + "results_manipulation.py"],
     [("sizes of the linear problem", "helpers.py:count_vars, check_count_vars"), ("sizes of the binary model", RS + "results_manipulation.py:count_quadratic_couplings, count_linear_fields")])

prop("C31", "Published statistics and plots show the stored results",
     "The statistics of delays printed and drawn per station are the mean, quartiles and extremes of exactly the stored secondary delays at that station, over all stored realisations. The comparison and sweep plots draw exactly the stored objectives in minutes and computing times in seconds of the named solver, case and time parameter, mark infeasible results as such, and refuse infeasible results where feasibility is claimed.",
     ["inputs", "configurations"], "every set of stored results the plotting programs can be given",
     "No test touches the plotting programs.",
     ["solutions_quantum/data4diagrams/visualise_statistics.py", "solutions_quantum/tmin_plot.py", "solutions_quantum/tmin_plot_rev.py", "results_KO_GLC/fast_plot.py", "results_KO_GLC/fast_plot_lim.py"],
     [("statistics", "solutions_quantum/data4diagrams/visualise_statistics.py"), ("sweeps", "solutions_quantum/tmin_plot.py, tmin_plot_rev.py"), ("comparisons", "results_KO_GLC/fast_plot.py, fast_plot_lim.py")])

prop("C32", "Bundled tables and schedules describe one network",
     "Every station table lists only tracks of the network table, each in one station, and is what its source script produces, so that any train running over a listed track is seen at that station. Every bundled schedule fits the tables: its routes are unbroken, every move has a running time, every train calls at one or more stations, each once, and planned times never go back.",
     ["configurations", "inputs"], "every bundled station table, schedule and source script, and every route over a listed track",
     "Tests use one of the tables and look at the tracks of a few trains; the tables are typed by hand.",
     ["data/important_stations.py", "data/important_stations_Gt.py", "data/KO_GLC/important_stations_KO_GLC.py", "data/KO_GLC/important_stations_KO_GLC_R.py", "helpers.py"],
     [("station tables", "data/important_stations*.py, data/KO_GLC/important_stations_KO_GLC*.py"), ("loading", "helpers.py:load_important_stations, load_data_paths, build_timetables")])

prop("C33", "Modelling, converting and reporting never change what they are given",
     "Building the optimisation model, converting it for quantum solvers, decoding, judging and choosing samples, counting sizes and reporting leave the problem data, the model with its values, the penalties and the samples exactly as they were. Done again, after any of the others, each gives the same result; the same holds for every question about a schedule.",
     ["histories", "inputs"], "every problem and every order of requests on it",
     "Tests make each request once, on data made for it; the programs make many in a row on the same objects.",
     [RS + "linear_solver.py", RS + "converter_bqm.py", RS + "converter_cqm.py", RS + "results_manipulation.py", "helpers.py"],
     [("model", RS + "linear_solver.py:create_linear_problem"), ("conversions", RS + "converter_bqm.py:convert_to_bqm; " + RS + "converter_cqm.py:convert_to_cqm"), ("samples", RS + "results_manipulation.py:get_results, get_best_feasible_sample")])

prop("C34", "A run whose solver fails stores nothing and says so",
     "If any call of a solver during a run of a solving program fails, by an error, an interruption or by returning no solution, the program ends with an error. It stores no results of that run, not even of the calls that succeeded, and results stored earlier under the same name stay as they were.",
     ["fault_sequences", "configurations"], "every program and solver choice, every kind of failure, at every solver call of the run",
     "No test runs the programs, and no test lets a solver fail.",
     ["solve_real_problem.py", "solve_KO_GLC_problems.py", "wisla_problems.py", "helpers.py"],
     [("storing", "solve_real_problem.py, solve_KO_GLC_problems.py, wisla_problems.py"), ("solved values", "helpers.py:check_count_vars, print_optimisation_results, solve_on_quantum")])

prop("C35", "What cannot be represented is refused, never approximated",
     "A schedule with a gap in a route, an unknown speed class or train category, an unreadable time or a rolling-stock pair whose routes do not meet, a problem with a needed time missing, and a case, method, solver or delayed train that does not exist are refused with an error, and nothing is stored. A problem with continuous or unbounded quantities, to be maximised, or with rules of an unknown kind is never turned into a quantum model, and one with fractions only if the model has exactly its energies.",
     ["inputs", "configurations"], "every accepted request damaged at any place in any of these ways",
     "Tests give valid data only; a damaged request needs a value of its own at every place.",
     [DF + "new_time_tables.py", DF + "make_J_taus.py", DF + "scheduling_tools.py", DF + "utils.py", RS + "converter_bqm.py", RS + "converter_cqm.py", RS + "helpers_functions.py", "helpers.py", "solve_real_problem.py", "solve_KO_GLC_problems.py", "wisla_problems.py"],
     [("data", DF + "new_time_tables.py:single_passing_time; " + DF + "utils.py:get_path_type_colunm; " + DF + "make_J_taus.py:get_jround; " + DF + "scheduling_tools.py:calc_time_diff, make_weights"),
      ("models", RS + "helpers_functions.py:tau, earliest_dep_time; " + RS + "converter_bqm.py:convert_to_pyqubo, _get_slack_ub, _get_placeholder; " + RS + "converter_cqm.py:convert_to_cqm"),
      ("programs", "solve_real_problem.py, solve_KO_GLC_problems.py, wisla_problems.py; helpers.py:q_process")])

prop("C36", "Every solution method answers the same dispatching question",
     "Whatever samples a quantum or hybrid solver returns, a result called feasible is a conflict-free plan of the dispatching problem that is no better than the optimum of the linear method, its objective is the weighted delay of that plan, and its timetable shows that plan. If the solver returns the best plan, each method reports exactly that plan's value as feasible.",
     ["inputs", "configurations"], "every problem in whole minutes, every method, every set of samples",
     "Tests compare single conversion steps on two toy problems; no test goes from a dispatching problem through a quantum method back to a plan.",
     ["helpers.py", RS + "linear_solver.py", RS + "converter_bqm.py", RS + "converter_cqm.py", RS + "results_manipulation.py"],
     [("methods", "helpers.py:solve_on_quantum, q_process"), ("models", RS + "linear_solver.py:create_linear_problem; " + RS + "converter_bqm.py:convert_to_bqm; " + RS + "converter_cqm.py:convert_to_cqm"),
      ("timetable", "helpers.py:print_optimisation_results")])

prop("C37", "Less traffic or more freedom never makes the best plan worse",
     "Taking away a train that shares its rolling stock with no other, a head-on or switch restriction, shortening headways or allowing larger delays never increases the best total weighted delay and never makes a problem unsolvable. Multiplying all weights multiplies the best value, and two problems that share nothing have the same best values solved together or apart.",
     ["inputs", "configurations"], "every problem and schedule, every train, restriction, headway and factor",
     "Tests fix the optimum of single problems; none relates the optima of two.",
     [RS + "linear_solver.py", RS + "helpers_functions.py", "helpers.py", DF + "make_J_taus.py"],
     [("model", RS + "linear_solver.py:create_linear_problem"), ("derivation", "helpers.py:make_train_set, make_timetable")])

prop("C38", "What was computed before does not influence a result",
     "Reading, annotating, deriving, modelling, converting and reporting a schedule gives the same result whether it is the first thing done or follows work on other schedules, networks, station tables, limits and delays, however similar they are. In particular scenarios solved one after another are the scenarios solved one by one.",
     ["histories", "inputs"], "every sequence of look-alike schedules worked on in one process",
     "Tests work on one data set per run; what is remembered from another one does not show.",
     [DF + "make_J_taus.py", DF + "utils.py", DF + "new_time_tables.py", DF + "scheduling_tools.py", RS + "linear_solver.py", RS + "converter_cqm.py", "helpers.py"],
     [("derivation", "helpers.py:build_timetables, make_train_set, make_timetable"), ("model", RS + "linear_solver.py:create_linear_problem"), ("report", "helpers.py:print_optimisation_results")])
prop("C39", "A saved timetable gives the same problem when it is loaded",
     "Annotated timetables that are saved and loaded again, in another process and another directory, are the tables that were saved last, and everything derived from them equals what is derived from tables that were never saved. Saving changes nothing in the tables, and nothing is written when saving is not asked for.",
     ["histories", "inputs"], "every schedule and every sequence of saved schedules",
     "No test saves or loads timetables.",
     [DF + "new_time_tables.py", "helpers.py"],
     [("saving", DF + "new_time_tables.py:update_all_timetables"), ("loading", "helpers.py:load_timetables")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    print(len(P), "properties")
