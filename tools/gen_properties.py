#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))

ST, SIM, PR, HL, RW, PO, ACT, MR = ("logic/stakeholder.py", "logic/sim.py", "logic/stakeholder_profiles.py",
    "logic/helper.py", "logic/reward_schemes.py", "logic/pool.py", "logic/activations.py", "logic/model_reporters.py")

prop("C01", "Stake is conserved: pools, delegators and owners always agree",
 "After every agent action, under every activation order, each active pool's stake equals its pledge plus the delegations it records (up to floating-point noise), and these are exactly the delegations that its delegators hold. "
 "The pools an agent holds as operator are exactly the active pools it owns, no agent ever commits (pledges plus delegations) more than its own stake, and the total stake in pools never exceeds the total stake of the agents. "
 "When a pool closes or turns private, all stake delegated to it is released.",
 ["schedules", "histories"],
 "All activation orders (sequential, random, simultaneous, semi-simultaneous with every grouping) and all sequences of opening, changing, closing, privatising pools and (re)delegating, for a few agents, up to a bounded number of actions; also across parameter changes.",
 "The only test of strategy execution replays one hand-written sequential history and is not in the stable set; no test activates agents simultaneously, where a delegation can arrive between the decision and the execution of a pool change.",
 [ST, PO, SIM], [("execute_strategy / update_pool / close_pool / remove_delegations", ST), ("update_delegation", PO), ("determine_stake_allocations withdraws and returns the agent's stake", ST)],
 [("pools", "active pools by id", SIM), ("delegators", "stake delegated to a pool by agent", PO), ("stake_allocations / owned_pools", "an agent's commitments", "logic/strategy.py")],
 ["model.pools", "agent.strategy", "pool.stake / pledge / delegators"])

prop("C02", "Pool rankings are complete, ordered and based on current parameters",
 "Between any two agent actions, the system's long-term and short-term rankings each contain every active pool exactly once and no other pool, ordered from best to worst: the long-term one by desirability, then potential profit, then age, the short-term one by the desirability that follows from the pool's present size, then age. "
 "Every pool's potential profit and desirability equal the values implied by its present pledge, cost and margin and by the reward parameters in force, also right after the parameters change.",
 ["schedules", "histories"],
 "All reachable states of small systems (any profiles, any reward scheme, any activation order), including states after parameter changes between phases.",
 "Rankings are sorted containers keyed by mutable attributes; whether an update is bracketed by remove/add depends on the history of delegations and pool updates. Tests sort plain lists by hand and never look at the rankings of a running simulation.",
 [SIM, ST, PO, HL], [("remove/add around every update of a pool", ST), ("change_phase re-keys the pools", SIM), ("pool_comparison_key, pool_comparison_key_myopic", HL), ("set_profit / set_desirability", PO)],
 [("pool_rankings, pool_rankings_myopic", "pools ranked from best to worst", SIM)], ["model.pool_rankings", "model.pool_rankings_myopic"])

prop("C03", "An operator's pools follow its stake, cost and the saturation rules",
 "While the reward parameters stay fixed, all pools of an operator have the same pledge, namely its stake divided by the number of its pools but at most the system's saturation level (1/k), and each costs the average of its own cost for the first pool and the configured fraction of it for every further one. "
 "An operator never runs more than k pools, every margin lies between 0 and 1, and a pool is private (closed to delegation) exactly if its pledge alone reaches its saturation threshold. "
 "Pool ids are never reused within a run.",
 ["schedules", "histories", "configurations"],
 "All reachable states of small systems under every activation order, profile mix, reward scheme and cost structure of the alphabet.",
 "Tests evaluate the cost formula at one point; that the formulas are applied to all pools of an operator whenever it opens, closes or keeps pools depends on the history.",
 [ST, HL, PO], [("find_operator_move", ST), ("calculate_pledge_per_pool, calculate_cost_per_pool", HL), ("get_next_pool_id", SIM)],
 [("id_seq", "last pool id handed out", SIM)], ["model.pools"])

prop("C04", "Delegation fills the best public pools up to saturation first",
 "Whenever an agent sets its delegations, it uses only public pools of other agents and fills them in the order of its own ranking (long-term for non-myopic, short-term for myopic agents), each up to its saturation threshold as it stands without the agent's earlier delegation. "
 "Stake that fits in no unsaturated pool goes to the best-ranked pool that was already saturated and stays undelegated if there is none; a pure delegator distributes its whole stake, an operator what remains after its pledges. "
 "A private pool never holds delegations.",
 ["schedules", "histories", "inputs"],
 "Every delegation decision taken in any reachable state of small systems and in all configurations of up to three pools over a small alphabet of pledges, sizes, costs, margins and earlier delegations.",
 "The only test of delegation choice is one hand-made state with ties and is not in the stable set (it fails); partial fills, overflow, withdrawal of earlier delegations and myopic order are not sampled.",
 [ST], [("determine_stake_allocations, find_delegation_move, find_delegation_for_operator", ST), ("remove_delegations when a pool turns private", ST)],
 [("stake_allocations", "delegations of an agent", "logic/strategy.py")], ["agent.strategy.stake_allocations after an action"])

prop("C05", "Agents move only for a better strategy; otherwise nothing changes",
 "An agent replaces its strategy only if the utility it estimates for the new one exceeds that of its current one, both as it stands and as it is expected to develop, by the absolute and the relative threshold, and then takes the better of its delegation move and its pool operation move. "
 "If it does not move, its activation leaves all pools, delegations and rankings unchanged, and abstainers never act at all. "
 "In the state in which a run has converged, no agent would move, whatever the order of activation.",
 ["schedules", "histories", "configurations"],
 "Every activation of an agent in any reachable state of small systems, for several threshold settings, profiles and reward schemes.",
 "No test activates an agent and inspects its choice; the choice depends on rankings, saturation and thresholds at that point of the history.",
 [ST, PR, HL], [("update_strategy compares current, delegator and operator moves", ST), ("calculate_current_utility, calculate_expected_utility", ST), ("profile-specific utilities", PR)],
 [("new_strategy", "move that an agent has decided on", ST)], ["agent state before and after agent.step()"])

prop("C06", "Runs stop exactly at equilibrium or at the round limit and say which",
 "A phase reaches equilibrium exactly when the configured number of consecutive rounds without any strategy change has passed within that phase, and a run ends when its last phase reaches equilibrium or when the maximum number of rounds has been played, whichever comes first. "
 "The run reports truthfully whether it ended in equilibrium and, for every equilibrium, the round just before its idle streak began. "
 "Metrics are recorded exactly once for every round, starting with round 0.",
 ["histories", "configurations"],
 "All patterns of active and idle rounds up to a bounded length, for all small combinations of required idle rounds, round limit and number of phases.",
 "No stable test runs a simulation to its end; off-by-one and carry-over errors appear only for particular idle/active patterns, limits and phase counts.",
 [SIM], [("step, has_converged, run_model", SIM), ("change_phase", SIM), ("advance reports activity", ST)],
 [("consecutive_idle_steps, current_step_idle", "idle streak", SIM), ("equilibrium_steps, pivot_steps", "reported rounds", SIM)], ["model.running, model.schedule.steps, model.equilibrium_steps, final-state-descriptors.json, metrics.csv"])

prop("C07", "Multi-valued parameters take effect phase by phase, completely",
 "If several values are given for a parameter, phase i uses its i-th value, a parameter that has run out of values keeps its last one, the number of phases is the length of the longest list, and values change only when the previous phase has reached equilibrium, at rounds the run reports. "
 "From then on everything follows the new values (saturation thresholds, rewards, pool profits and rankings, utility thresholds, costs of new pools), no other state changes, and a known inactive stake fraction adjusts the target number of pools in every phase. "
 "Any change of values, upwards or downwards, leaves a system that can be simulated on.",
 ["configurations", "histories"],
 "All sequences of up to three phases over small alphabets of k, a0, thresholds, cost fraction and round limits, for several populations, profiles and reward schemes.",
 "No test uses more than one phase; failures need particular combinations of old and new values and of the pools that exist at the change.",
 [SIM, RW, PR, HL], [("multi_phase_params, change_phase", SIM), ("k setter updates the saturation threshold", RW), ("rankings are padded up to k", SIM)],
 [("current_phase, total_phases", "phase counter", SIM)], ["model.reward_scheme, model.pivot_steps, model.pools after each step"])

prop("C08", "A run is determined by its configuration and reported seed",
 "Repeating a run with the same configuration and the seed that it reported gives the same agents, the same metrics in every round and the same final state, also if that seed had been chosen automatically and if the configuration is read back from the exported arguments file. "
 "The result does not depend on other runs made before it in the same process, on the process, or on how the seed is supplied.",
 ["histories", "configurations"],
 "All sequences of up to three runs over an alphabet of configurations within one process, fresh processes with different hash seeds, and all ways of supplying the seed, for every activation order and profile mix of the alphabet.",
 "No test runs a simulation twice; memoisation and shared mutable state show only for particular orders of runs.",
 [SIM, HL], [("seed handling of the random generators", SIM), ("lru_cache memoisation", HL), ("read_args_from_file, export_args_file", SIM)],
 [("model.random", "source of profile assignment and activation order", SIM)], ["digest of agents, metrics and pools of a run"])

prop("C09", "Each reward scheme pays its published reward, bounded by saturation",
 "For each of the five selectable reward schemes and all k, a0, pledge and stake, the reward of a pool equals the scheme's published formula. "
 "It does not depend on stake beyond the pool's saturation threshold, never decreases when stake grows, and never exceeds 1/k of the total rewards. "
 "The saturation threshold follows k (and the pledge, for CIP-50) whenever k is changed.",
 ["inputs", "configurations"],
 "All combinations over grids of k, a0, pledge and stake that include every boundary of the formulas (zero, at, just below and above saturation, pledge above stake, crossover).",
 "Tests compare a handful of rewards with each other for one k and one a0; they give only one absolute value (CIP-50).",
 [RW, HL], [("calculate_pool_reward of every scheme", RW), ("get_pool_saturation_threshold", RW), ("k setter", RW), ("RSS_MAPPING", RW)], [], ["calculate_pool_reward"])

prop("C10", "Pool profit is split between operator and delegators without loss",
 "If a pool's reward exceeds its cost, the utilities of its operator and of all its delegators add up to exactly the profit, the operator receiving the margin and its pledge's share of the rest, each delegator its stake's share of the rest. "
 "If the reward does not exceed the cost, delegators receive zero (never a negative amount) and the operator bears the whole loss. "
 "An agent's current utility is the sum over the pools it operates and the pools it delegates to.",
 ["inputs", "configurations"],
 "All combinations over grids of margin, cost, pledge and delegations (0 to 3 delegators) for every reward scheme, at the level of single pools and of agents in every reachable state of small systems.",
 "No stable test evaluates an operator's or delegator's utility.",
 [HL, ST], [("calculate_operator_reward_from_pool, calculate_delegator_reward_from_pool and their utility wrappers", HL), ("calculate_current_utility", ST)], [], ["utility functions"])

prop("C11", "Operators choose pool numbers and margins to outrank rivals",
 "When an agent opens or changes pools, neither one pool more nor one pool fewer (within 1 to k) would have promised it more by its own estimate, and it keeps its best existing pools (by desirability, potential profit, size, age) and opens new ones only beyond these. "
 "Each margin is the highest one with which the pool still beats the pool it has to displace among the best k of other agents (non-myopic agents: that pool's desirability and potential profit; myopic agents: its present desirability), and zero if even that does not suffice.",
 ["schedules", "histories", "inputs"],
 "Every operation decision in any reachable state of small systems, and all configurations of up to three rival pools over a small alphabet, for both profiles and several values of k.",
 "Only the choice of pools to keep is tested, in one state; margin and number of pools depend on all rivals.",
 [ST, PR, HL], [("choose_pool_strategy, determine_pools_to_keep, find_operator_move", ST), ("calculate_margins_and_utility", PR), ("calculate_suitable_margin", HL)], [], ["agent.strategy.owned_pools after an action"])

prop("C12", "The initial population matches the requested configuration",
 "A run starts with exactly n agents, numbered from 0, whose stakes are proportional to the chosen source and together make up the active share (one minus the inactive fraction) of a total stake of one, whose costs lie between the given bounds, and whose profiles have positive weight. "
 "A stake file is used value by value if it has n values, sampled without repetition if it has more and with repetition if it has fewer. "
 "If the inactive fraction is known, the target number of pools is raised to k/(1 - fraction), and impossible inputs (reversed cost bounds, missing file) are refused.",
 ["configurations", "inputs"],
 "All combinations over small alphabets of n, k, stake source, inactive fraction (known or not), profile weights, cost bounds and seeds, and all small stake files.",
 "Tests check the length of generated lists and one sum for the flat source; inactive stake, files and profiles are untested.",
 [SIM, HL], [("initialize_agents, normalize_agent_stake", SIM), ("generate_stake_distr_*, generate_cost_distr_unfrm, read_stake_distr_from_file", HL)],
 [("total_stake", "total stake of the system", SIM)], ["model.schedule.agents, initial-state-descriptors.json"])

prop("C13", "Every metric reports its documented quantity in every state",
 "For every metric id, the value recorded is the documented quantity computed from the present pools and agents, for every set of pools including none and for every distribution of pools among operators. "
 "Computing metrics never changes the state of the simulation.",
 ["inputs", "histories"],
 "All assignments of up to four pools to three agents over small alphabets of stake, pledge, margin, agent stake and cost, and the states that small runs reach.",
 "Tests evaluate about half of the metrics, each in one or two states; ties, empty systems and majority boundaries are not covered.",
 [MR, HL], [("reporter functions and their id table", MR), ("calculate_ranks", HL)], [], ["datacollector values, metrics.csv"])

prop("C14", "Output files describe exactly the run that wrote them",
 "When a run ends, its folder holds the arguments it used, one row per active pool with that pool's owner, pledge, stake, cost, margin and profit, one row per agent with its stake, cost, role, number of pools and total pool stake, one metrics row per recorded round, and initial and final descriptors that agree with the state. "
 "The saved simulation object can be loaded and shows that same final state. "
 "The files are complete for every outcome (no pools, no equilibrium, abstainers, several phases).",
 ["configurations", "histories"],
 "All small configurations of population, profiles, reward scheme, activation order, metrics and phases, each run to its end.",
 "No test writes or reads an output file of a run.",
 [SIM, HL], [("wrap_up_execution and the export_* methods", SIM), ("save_model_state_pkl", SIM), ("export_csv_file, export_json_file", HL)], [], ["files in output/<run>"])

prop("C15", "Runs never share or overwrite output, even after interruptions",
 "Every run gets a serial number greater than those of all runs started before it and an output folder of its own, and never changes a file in another run's folder. "
 "This also holds if earlier runs were interrupted at any point: the next run starts normally and continues the numbering, and for runs that start at the same time, however they interleave. "
 "The experiment tracker holds one header and one row per completed run.",
 ["crash_points", "histories"],
 "All sequences of up to three runs (named, unnamed, single or batch), each completed or interrupted at any distinct state of the file system that it passes through, including partially written files.",
 "The tests write and read a serial number once, in one process, without interruption.",
 [HL, SIM, "custom_batchrunner.py"], [("read_seq_id, write_seq_id", HL), ("mkdir without exist_ok", SIM), ("write_to_csv", HL)],
 [("sequence.dat", "last serial number", HL)], ["output/, sequence.dat, output/experiment-tracker.csv"])

prop("C16", "A batch yields one run and one aggregate row per combination",
 "A batch run executes exactly one simulation for every combination of the given parameter values and repetition, each in a folder of its own, with its own serial number and the seed of its repetition. "
 "The aggregate file holds exactly one header and one intact row per simulation, however the worker processes interleave, and each row agrees with that simulation's own parameters and metrics in the stated round, as do the results returned.",
 ["schedules", "configurations"],
 "All small parameter grids, repetitions and numbers of workers, and all interleavings (up to a preemption bound) of processes that append to the same results file.",
 "No test touches batch running or concurrent writers.",
 ["custom_batchrunner.py", HL], [("custom_batch_run, _make_model_kwargs, _model_run_func", "custom_batchrunner.py"), ("write_to_csv", HL)], [], ["aggregate-results-*.csv and run folders"])

prop("C17", "Options are validated and reach the simulation unchanged",
 "For every command-line option of a single run (main.py), values of the documented domain are accepted and values outside it are refused before anything is run. "
 "Every accepted value, and the default of every omitted option, reaches the simulation and its exported arguments unchanged, independently of the other options. "
 "With input from file, the values of the file are used and the command line is disregarded.",
 ["inputs", "configurations"],
 "Every option with every value of a small alphabet of valid, boundary and invalid strings, all pairs of options with non-default values, and arguments files made from earlier runs.",
 "No test parses options.",
 [HL, "main.py", SIM], [("add_script_arguments and its value types", HL), ("main passes the options on", "main.py"), ("read_args_from_file", HL)], [], ["parsed arguments, args.json"])

prop("C18", "The interactive session follows its messages",
 "In an interactive session, each step request advances the running simulation by exactly one round and shows the latest recorded metrics, and once the simulation has ended it reports the end and changes nothing. "
 "A reset or a change of an offered parameter starts a new simulation with the parameter values chosen last, and unknown parameters or messages change nothing.",
 ["histories"],
 "All sequences of messages up to a bounded length over an alphabet of step, reset, valid and invalid parameter changes and unknown messages.",
 "No test covers the interactive part.",
 ["interactiveViz/myModularVisualization.py", "interactiveViz/bubbleChartModule.py", "interactiveViz/stackedChartModule.py", "interactiveViz/myChartModule.py"],
 [("on_message", "interactiveViz/myModularVisualization.py"), ("reset_model, render_model", "interactiveViz/myModularVisualization.py"), ("render of the charts", "interactiveViz/*Module.py")], [], ["messages written to the client, model of the server"])

prop("C19", "Long-term pool size forecasts follow the ranking",
 "A non-myopic agent expects a pool to end up at its saturation threshold (or its present size if larger) exactly if the better-ranked pools, each filled to its own saturation threshold, cannot hold the system's whole stake, and expects it to keep only its pledge otherwise. "
 "This holds for every ranking, including those with unfilled places and pools that promise no profit, and ranks order items from highest to lowest with ties resolved by the given criteria and finally by age.",
 ["inputs", "configurations"],
 "All rankings of up to four pools over a small alphabet of pledge, cost, margin and size, with and without unfilled places, for every reward scheme and several k and total stakes.",
 "Tests check five rankings of eleven pools without unfilled places and four dictionaries.",
 [HL, PR], [("calculate_non_myopic_pool_stake, calculate_non_myopic_pool_stake_from_rank", HL), ("calculate_ranks, find_target_pool, pool_comparison_key", HL)], [], ["forecast and rank functions"])

prop("C20", "Every agent is activated exactly once per round in the chosen order",
 "In every round each agent gets exactly one turn: in order of id (sequential), in an order that may be any permutation (random), or with all decisions of a group taken on the same state before any of them is carried out (simultaneous: one group of all; semi-simultaneous: successive groups of a fixed size that may be any sample, the last possibly smaller). "
 "In the immediate orders an agent's move is carried out before the next agent decides.",
 ["schedules", "configurations"],
 "All outcomes of the random choices of a round for up to six agents, for all four activation orders and several group sizes.",
 "No test runs a round; random orders are sampled once per run.",
 [ACT, ST, SIM], [("SemiSimultaneousActivation.step", ACT), ("step / advance", ST), ("choice of scheduler", SIM)], [], ["sequence of decisions and executions in a round"])

prop("C21", "Every accepted configuration can be simulated to its end",
 "A simulation with any documented combination of options runs to equilibrium or to the round limit and writes its output, without failing on the way, whatever the order in which agents act. "
 "This includes single agents, more target pools than agents, all reward schemes, all profiles, inactive stake, zero and prohibitive costs, several phases and all metrics.",
 ["configurations", "schedules"],
 "All combinations over small alphabets of the options, and all activation schedules of small systems.",
 "The stable tests construct simulations but never run one.",
 [SIM, ST, PR, HL, RW, MR, ACT], [("Simulation.run_model", SIM), ("RSS_MAPPING, PROFILE_MAPPING", RW)], [], ["run_model"])

prop("C22", "Sampled stakes and profiles follow the requested distributions",
 "Stakes drawn from the Pareto source follow a Pareto distribution with the given shape, costs are uniform between the bounds, and profiles occur in proportion to their weights.",
 ["inputs"], "All seeds, in distribution.",
 "A distribution is a statement about the ensemble of seeds; tests check lengths only.",
 [HL, SIM], [("generate_stake_distr_pareto, generate_cost_distr_unfrm", HL), ("random.choices of profiles", SIM)], [], ["agent stakes, costs, profiles"])

prop("C23", "The charts of the interactive page show the running simulation's history",
 "The page that the repository serves loads and, after every user action (start, stop, step, reset, parameter change), shows the simulation that is running: its charts give, for every round stepped through since the last reset, the number of pools and the stake of each agent's pools at the beginning of that round, in order and next to that round's number, and the bubbles are exactly the pools of the last recorded round whose owner has stake, with their owner's stake, stake, margin, id and owner. "
 "After a reset nothing of an earlier simulation is left in the charts.",
 ["histories"],
 "All sequences of user actions up to a bounded length, with the real page scripts, socket handler and server.",
 "No test covers the interactive part, and nothing runs the scripts of the page.",
 ["interactiveViz/runViz.py"] + ["interactiveViz/%sModule.%s" % (m, e) for m in ("myChart", "stackedChart", "bubbleChart") for e in ("js", "py")],
 [("render, reset of the charts", "interactiveViz/*ChartModule.js"), ("render of the elements", "interactiveViz/*ChartModule.py"), ("elements and parameters of the page", "interactiveViz/runViz.py")], [], ["contents of the charts when last updated"])
prop("C24", "Charts of runs and batches show exactly what was recorded",
 "A run that draws graphs leaves one line chart for every recorded metric that is a number, with the recorded value of every round from round 0, a line at every equilibrium and a cross at every parameter change, and one stacked chart of the stakes of all agents' pools from round 1. "
 "A batch leaves, for each swept parameter and metric, a chart with one point per simulation, at its own parameter value and metric (negative metrics left out), and, if exactly two parameters were swept, one heat map per metric with every simulation's value in the cell labelled with its own parameter values. "
 "Each chart is in a file of its own, in the folder of its run or batch, and no charts are drawn if they are switched off.",
 ["histories"],
 "All histories up to a bounded number of rounds with every place of equilibria and parameter changes; real runs and batches over grids of options.",
 "No test looks into a figure; which marks and cells are right depends on the history and on the order in which simulations end.",
 [SIM, HL, "batch-run.py"],
 [("export_graphs", SIM), ("plot_line, plot_stack_area_chart, plot_aggregate_data, plot_aggregate_data_heatmap", HL), ("plots of the batch", "batch-run.py")], [], ["figures as matplotlib objects when they are saved"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
pathlib.Path(__file__).resolve().parents[1].joinpath("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
