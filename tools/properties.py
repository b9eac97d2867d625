#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (single source of the property texts)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "pywr-core/src/"
S = "pywr-schema/src/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note))

prop("C01", "Every accepted timestep conserves mass and respects every flow limit",
  "In every timestep and scenario of a run that is not rejected, the flow into each link equals the flow out of it, no edge carries a negative flow, and the flow through every node lies between that timestep's minimum and maximum flow. The flows reported for nodes, edges and aggregated nodes are the sums of the edge flows they are made of.",
  ["inputs", "configurations", "histories"],
  "all networks of inputs, links, outputs and storages with constant or time-varying limits given in any supported way, all scenario sizes, all timesteps of a run, both bundled linear programme solvers",
  "the existing tests run a few fixed networks and look at one or two recorded values; they do not check every node of arbitrary networks in every step, nor limits that vary by step and scenario",
  [C+"solvers/builder.rs", C+"solvers/highs/mod.rs", C+"solvers/microlp/mod.rs", C+"node.rs", C+"state/mod.rs", C+"network.rs"],
  [("programme assembly and per-step update", "SolverBuilder::create, BuiltSolver::update in solvers/builder.rs"), ("edge/node flow state", "NetworkState in state/mod.rs")],
  "property-based testing: generated networks run through the real model, every step checked against the network's own constraints",
  "generated networks of up to ~12 nodes, 14 steps and 4 scenarios; flows compared at 1e-6")
prop("C02", "Each timestep's allocation has least cost; impossible ones stop the run",
  "In every timestep of a completed run the allocation's total cost is the least that any allocation satisfying that timestep's limits, volumes, licences and aggregated constraints could have. If a timestep has no such allocation the run stops with an error instead of recording flows, and a run whose every timestep has one is not stopped.",
  ["inputs", "configurations", "histories"],
  "all networks, cost patterns (including virtual storage costs added to their members), limits and initial states; both bundled linear programme solvers",
  "tests assert a handful of known allocations; optimality is a claim about every other feasible allocation of every possible network",
  [C+"solvers/builder.rs", C+"solvers/highs/mod.rs", C+"solvers/microlp/mod.rs", C+"solvers/col_edge_map.rs", C+"edge.rs", C+"node.rs"],
  [("objective update", "BuiltSolver::update_edge_objectives, Edge::cost"), ("solve and outcome mapping", "HighsSolver::solve, MicroLpSolver::solve")],
  "property-based differential testing against an independent dense simplex / enumeration reference solver",
  "least cost up to 3e-6 relative (1.1e-4 with on/off decisions, the solver's own gap)")
prop("C03", "Storage volumes follow the flows and stay within their limits",
  "After every timestep the volume of each storage equals its volume before plus inflow minus outflow times the length of the timestep in days, starting from the configured initial volume (absolute, or a proportion of the maximum volume). A volume that starts within its limits never leaves them, and the reported proportional volume is the volume divided by that timestep's maximum volume. A group of storages reports the sum of its volumes, and that sum divided by the sum of the maximum volumes; parameters see the same values at the start of the next timestep, even where the maximum volume has changed.",
  ["inputs", "histories", "configurations"],
  "all storages with constant or time-varying limits and any initial condition, any step length, all timesteps and scenarios",
  "volume errors accumulate over steps and depend on step length, limits and scenario; tests use one or two daily runs with fixed limits",
  [C+"state/storage.rs", C+"state/mod.rs", C+"node.rs", C+"solvers/builder.rs"],
  [("volume update", "StorageState / StorageInitialVolume in state/storage.rs and node.rs"), ("volume bounds of a step", "NodeBounds::Volume in solvers/builder.rs")],
  "property-based testing: step-by-step volume accounting over generated networks",
  "volumes compared at 2e-6 relative")
prop("C04", "Virtual storages account exactly for use, resets, windows and active periods",
  "The volume of a virtual storage falls in each timestep it is active by its members' flows times their factors and the timestep length, is restored on its configured reset days, months or rolling window, and is otherwise unchanged while inactive. While active, its members together can never use more than the volume remaining above its minimum.",
  ["inputs", "histories", "configurations"],
  "all member sets, factors, initial volumes, reset rules (never, day of year, number of months, to initial or to maximum), rolling windows, active periods (including ones crossing new year), start dates and step counts",
  "licence accounting is a history property; tests cover a single reset per rule with one start date",
  [C+"virtual_storage.rs", C+"state/mod.rs", C+"solvers/builder.rs"],
  [("reset and rolling window", "VirtualStorage::before / after in virtual_storage.rs"), ("licence constraint", "update_virtual_storage_node_constraint_bounds in solvers/builder.rs")],
  "stateful property-based testing against an accounting model",
  "rolling windows and day-of-year rules on daily steps only; volumes compared at 2e-6 relative")
prop("C05", "Aggregated node limits, factors and exclusivity hold in every timestep",
  "In every timestep the combined flow of an aggregated node's members lies within its limits, and members follow its relationship: fixed proportions, ratios or linear coefficients with a right-hand side, whether these are constant or vary by timestep or scenario. With mutual exclusivity the number of active members lies within the configured range, and an active member also respects its own limits.",
  ["inputs", "histories", "configurations"],
  "all member groupings (including members that share an edge or are storages), all relationship kinds, constant, parameter-driven and scenario-dependent factors, right-hand sides and limits, all timesteps",
  "tests use one topology per relationship with mostly constant factors; interactions of time-varying factors, shared edges and limits are not exercised",
  [C+"aggregated_node.rs", C+"solvers/builder.rs"],
  [("relationships", "get_norm_factor_pairs / get_const_norm_factor_pairs in aggregated_node.rs"), ("row update", "update_aggregated_node_factor_constraints, update_node_constraint_bounds in solvers/builder.rs")],
  "property-based differential testing against an independent reference solver with enumerated on/off choices",
  "on/off programmes are cross-checked with a second solver before an alarm is raised, because HiGHS itself misjudges rare tiny ones")

PA = C+"parameters/"
prop("C06", "Scenarios are indexed as described and do not influence one another",
  "A scenario domain holds exactly the scenarios its groups, subsets (slice, indices or labels) and combinations describe, in order, each with the right labels and the right column of every scenario-dependent input; a description that selects something that does not exist is rejected. The results of a scenario are the same whichever other scenarios are run alongside it and in whichever order, and the same (values, number of steps, and whether the run ends in an error) when scenarios are stepped in parallel on any number of threads as when they are stepped one after another.",
  ["inputs", "configurations", "schedules"],
  "all group sizes, labels, subsets and combinations, valid and invalid; all networks and parameters of the other properties; all subsets of their scenarios; any thread count",
  "tests check a few domains and never compare a restricted or a parallel run with the full serial one",
  [C+"scenario.rs", C+"network.rs", C+"models/simple.rs", PA+"array.rs", PA+"constant_scenario.rs"],
  [("domain construction", "ScenarioDomainBuilder::build in scenario.rs"), ("parallel step", "Network::step_par in network.rs"), ("subset of scenario data", "subset_array2 in parameters/array.rs")],
  "property-based testing: reference model of the domain, metamorphic comparison of full, restricted and multi-threaded runs",
  "restricted and parallel runs are compared exactly; networks with on/off decisions are left out, because HiGHS breaks ties differently from one solve to the next")
prop("C07", "The time domain is the calendar's, and every step is run once with its length",
  "The timesteps of a model start at the start date, follow each other without gap or overlap at the configured hours, days or calendar frequency (months counted from the start date and clipped to the month's length), and end with the last one that starts no later than the end date; each has the right index, length in days and day-of-year position. A description without steps, or with a step that is not positive, is rejected. A run executes every step once, in order, and changes volumes by flow times the step's true length, also where lengths differ.",
  ["inputs", "configurations", "histories"],
  "all start and end dates and times, hour, day and mixed calendar frequencies, leap years, month ends",
  "tests look at a few domains; month-end, leap-year and uneven-step behaviour depends on the particular dates",
  [C+"timestep.rs", C+"models/simple.rs", C+"state/storage.rs"],
  [("step generation", "TimeDomainBuilder in timestep.rs"), ("calendar position", "Timestep::day_of_year_index and fractional_day_of_year")],
  "property-based differential testing against independent calendar arithmetic",
  "frequencies combine up to two of years, quarters, months, weeks, days, hours, minutes, seconds; up to 400 steps")
prop("C08", "Computed parameters return exactly their documented function of their inputs",
  "In every timestep, scenario and phase, a parameter's value is its documented function of that phase's input values: arithmetic, aggregation, clamping, polynomial, piecewise-linear interpolation, indexing, discounting, thresholds, hydropower, apportioning, and values listed per timestep or scenario. A parameter with no valid value (division by zero, position outside a table, out-of-range input set to fail) stops the run with an error, never a panic.",
  ["inputs", "configurations", "histories"],
  "all parameter kinds, input values, chains of parameters of constant, simple and general class feeding each other, phases (before, after, after-or-initial), scenario groups and timesteps",
  "tests evaluate most kinds once with literal inputs; chains across classes and phases, scenario-dependent inputs and boundary values are not sampled",
  [PA+"aggregated.rs", PA+"aggregated_index.rs", PA+"array.rs", PA+"interpolated.rs", PA+"hydropower.rs", PA+"difference.rs", PA+"division.rs", PA+"polynomial.rs", PA+"indexed_array.rs", PA+"mod.rs", C+"agg_funcs/mod.rs"],
  [("phased evaluation", "ParameterCollection::compute_simple / before / after in parameters/mod.rs"), ("aggregation functions", "AggFuncF64::calc_iter_f64, AggFuncU64 in agg_funcs/mod.rs")],
  "property-based differential testing of generated parameter graphs against an independent evaluator",
  "graphs of up to ~12 parameters; values within rounding of a discrete boundary are not compared")
prop("C09", "Parameter values do not depend on order or on how a number is supplied",
  "Adding the same parameters in any order gives the same values, and a fixed number gives the same results whether written directly or through a constant, a scenario constant, an array or a computed parameter; a parameter that reads a node's limit sees this timestep's limit. A network with a duplicated parameter name, a circular or missing reference, or an end-of-timestep value used before it exists is rejected with an error naming the culprit.",
  ["inputs", "configurations"],
  "all parameter graphs, all orders of definition, all ways of supplying a number, all single faults in the graph",
  "a test fixes one order and one way of supplying each input",
  [PA+"mod.rs", C+"metric.rs", C+"network.rs"],
  [("resolution and ordering", "ParameterCollectionBuilder::build in parameters/mod.rs"), ("class and phase rules", "resolve_parameter_index_* in metric.rs")],
  "metamorphic property-based testing: reorderings and re-expressions of one generated network must agree; single faults must be rejected",
  "graphs of up to ~12 parameters; faults are one of five kinds")
prop("C10", "Parameters with memory follow their history exactly in every scenario",
  "A delay returns the value its input had exactly the given number of timesteps earlier (its initial value before that); a rolling window aggregates exactly the last values it should; a ratchet never goes back; an asymmetric switch changes only when its on or off condition says so; a deficit and a Muskingum routing follow from the flows of the timesteps they refer to. One scenario's history never affects another's.",
  ["inputs", "histories"],
  "all window and delay lengths, initial values, minimum counts, input histories (including flows of the simulated system), scenario sizes and run lengths",
  "memory goes wrong at particular combinations of length, timestep and scenario; tests run one history of one scenario",
  [PA+"delay.rs", PA+"rolling.rs", PA+"asymmetric.rs", PA+"threshold.rs", PA+"multi_threshold.rs", PA+"muskingum.rs", PA+"deficit.rs"],
  [("per-scenario memory", "ParameterStates in parameters/mod.rs and state"), ("end-of-timestep updates", "after / hooks of delay.rs and rolling.rs")],
  "stateful property-based testing against an independent history model",
  "up to 10 timesteps, 6 scenarios, windows up to 4")
prop("C11", "Control curve parameters choose and interpolate the right band",
  "For every storage state and every set of descending control curves, the band is the first one whose curve is at or below the current value. The indexed and plain forms return that band's index or value, the interpolated forms are linear between the values at the band's edges, and the volume between two curves is the total multiplied by their difference; the levels may themselves vary by timestep or scenario.",
  ["inputs", "histories"],
  "all numbers of curves, curve levels (also equal, 0 or 1, or varying by timestep), storage states including exactly on a curve, band values given by other parameters",
  "the edges of bands and time-varying levels are where choices go wrong; tests use fixed curves and a few volumes",
  [PA+"control_curves/simple.rs", PA+"control_curves/index.rs", PA+"control_curves/interpolated.rs", PA+"control_curves/piecewise.rs", PA+"control_curves/volume_between.rs", PA+"control_curves/apportion.rs", PA+"interpolate.rs"],
  [("band choice", "the before methods in parameters/control_curves"), ("interpolation", "interpolate in parameters/interpolate.rs")],
  "property-based differential testing of generated networks against an independent evaluator",
  "up to three curves per parameter")
prop("C12", "Calendar profiles give the right value for every date and time",
  "For every timestep of any length starting at any date and time, daily, weekly, monthly, diurnal, uniform drawdown and radial basis profiles return the value that the calendar assigns to that moment. Each calendar day keeps its value in leap and other years, and interpolated profiles run in a straight line between the documented anchor days, across month and year ends.",
  ["inputs", "configurations"],
  "all profile values and interpolation modes, start dates, step lengths from an hour to weeks, leap and common years, reset days, radial basis functions and points",
  "calendar errors appear on particular days of particular years; tests look at a few dates",
  [PA+"profiles/daily.rs", PA+"profiles/weekly.rs", PA+"profiles/monthly.rs", PA+"profiles/diurnal.rs", PA+"profiles/uniform_drawdown.rs", PA+"profiles/rbf.rs", C+"timestep.rs"],
  [("day numbering", "Timestep::day_of_year_index / fractional_day_of_year in timestep.rs"), ("profile evaluation", "compute methods in parameters/profiles")],
  "property-based differential testing against independent calendar arithmetic",
  "radial basis systems that are too ill-conditioned to predict are skipped; 29 February as a drawdown reset day is not exercised")

prop("C13", "Recorded outputs report exactly the values of the simulation",
  "Every recorder holds or writes, for each metric of its metric set, each scenario and each timestep (or aggregated period), exactly one record with the metric's value at the end of that timestep, under the right time range, scenario label, metric set, name and attribute; nothing is missing, repeated or shifted. The value of a memory recorder aggregated over metrics, time and scenarios is what the chosen functions and order give for those values, and an assertion recorder stops the run exactly when a value differs from the expected one.",
  ["inputs", "configurations", "histories"],
  "all metric sets, names and labels (with separators, quotes, line breaks), step lengths, scenario sets, decimal places, aggregation functions and orders; CSV long and wide, HDF5, memory and assertion recorders, alone or together",
  "tests compare a few files of one model each; they cannot cover combinations of scenarios, metrics, periods and names",
  [C+"recorders/csv.rs", C+"recorders/hdf.rs", C+"recorders/memory.rs", C+"recorders/metric_set.rs", C+"recorders/mod.rs", C+"network.rs"],
  [("values of a step", "MetricSet::save in recorders/metric_set.rs, Network::save_metric_sets and save_recorders in network.rs"), ("files and tables", "save and finalise in recorders/csv.rs, hdf.rs, memory.rs")],
  "property-based testing: outputs of generated models are read back and compared with the values the model was given",
  "metrics are parameters, node flows and constants; wide files show two decimals and no period end; three known findings about the last, unfinished period of an aggregation")
prop("C14", "Values aggregated over time are those of the calendar periods they fall in",
  "A time aggregation yields, for each month, year, number of days or the whole run, one value over exactly the timesteps or parts of timesteps in that period: steps crossing the end of a period count in both by their duration, means are weighted by duration, and each value is yielded once, when the period is complete. Nested aggregations aggregate the inner ones' values in the same way.",
  ["inputs", "histories"],
  "all step lengths and start dates, period kinds, functions, up to three nested levels",
  "tests look at one or two periods of daily steps; crossing steps, leap years and nested levels are not sampled",
  [C+"recorders/aggregator/mod.rs", C+"recorders/metric_set.rs", C+"agg_funcs/mod.rs"],
  [("periods", "AggregationFrequency in recorders/aggregator/mod.rs"), ("weighted functions", "AggFuncF64::calc_period_values in agg_funcs/mod.rs")],
  "property-based differential testing against integer-nanosecond calendar aggregation",
  "a value spanning several whole periods is documented as not supported and left out; two known findings about the last, unfinished period")
prop("C15", "Values transferred between networks are the right network's, step and scenario",
  "In a model of several networks a transfer gives, in each scenario and timestep, the source's value of the same timestep if the source network comes earlier in the model, and of the previous timestep if it comes later, except that a configured initial value is used in the first timestep. Given the values it received, each network behaves exactly as it would on its own, and a transfer from a missing network, a missing metric or a network to itself is rejected with an error.",
  ["inputs", "configurations", "histories"],
  "all arrangements of networks and transfers (including forwarded ones), transferred metrics, initial values, scenarios, timesteps, with and without threads, scenarios stepped one by one or all together","tests transfer one value between two networks; order, forwarding, scenarios and first steps are not combined",
  [C+"models/multi.rs", C+"metric.rs", C+"state/mod.rs"],
  [("order of networks in a step", "MultiNetworkModel::step in models/multi.rs"), ("transfer of a scenario", "compute_inter_network_transfers and its per-scenario helper in models/multi.rs")],
  "property-based testing: every transferred value of generated multi-network models is compared with the source's recorded one, and each network with a run on its own",
  "two to four networks, up to 10 steps and 7 scenarios")

prop("C16", "Model documents are read and written without loss, and read strictly",
  "Every model document that fits the published JSON schema of the model format is read, and reading, writing and reading it again gives the same document: no field, name, number, comment or variant is lost or altered, apart from defaults being filled in and optional empty fields being left out. A document with an unknown field or variant, a missing required field or a value of the wrong type where the published schema forbids it is refused with an error.",
  ["inputs", "configurations"],
  "all documents the published schema allows (all nodes, parameters, metrics, tables, timeseries, outputs), and documents one fault away from it",
  "tests read and write one example document per component; combinations, optional fields and faulty documents cannot be enumerated",
  [S+"model.rs", S+"network.rs", S+"metric.rs", S+"parameters/mod.rs", S+"nodes/mod.rs", S+"visit.rs", "pywr-schema-macros/src/lib.rs"],
  [("serde definitions", "the Deserialize and Serialize implementations of all schema types in pywr-schema/src"), ("published schema", "the JsonSchema implementations exported by pywr-cli's export-schema")],
  "property-based testing: documents generated from the published JSON schema go through read-write-read; faulty ones have to be refused",
  "unknown keys beside unit variants of tagged enumerations and at the root of a document are tolerated by the format, and not tested")
prop("C17", "A node of a model document behaves as the structure it is documented to be",
  "The nodes and virtual nodes of a model document, simple or composite (catchment, reservoir, link with soft limits, loss link, treatment works, piecewise link, delay, river with loss and routing, abstraction, gauge, split with gauge, turbine, piecewise storage, aggregated nodes, virtual storages), become exactly the network their documentation describes: each timestep is a least-cost allocation of that network with the documented limits, costs, shares, delays and routing, edges attach at the slots named, virtual nodes constrain the components named, and every attribute of a node, virtual node or edge reports the flow, volume or other quantity it is documented to be. A valid document builds and runs.",
  ["inputs", "configurations", "histories"],
  "all documents built from these nodes, their optional fields set or absent in any combination, all slots, components and attributes, several timesteps and scenarios",
  "tests use one or two fixed documents per node type; most combinations of optional fields, and most attributes, slots and components, occur in none",
  [S+"nodes/mod.rs", S+"nodes/core.rs", S+"nodes/river.rs", S+"nodes/reservoir.rs", S+"nodes/river_gauge.rs", S+"nodes/river_split_with_gauge.rs", S+"nodes/loss_link.rs", S+"nodes/water_treatment_works.rs", S+"nodes/piecewise_link.rs", S+"nodes/piecewise_storage.rs", S+"nodes/delay.rs", S+"nodes/abstraction.rs", S+"nodes/turbine.rs", S+"nodes/virtual_nodes/virtual_storage.rs", S+"nodes/virtual_nodes/aggregated.rs", S+"edge.rs"],
  [("composite nodes", "add_to_network of each node type"), ("slots, components and attributes", "input_connectors, output_connectors, nodes_for_flow_constraints and create_metric of each node type")],
  "property-based testing: the reported values of generated documents have to be explained by a least-cost allocation of an independent expansion of each node, decided by a reference LP solver",
  "up to about eight schema nodes per document; plain nodes with all values, composite ones with literal and profile values; integer programmes only through plain documents")
prop("C18", "Data tables give exactly the cell that the keys name, or an error",
  "A lookup in a data table gives exactly the value the file holds at the row and column keys named (as a number of the requested kind, unaltered), whatever the layout (row keys, column keys or both, one to four keys), the order of rows and columns and the other tables of the model; arrays hold all values in the file's order. A missing key, a wrong number of keys, a cell that is not such a number, an unreadable file or a wrong checksum is an error, never another value and never a crash.",
  ["inputs", "configurations"],
  "all CSV tables and key types, layouts and formats, all lookups in them (by name, present or absent), malformed files, and use of the values by parameters of a model",
  "tests look up a few cells of fixed tables; layouts, key text (quotes, case, spaces, numbers) and number ranges are not covered",
  [S+"data_tables/mod.rs", S+"data_tables/scalar.rs", S+"data_tables/vec.rs", S+"digest.rs"],
  [("loading", "load functions of scalar.rs and vec.rs"), ("lookups and lookup formats", "TableDataRef and LoadedTableCollection in data_tables/mod.rs")],
  "property-based differential testing against an independent CSV table model",
  "tables of up to 8 rows and columns and one to four keys")
prop("C19", "Timeseries give each timestep the value their data has for it",
  "A timeseries gives each timestep of the model, for the named column or for each scenario of a group, the value of the data covering that time: data of the same step are aligned by date, finer data averaged over the timestep, coarser data repeated, and the column is the one named, whatever the order of columns and rows read, and whatever other timeseries and columns the model uses. Data that do not cover the run, a missing column or a step that cannot be matched is an error, never a wrong value or a crash.",
  ["inputs", "configurations"],
  "all start dates, data and model steps, gaps before and after, columns and their names, scenario groups and subsets, number of uses",
  "tests use three fixed files; steps, offsets, names and scenario subsets are not combined",
  [S+"timeseries/mod.rs", S+"timeseries/align_and_resample.rs", S+"timeseries/polars_dataset.rs", S+"timeseries/pandas.rs", S+"timeseries/pandas_load.py"],
  [("alignment and resampling", "align_and_resample in timeseries/align_and_resample.rs"), ("column and scenario parameters", "LoadedTimeseriesCollection in timeseries/mod.rs")],
  "property-based differential testing: models reading generated files through Polars and Pandas (stub modules) are compared with averages computed by a reference",
  "data without gaps inside, up to a few hundred rows; pandas and polars are not installed here and stub modules stand in for them; resampling ratios that do not divide are checked as documented in DESIGN.md")
prop("C20", "Models of version 1 are converted to models which behave the same",
  "Converting a document of Pywr version 1 gives a model in which every node, virtual node, edge, parameter, scenario and the timestepper behave as version 1 defines: the same limits, costs, initial volumes, resets, delays, splits, profiles, curves, thresholds, data and defaults, whichever of the accepted spellings and short forms the document uses and however parameters are named, nested or shared. Whatever has no equivalent is named in an error of its own, while the rest is converted as if it were not there: nothing is dropped, altered or renamed into something else silently, and no document makes the conversion panic.",
  ["inputs", "configurations"],
  "all documents of version 1: kinds of nodes and parameters, spellings, named and inline parameters nested in any way, scenarios and slices, timesteps, and all ways in which some part of a document cannot be converted",
  "tests convert one example of most types and compare the text; none runs a converted model against what the original means, and combinations, defaults and unsupported parts are not covered",
  [S+"v1.rs", S+"model.rs", S+"network.rs", S+"edge.rs", S+"metric.rs", S+"nodes/mod.rs", S+"nodes/core.rs", S+"nodes/delay.rs", S+"nodes/piecewise_link.rs", S+"nodes/river_split_with_gauge.rs", S+"nodes/virtual_nodes/aggregated.rs", S+"nodes/virtual_nodes/virtual_storage.rs", S+"parameters/mod.rs", S+"timeseries/mod.rs", S+"digest.rs"],
  [("whole documents", "ModelSchema::from_v1, NetworkSchema::from_v1_with_timestep"), ("components", "the TryFromV1 and TryFrom implementations of nodes, parameters, metrics, timeseries, edges and scenarios"), ("names", "ConversionData::unnamed and reserve_name")],
  "property-based testing against reference models: generated systems and parameter networks are written in version 1, converted, run and compared with what they mean; generated defects must be named and leave the rest unchanged",
  "up to 10 nodes and 6 named parameters; time steps of whole days; recorders are not converted by design; the default of use_proportional_volume and initial_months are not tested")

prop("C21", "Invalid models end in an error that says so, never in a panic",
  "Whatever a document says, reading, validating, loading, building and running it ends either in success or in an error value: it does not panic, abort or loop without end. In particular a reference to a node, parameter, table, timeseries, metric set, scenario group or column that does not exist, and a second component with the name of an existing one, is refused before the run starts.",
  ["inputs", "configurations"],
  "all documents derived from valid models by changing, removing, adding or exchanging entries, names and numbers, and all documents that fit the published schema whatever their content",
  "tests contain three invalid models; the ways to be invalid are unlimited",
  [S+"model.rs", S+"network.rs", S+"error.rs", S+"parameters/mod.rs", S+"nodes/mod.rs", S+"metric.rs", C+"network.rs", C+"parameters/mod.rs", C+"models/simple.rs", C+"state/storage.rs"],
  [("loading", "ModelSchema::create_model_builder and the add_to_network functions"), ("building and running", "ModelBuilder::build, Model::run")],
  "structure-aware fuzzing: mutations of the repository's models and schema-generated documents are read, loaded, built and run",
  "HiGHS solver; Python parameters and conversion from v1 left out; up to three mutations and a few timesteps")

prop("C22", "Parameters of a document have the values their attributes describe",
  "A parameter written in a model document has, in every timestep and scenario, the value that its attributes describe and its documentation defines: attributes that are left out have their documented defaults, values taken from tables, timeseries, arrays and other components are those of the component named, and it makes no difference whether a value is given as a literal or by reference. Local parameters behave as global ones, may use the other local parameters of their node, and are distinct from parameters of the same name elsewhere. A file whose content does not have the checksum given for it is refused.",
  ["inputs", "configurations", "histories"],
  "all networks of parameters that a document can express, global or local to any node and in any order, over all simulated periods and scenarios",
  "schema tests read and build one example of a few parameter types; nearly none compares a value, and none combines them",
  [S+"parameters/"+f for f in ("mod.rs","core.rs","aggregated.rs","asymmetric_switch.rs","control_curves.rs","delay.rs","discount_factor.rs","hydropower.rs","indexed_array.rs","interpolated.rs","offset.rs","polynomial.rs","profiles.rs","rolling.rs","tables.rs","thresholds.rs")]+[S+"metric.rs", S+"digest.rs"],
  [("loading", "add_to_network of each schema parameter; Metric::load, IndexMetric::load, ConstantValue::load"), ("local parameters", "ParameterName parents in pywr-schema/src/parameters and nodes")],
  "property-based testing against a reference model: generated parameter networks are written as documents and their values compared with the independent evaluator of C08 and C10 to C12",
  "up to 10 parameters plus inputs, 9 timesteps, 6 scenarios; HiGHS solver")
prop("C23", "Python objects compute with the values of their own scenario and timestep",
  "A Python parameter of a document returns, in every scenario and timestep and in each phase that its object implements, what the object returns when it is called with the timestep, the scenario, the metrics and indices named in the document (with their values at that moment) and the arguments given. A class is instantiated once for each scenario with the arguments of the document, keeps its own state, and is called once in each phase. Objects see the globals of their own file. Python aggregation functions receive the list of values. Entries of a returned dictionary are read by their keys: numbers with a decimal point as metrics, whole numbers as indices. An exception, a result of the wrong type, and an entry that is missing or of the other kind end the run with an error at that timestep; objects that cannot be loaded or have no method to call, arguments they do not take, and references with an unknown key or to a phase without a value are refused with an error.",
  ["inputs", "configurations", "histories"],
  "all Python functions and classes, arguments, metrics and scenarios; checked with generated code that computes weighted sums of everything it is told and counts its calls",
  "tests run two small objects with one set of values each",
  [S+"parameters/python.rs", S+"py_utils.rs", S+"agg_funcs.rs", C+"parameters/py.rs", C+"agg_funcs/py.rs", C+"state/mod.rs"],
  [("loading", "PythonParameter::add_to_network, PythonSource::load_module, try_json_value_into_py"), ("calling", "PyClassParameter::call_method, PyFuncParameter::compute, PyAggFunc")],
  "property-based testing against a reference model: generated Python files and documents, with values compared to the weighted sums the generator predicts",
  "objects from files; up to 10 parameters, 6 timesteps, 6 scenarios; one thread")

prop("C24", "Visitors of a document reach everything they are for",
  "Visiting a network schema calls the visitor once for every metric (visit_metrics; index metrics excepted), file path (visit_paths) and name of a referenced node (visit_node_references) in the document and for nothing else, wherever it is nested: in nodes, local parameters, virtual nodes, parameters, tables, timeseries, metric sets and outputs. The mutable visitors visit the same places, and change the document at those places only. A model whose files were moved, and whose paths were rewritten with visit_paths_mut, gives the same results.",
  ["inputs", "configurations"],
  "all documents that the schema can express; checked with documents generated from the published JSON schema, in which the generator marks every metric, path and reference, and with the parameter documents of C22 after their files were moved",
  "tests visit a handful of documents, and never compare what was visited with what is there",
  [S+"visit.rs", S+"network.rs", S+"parameters/mod.rs", S+"nodes/mod.rs", S+"data_tables/mod.rs", S+"metric_sets/mod.rs", "pywr-schema-macros/src/lib.rs"],
  [("derived visitors", "PywrVisitAll, PywrVisitMetrics, PywrVisitPaths and PywrVisitReferences macros"), ("entry points", "VisitMetrics, VisitPaths and VisitNodeReferences of NetworkSchema")],
  "property-based testing: documents generated from the JSON schema with marked places, compared with what the visitors report and change; metamorphic relation (moved files) with a reference model",
  "two nested levels of generated values; moved files checked with the reference model of C22")

prop("C25", "Variables set from outside are the ones used from then on",
  "After a variable of a parameter (an offset, or the values or days of an RBF profile) is set for one scenario or for all of them, before or between timesteps, every later timestep of these scenarios of that model state uses it (through the configured activation function) for the parameter, for everything that depends on it and for the allocation; other scenarios, other states of the same model and earlier results are unaffected. What was set can be read back. Lists of the wrong length, days that can not be interpolated, and parameters that have no such variable are refused without any change. Bounds and activation functions follow the settings in the document.",
  ["inputs", "histories", "configurations"],
  "all models, settings and sequences of setting and stepping; checked with histories over two interleaved states against a model of what was set",
  "unit tests set one value of one parameter once, and do not run the model afterwards",
  [C+"network.rs", C+"parameters/offset.rs", C+"parameters/constant.rs", C+"parameters/profiles/rbf.rs", C+"parameters/activation_function.rs", S+"parameters/profiles.rs", S+"parameters/core.rs", C+"models/simple.rs"],
  [("setting and reading", "Network::set_f64_parameter_variable_values and relatives"), ("use", "OffsetParameter::offset, RbfProfileInternalState, ActivationFunction::apply")],
  "stateful, model-based property testing: generated histories of setting, reading and stepping over two states, compared with a reference model",
  "constants are a recorded finding (setting them has no effect); up to 4 variables, 7 timesteps, 4 scenarios, HiGHS")

prop("C26", "The SIMD interior point solver allocates like the simplex solvers",
  "Every timestep that a multi-scenario run with the ipm-simd solver completes has, for each scenario of any number of scenarios, an allocation that keeps the mass balance, maximum flows and volumes, and costs no more than the best one, within a relative tolerance of 1e-4; volumes carry over and derived values follow from the flows as with the other solvers, and parameters have the same values and memory in each scenario as when scenarios are stepped one by one, on any number of threads. The allocation holds for networks of inputs, links, outputs and storages with limits above zero and without circles. Networks with virtual storages or aggregated nodes are refused before the first timestep. A run that does not converge stops, which hardly ever happens to networks without storages.",
  ["inputs", "configurations", "histories"],
  "all such networks, with limits and costs that vary in time and by scenario; checked with generated systems against an exact simplex reference",
  "the tests run the solver, and do not compare its results with anything",
  [C+"solvers/ipm_simd/mod.rs", "ipm-simd/src/lib.rs", "ipm-simd/src/path_following_direct.rs", "ipm-simd/src/common.rs", "ipm-common/src/lib.rs", C+"network.rs", C+"models/simple.rs"],
  [("linear programme", "SolverBuilder::create, BuiltSolver::update"), ("lanes", "LpBuilder, Lp::apply_row_bounds, Lp::add_obj_coefficient, SimdIpmF64Solver::solve"), ("interior point method", "normal_eqn_step, SparseNormalCholeskyIndices")],
  "property-based testing against a reference: generated systems, with the linear programme of each timestep solved by an independent simplex method",
  "minimum flows are a recorded finding (they are ignored); systems of up to 11 nodes, 6 timesteps, 18 scenarios")

prop("C27", "What a document asks to be recorded is what is recorded",
  "The metric sets and outputs of a model document record what the document says: the metrics listed, in the order listed, followed by those its filters add (all nodes and virtual nodes with the default attribute of their type, all parameters in each phase they have a value in, all edges), none of them twice; aggregated over time by the aggregators of the set, outermost last, with built-in functions or Python functions and their arguments; written to the file named, relative to the output folder, in the format asked for, or kept in memory and reduced by the functions asked for each dimension in the order asked for. Every value is that of the simulation. What cannot be recorded (unknown metrics, nodes, parameters, metric sets or functions, metrics without a name, empty sets, windows without a day, wide files of several sets) is refused with an error that names it.",
  ["inputs", "configurations"],
  "all documents with metric sets, filters, aggregators and outputs; checked with generated documents, runs and faults",
  "the tests have a few documents with one output of one set each, most of which only check that the run ends",
  ["pywr-schema/src/metric_sets/mod.rs", "pywr-schema/src/agg_funcs.rs", "pywr-schema/src/outputs/csv.rs", "pywr-schema/src/outputs/hdf.rs", "pywr-schema/src/outputs/memory.rs", "pywr-schema/src/metric.rs", "pywr-schema/src/network.rs", "pywr-schema/src/parameters/hydropower.rs", C+"recorders/csv.rs", C+"recorders/memory.rs", C+"recorders/hdf.rs"],
  [("filters", "MetricSetFilters::create_metrics"), ("aggregators", "MetricAggregator::load, AggFuncF64"), ("outputs", "Output::add_to_model of CsvOutput, Hdf5Output, MemoryOutput"), ("names and attributes of metrics", "Metric::load_as_output")],
  "property-based testing against a reference: generated documents of outputs, with the files and results compared with those computed from a probe of every value",
  "known finding: exceptions of Python functions that aggregate over time panic; Parquet and other formats are not built")

prop("C28", "The Python module does what the library does",
  "Reading, writing, building and running a model (of one or several networks) with the Python module gives exactly what the same steps give in Rust: the same document, the same results of outputs by name, the same files, for every solver and setting, any number of times, with data and outputs in the folders named or the current one, and from text, from a file, with run_from_path or with the command of the package. The conversion of documents and metrics of version 1 gives the same schema and errors. Whatever the library refuses with an error raises an ordinary exception: a RuntimeError with the message of the library, whose cause is the exception of Python code that could not be loaded; a KeyError for outputs and networks that do not exist; solvers and settings that do not exist, or have values of the wrong type, are refused. Objects that are passed in are not changed.",
  ["inputs", "configurations", "histories"],
  "all documents, settings and sequences of runs; checked with generated documents, valid and spoilt, and jobs",
  "there are tests in Python of a handful of documents, which need a build with another solver",
  ["pywr-python/src/lib.rs", "pywr-python/pywr/__init__.py", "pywr-python/pywr/cli.py", "pywr-schema/src/model.rs", "pywr-schema/src/network.rs", "pywr-schema/src/metric.rs", "pywr-schema/src/error.rs", C+"models/simple.rs", C+"models/multi.rs", C+"network.rs", C+"solvers/highs/settings.rs", C+"solvers/ipm_simd/settings.rs"],
  [("module", "pymodule pywr"), ("models", "ModelSchema::build_py, Model::run_py, MultiNetworkModel::run_py, run_allowing_threads_py"), ("settings", "build_highs_settings_py, build_ipm_simd_settings_py"), ("results", "ModelResult, MultiNetworkModelResult, NetworkResult"), ("exceptions", "From<ModelSchemaBuildError> for PyErr, ModelRunError, MultiNetworkModelSchemaBuildError")],
  "differential property-based testing: generated documents and jobs given to the module in an embedded interpreter and to the library",
  "to_dataframe needs the Python package polars, which is not installed")

prop("C29", "The command line tool does what the library does",
  "Running a model (of one or several networks) with the command line tool writes the same files as the same steps of the library, for every solver and number of threads: with the data read from the folder named or else the one of the document, and relative outputs written to the folder named or else the current one. Converting a document of version 1, or every document in a folder (other files are left alone), writes what the library's conversion of the model (or only of the network) gives and reports each thing that has no equivalent; with stop-on-error nothing is written for a document with such a thing. The exported schema is that of the model format. Whatever fails, and arguments that do not exist or have no valid value, end with a message and an exit status other than 0, and success with 0; every command ends.",
  ["inputs", "configurations"],
  "all documents, valid and spoilt, and arguments; checked with generated ones",
  "the tool has no tests",
  ["pywr-cli/src/main.rs", "pywr-cli/src/tracing.rs", C+"test_utils.rs", "pywr-schema/src/model.rs", "pywr-schema/src/network.rs"],
  [("run", "run, run_multi"), ("conversion", "convert, v1_to_v2, handle_conversion_errors"), ("schema", "export_schema"), ("random models", "run_random, make_random_model_builder")],
  "differential property-based testing: generated documents and arguments given to the tool as a process and to the library",
  "HiGHS stands in for CLP, which cannot be built offline")

CLAIMED = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else {p["id"] for p in P}
NOT_YET = {}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
            technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=NOT_YET.get(p["id"], "no check built yet")))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
