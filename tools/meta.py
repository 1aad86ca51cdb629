"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py). Properties without a check module are left out."""

import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
F = "salabim/salabim.py"


def P(id, title, statement, over, text, why, mech, observe, technique, note):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, observe=observe, technique=technique, note=note,
    )


MODEL = "model-based stateful property testing (hypothesis): generated process scripts run on salabim and on an independent reference simulator, comparing complete state logs"
KERNEL_NOTE = "Searched, not proved: random generated models of bounded size (a handful of components, up to 120 operations). Trusts the reference simulator vt/refsim.py, that shares no code with salabim."

PROPS = [
    P("C01", "Events are executed in order of time, priority and insertion; clock is monotonic",
      "Components become current in non decreasing order of their scheduled time; at the same time in order of the given priority (lowest first), and at the same time and priority in the order of scheduling (first in, first out), except that urgent ones come in front of all others scheduled so far (so last in, first out among urgents). The clock equals the scheduled time of the component that becomes current and a run ends exactly at the requested time, after all events for that time and (by default) all priorities. peek() gives the time of the next event, and step() executes precisely that one; the action of an Event is executed exactly once, at its scheduled moment, unless cancelled.",
      ["schedules", "programs"], "all models with holds, activations, creations, with any mix of delays, absolute times, priorities and urgent flags, and any split in runs, in yieldless and yield mode",
      "tests use a few fixed models, that hardly have ties in time and priority, let alone combinations with rescheduling, urgent and reset_now",
      ["Environment.step", "Component._push", "Component._reschedule", "Component._remove", "Environment.run"], ["order of process resumptions", "env.now()", "scheduled_time()", "scheduled_priority()"],
      MODEL, KERNEL_NOTE),
    P("C02", "Process control calls give the documented status, remaining time and resumption",
      "After any sequence of activate, hold, passivate, interrupt, resume, cancel, standby and set remaining duration calls, on a component itself or on another one, each component has the documented status, scheduled time, remaining duration and interrupt level, and its process continues exactly when (and where) the documentation says so. In particular a component never has more than one pending event, a resume after an interrupt (possibly nested) continues with just the remaining duration, and a cancelled or ended process never runs again unless activated anew.",
      ["programs", "schedules"], "all sequences of process control calls on a set of components, by components or by main, in yieldless and yield mode",
      "the number of sequences of calls is unbounded; tests check a few hand written ones",
      ["Component.activate", "Component.hold", "Component.passivate", "Component.interrupt", "Component.resume", "Component.cancel", "Component.standby", "Component.remaining_duration", "Component._remove"],
      ["status()", "remaining_duration()", "scheduled_time()", "interrupt_level()", "resumption of the process", "status durations"], MODEL, KERNEL_NOTE),
    P("C03", "Standby components run after each event, in order of going standby",
      "Each component that is standby becomes current exactly once after every event (process step of a component that is not marked skip_standby), in the order in which they went standby, at that same time, until it leaves the standby status. Components marked skip_standby do not trigger standby components, but never cause one to be lost.",
      ["programs", "schedules"], "all models with standby components, activations, cancellations and skip_standby flags",
      "interleavings of several standby components with events, cancels and skip_standby are unbounded; tests hardly use standby",
      ["Environment.step", "Component.standby", "Component._remove", "Component.skip_standby"], ["order of process resumptions", "status()"], MODEL, KERNEL_NOTE),
    P("C04", "A queue behaves as a priority ordered list without duplicates",
      "After any sequence of queue operations, the queue holds exactly the components that entered and did not leave, each once, in the documented order (priority order, first in first out within a priority, or the explicitly chosen position), and all accessors (indexing, slicing, iteration, head, tail, successor, predecessor, index, count, membership, length, priorities, enter times) agree with that order. Set operations, copy, move, extend, clear and comparisons give what the corresponding ordered collections give, and an entry in a full queue or a double entry is refused without any effect.",
      ["histories", "inputs"], "all sequences of queue operations on several queues and components",
      "tests do a fixed sequence of operations per method; the interaction of positions, priorities, changes of priority, capacity and set operations is unbounded",
      ["Queue", "Component.enter", "Component.leave", "Component.priority", "Qmember.insert_in_front_of"], ["the contents of the queue", "priorities", "enter times", "results of operations"],
      "model-based property testing (hypothesis): operation sequences against a list model", "Searched, not proved: up to 40 operations on up to 3 queues of up to 8 components."),
    P("C05", "Queue statistics agree with the history of the queue",
      "The length, available quantity and length of stay statistics of a queue, the number of arrivals and departures and the arrival and departure rates are exactly those that follow from the moments at which components entered and left, also when monitors are reset or turned off and on, capacity changes, priorities change, or components move between queues.",
      ["histories"], "all histories of entries, departures, changes of capacity, monitoring and resets over time",
      "requires an oracle over the complete history; tests look at a handful of final numbers",
      ["Queue.length", "Queue.length_of_stay", "Component.leave", "Qmember.insert_in_front_of", "Queue.reset_monitors", "Queue.arrival_rate", "Queue.departure_rate"], ["length", "length_of_stay", "available_quantity", "number_of_arrivals", "number_of_departures", "arrival_rate()", "departure_rate()"],
      "model-based property testing (hypothesis): histories against an explicit history log", "Searched, not proved: generated histories of up to 40 steps."),
    P("C06", "Resource quantities are conserved",
      "At any time the claimed quantity of a (non anonymous) resource is the sum of what its claimers claim, never negative and never more than the capacity (unless the capacity was lowered afterwards), and the available quantity and occupancy follow from it. A component is in the claimers if and only if it claims a positive quantity, and all its claims are given back when its process ends or is cancelled. The recorded statistics agree with the history.",
      ["schedules", "histories"], "all models with requests (all or one of several resources, with quantities and priorities), releases, failures, cancellations and capacity changes",
      "a leak needs a specific combination of partial releases, cancels, failures and multiple resources",
      ["Component.request", "Component._tryrequest", "Component._release", "Component.release", "Resource.set_capacity", "Environment._terminate", "Component.cancel"], ["claimed_quantity()", "available_quantity()", "occupancy()", "claimers()", "claimed_resources()", "statistics"], MODEL + "; conservation invariants at every step", KERNEL_NOTE),
    P("C07", "Resource requests are honored in order and no request is left waiting needlessly",
      "A request is honored at the very moment that all (or, with oneof, at least one) of the requested quantities are available and it is its turn: requesters are served in order of request priority, first in first out within a priority, smaller requests behind may overtake, unless the resource honors only the first or only the highest priority requesters. An all-request claims everything at once or nothing, a oneof-request claims exactly one resource (the first possible), and an honored, failed or cancelled request leaves no trace in any requesters queue.",
      ["schedules", "programs"], "all models with contending requests for several resources in all variants, releases, capacity changes, failures and cancellations",
      "lost wake ups only show for particular interleavings of requests with different quantities and priorities",
      ["Component._tryrequest", "Component.honor_all", "Component.honor_any", "Resource._tryrequest", "Resource.set_capacity", "Component._check_fail"], ["requesters()", "claimers()", "moment of resumption", "status()"], MODEL + "; no-lost-wake-up invariant at every step", KERNEL_NOTE),
    P("C08", "A preemptive resource bumps just the claimers it may and needs to bump",
      "A request from a preemptive resource takes the place of claimers with a worse (higher) priority only, starting with the worst, only if that makes the request possible, and no more than required; each bumped component loses its claim, is reactivated at once and sees that it is bumped. What becomes available and is not used is offered to the waiting requesters.",
      ["schedules", "programs"], "all models with components with different priorities and quantities contending for preemptive resources",
      "tests have one or two scenarios with equal quantities",
      ["Component.request", "Component._release", "Component.isbumped", "Component._tryrequest"], ["claimers()", "requesters()", "isbumped()", "status()", "claimed_quantity()"], MODEL + "; conservation and no-lost-wake-up invariants", KERNEL_NOTE),
    P("C09", "Anonymous resources keep their level within bounds and never block needlessly",
      "The level of an anonymous resource changes exactly with the honored gets (requests) and puts and with explicit releases, is always between 0 and the capacity (if the capacity is constant), and each waiting get or put is honored at the moment that the level (or room) allows it, in order of request priority. Nobody claims an anonymous resource.",
      ["schedules", "histories"], "all models with producers and consumers of anonymous resources",
      "chains of a put enabling a get enabling another put depend on the schedule",
      ["Component.get", "Component.put", "Component._tryrequest", "Resource._tryrequest", "Resource.release"], ["claimed_quantity()", "available_quantity()", "requesters()", "moment of resumption"], MODEL + "; bounds and no-lost-wake-up invariants", KERNEL_NOTE),
    P("C10", "Stores hand over each item exactly once and never keep a match waiting",
      "An item put in a store goes to at most one requester: the first (request priority, first in first out) whose filter accepts it, otherwise it stays in the store; a from_store takes the first (or best according to key) accepted item of the given stores. A store never exceeds its capacity, no requester waits while an acceptable item is present and no item waits to be stored while there is room; items are neither lost nor duplicated, also if requests fail, are cancelled, capacity or filters change.",
      ["schedules", "histories"], "all models with several producers, consumers, stores, filters, keys, priorities and time limits",
      "depends on chains of hand overs (a departure lets an item in, that satisfies another requester, ...)",
      ["Component.from_store", "Component.to_store", "Qmember.insert_in_front_of", "Component.leave", "Store.rescan", "Store.set_capacity", "Component.filter"], ["contents of stores", "requester queues", "from_store_item()", "from_store_store()", "moment of resumption"], MODEL + "; no-lost-match invariants", KERNEL_NOTE),
    P("C11", "Waits for states are honored exactly when the condition becomes true",
      "A component that waits for states is resumed at the moment that a set, reset or trigger makes its condition (any or all of the values, expressions, functions, or a general condition) true, and stays waiting otherwise; a trigger releases at most the given number of components, in order of priority and arrival. An honored, failed or cancelled wait leaves no trace in the waiters of any state.",
      ["schedules", "programs"], "all models with waits on several states with all kinds of conditions and all orders of changes",
      "needs all combinations of conditions on several states with order of changes",
      ["Component.wait", "Component.wait_for", "Component._trywait", "State.set", "State.reset", "State.trigger", "State._trywait"], ["waiters()", "status()", "moment of resumption", "state values"], MODEL + "; no-missed-condition invariant", KERNEL_NOTE),
    P("C12", "Time limits of requests, waits and store operations are respected",
      "A request, wait or store operation with fail_at or fail_delay resumes at the latest at that time: if it was not honored before then, failed() is True, nothing is claimed or moved, and it is removed from all queues; if it was honored, failed() is False and the time limit has no effect anymore. The same holds (failed() is True) if it is ended by another component (activate, passivate, hold, ...).",
      ["schedules"], "all models with mixed requests, waits and store operations with time limits, racing with releases, state changes and disturbances at the same or different times",
      "the interesting cases are races between the time limit and honoring at the same time with different priorities",
      ["Component._check_fail", "Component.request", "Component.wait", "Component.from_store", "Component.to_store", "Environment.step"], ["failed()", "moment of resumption", "status()", "queues"], MODEL, KERNEL_NOTE),
    P("C13", "Monitor statistics are the (weighted) statistics of the tallied values",
      "For every sequence of tallied values (with or without weights), the number of entries, weight, mean, standard deviation, minimum, maximum, median, percentiles and counts reported by a monitor, with or without zeroes, are those of the plain (weighted) data, and the raw data can be retrieved unchanged.",
      ["inputs", "histories"], "all sequences of values of all types and weights",
      "numeric edge cases (zeroes, equal values, weights 0, one value, none) and caching depend on the input",
      ["Monitor.tally", "Monitor.mean", "Monitor.std", "Monitor.percentile", "Monitor.minimum", "Monitor.maximum", "Monitor._xweight"], ["Monitor statistics", "x()", "xweight()", "xt()"],
      "property testing (hypothesis) against textbook formulas over the tallied data", "Searched, not proved. Floating point results compared with a relative tolerance of 1e-9."),
    P("C14", "Level monitors weigh values with their exact duration, also when switched off",
      "The statistics of a level monitor are the time weighted statistics of the value it had over the period since start or the last reset, up to now, where periods in which monitoring was off do not count; the value at any moment in the past and the (value, duration) history can be retrieved and agree with what was tallied.",
      ["histories"], "all histories of tallies, passing time, turning monitoring off and on, resets and reset_now",
      "the interplay of off/on, reset, same time tallies and current value is unbounded",
      ["Monitor.tally", "Monitor.monitor", "Monitor.reset", "Monitor._xweight", "Monitor.xduration", "Monitor.get", "Monitor.value_duration"], ["Monitor statistics", "xduration()", "xt()", "m(t)"],
      "model-based property testing (hypothesis): histories against a step function model", "Searched, not proved."),
    P("C15", "stats_only monitors give the same statistics as full monitors",
      "A monitor that keeps statistics only reports the same number, weight or duration, mean, standard deviation, minimum and maximum (with and without zeroes) as a full monitor that is given the same history.",
      ["histories"], "all histories, for level and non level monitors",
      "differential over all histories",
      ["Monitor.tally", "Monitor.reset", "Monitor.mean", "Monitor.std", "Monitor.minimum", "Monitor.maximum"], ["Monitor statistics"],
      "differential property testing (hypothesis): full versus stats_only monitor", "Searched, not proved. Standard deviation compared with a tolerance, as it is calculated incrementally."),
    P("C16", "Merged, sliced, mapped, multiplied and frozen monitors follow from their sources",
      "Merging, slicing (periods or modulo), mapping, multiplying (value or time), adding, relabelling and freezing monitors yields monitors whose data is the corresponding combination of the data of the sources, covering exactly the period in which the sources were on; the sources are not changed.",
      ["inputs", "histories"], "all histories of the source monitors and all parameters",
      "needs a step function oracle for all combinations of off periods and slice bounds",
      ["Monitor.merge", "Monitor.slice", "Monitor.x_map", "Monitor.multiply", "Monitor.t_multiply", "Monitor.freeze", "Monitor.__add__", "Monitor.__getitem__"], ["data and statistics of the derived monitor"],
      "model-based property testing (hypothesis): step function algebra", "Searched, not proved."),
    P("C17", "Histograms, value tables and dataframes add up to the monitor's data",
      "The bins of a histogram partition the data, so that counts or durations add up to the total and the cumulative percentages to 100; the values of a monitor are the distinct tallied values with their exact number, weight or duration; dataframes contain exactly the tallied data, at the right times or resampled at the right moments.",
      ["inputs"], "all data and all bin specifications",
      "edge values on bin boundaries, outside all bins, negative, zero and infinite",
      ["Monitor.bin_number_of_entries", "Monitor.bin_duration", "Monitor.bin_weight", "Monitor.values", "Monitor.value_number_of_entries", "Monitor.as_dataframe", "Monitor.as_resampled_dataframe", "Monitor.print_histogram"], ["bin counts", "print_histogram output", "values()", "dataframes"],
      "property testing (hypothesis) against a direct recount of the data", "Searched, not proved."),
    P("C18", "Distributions respect support and mean, and compose exactly",
      "Every sample of a distribution lies in its support and the reported mean and the frequencies over many samples correspond to the specification; time units scale samples and means with the same factor; expressions, maps, bounds, nested distributions and string specifications sample exactly as the composition of their parts with the same random stream.",
      ["inputs"], "all parameters, time units, compositions and seeds",
      "parameters and compositions are unbounded",
      ["_Distribution", "_Expression", "Map", "Bounded", "Pdf", "CumPdf", "Cdf", "Erlang", "Constant", "External", "Distribution"], ["sample()", "mean()"],
      "property testing (hypothesis): differential against the random stream, support and statistical (deterministic seed, wide margin) oracles", "Searched, not proved. Statistical tests use 6 sigma or wider bounds with a fixed seed."),
    P("C19", "Runs are reproducible and environments are independent",
      "A model run twice with the same seed gives exactly the same results, whatever ran before in the same process; two or more environments that exist side by side do not influence each other, in time, names, queues, statistics or default environment.",
      ["programs", "schedules"], "all generated models, and all interleavings of the runs of several environments",
      "metamorphic relation over all models",
      ["Environment.__init__", "random_seed", "Environment.run", "reset"], ["complete event log", "statistics", "trace"],
      "metamorphic property testing (hypothesis) on generated models: run twice, interleave with another environment", KERNEL_NOTE),
    P("C20", "Tracing, monitoring, querying and blind videos do not influence a simulation",
      "Turning tracing (or suppressing it), monitors, stats_only, or trace line numbers on or off, querying or printing state and statistics, and making a (blind) video or snapshots with animation objects, never changes what components do or when, nor the statistics themselves.",
      ["programs", "configurations"], "all generated models and all configurations of tracing and monitoring",
      "metamorphic relation over all models and configurations",
      ["Environment.trace", "Environment.print_trace", "Environment.suppress_trace", "Queue.monitor", "Resource.monitor", "State.monitor", "print_info", "print_statistics", "_BlindVideoMaker", "Environment.snapshot"], ["complete event log", "statistics"],
      "metamorphic property testing (hypothesis) on generated models: same model with another configuration", KERNEL_NOTE),
    P("C21", "Yieldless and yield models behave the same",
      "A model gives exactly the same sequence of events, statistics and trace (apart from line numbers and internal names) in yieldless mode and in yield mode.",
      ["programs"], "all generated models with all process interaction methods",
      "differential over all models",
      ["Environment.step", "Environment.run", "Component._push", "Component.hold", "Component.request", "Component.from_store"], ["complete event log", "trace", "statistics"],
      "differential property testing (hypothesis): yieldless versus yield", KERNEL_NOTE),
    P("C22", "Resetting now only shifts times",
      "After resetting now, all reported times (now, scheduled, creation, enter and mode times, monitor times at the moment) are shifted by the same amount, whereas events, durations, remaining durations and all statistics are the same as without the reset.",
      ["histories", "programs"], "all generated models, with resets at any time and to any value",
      "metamorphic relation over all models",
      ["Environment.reset_now", "Component.scheduled_time", "Component.creation_time", "Component.enter_time", "Component.mode_time", "Monitor.xt", "ComponentGenerator"], ["complete event log", "statistics", "times"],
      "metamorphic property testing (hypothesis): model with versus without reset_now", KERNEL_NOTE),
    P("C23", "Time unit and date conversions are exact inverses and consistent",
      "Converting durations between any two time units is linear, transitive and invertible; conversion between simulation time and calendar date/time (also in strings and after resetting now) round trips; and a duration or moment specified as a number, in another unit, as timedelta, as datetime or as string leads to the same scheduled time.",
      ["inputs", "configurations"], "all time units, base dates, durations and formats",
      "numeric and formatting edge cases over all units",
      ["Environment.to_time_unit", "Environment.years", "Environment.days", "Environment.datetime_to_t", "Environment.t_to_datetime", "Environment.timedelta_to_duration", "Environment.spec_to_time", "Environment.spec_to_duration", "Environment.datetime0"], ["conversion results", "scheduled times"],
      "property testing (hypothesis): round trips and consistency with the datetime module", "Searched, not proved. Datetimes have a resolution of 1 microsecond."),
    P("C24", "Component generators create the specified components at the specified times",
      "A component generator creates components at the moments that follow from the inter arrival times, start, end, duration (counted from the start), number and force parameters, or at the given moments, or spread over a given period, of the specified (or sampled) class and with the specified parameters, and calls its end action once when it has ended.",
      ["inputs", "configurations"], "all combinations of parameters",
      "combinations of at, till, duration, number, force_at, force_till, moments, equidistant and spread are many",
      ["ComponentGenerator"], ["creation times, number and class of the created components", "calls of at_end"],
      "property testing (hypothesis) against a direct calculation of the arrival moments", "Searched, not proved."),
    P("C25", "Item files are read back item by item, exactly as written",
      "Reading items from an item file or string gives exactly the fields that were written (items separated by blanks, tabs or line ends, or in single or double quotes, with comments after # and texts in curly braces skipped, as documented), in order, converted to the requested type (int, float, bool or str), and signals the end of file exactly at the end.",
      ["inputs"], "all contents",
      "tokenising edge cases",
      ["ItemFile"], ["read_item(), read_item_int(), read_item_float(), read_item_bool(), EOFError"],
      "property testing (hypothesis): write/read round trip", "Searched, not proved."),
    P("C26", "Trajectories move continuously along their path with the specified speed",
      "The position on a trajectory starts at the first point, ends at the last, is always on the path, and the travelled length at any time is the one given by the speed, acceleration and deceleration; duration and total length are consistent with that, and merged trajectories are the concatenation of their parts.",
      ["inputs"], "all polygons, circles, standstills, speeds, accelerations, splines and merges",
      "geometry and kinematics over continuous parameters",
      ["TrajectoryPolygon", "TrajectoryCircle", "TrajectoryStandstill", "TrajectoryMerged", "_Movement"], ["x(t), y(t), angle(t), length(t), duration(), t0(), t1()"],
      "property testing (hypothesis) against an independent kinematic and geometric calculation", "Searched, not proved. Tolerance 1e-6."),
    P("C27", "Interpolation, search, spacing and colour helpers agree with their definition",
      "Linear interpolation (of scalars, tuples and colours, between two values or over tables) gives the exact boundary values at and outside the ends of the range and the linearly interpolated value inside it; searchsorted, arange, linspace and regular_polygon give what their mathematical definition says, with or without numpy; and all forms of specifying a colour lead to the same rgba value.",
      ["inputs"], "all arguments",
      "boundary and degenerate arguments",
      ["interpolate", "interp", "searchsorted", "linspace", "arange", "regular_polygon", "Environment.colorspec_to_tuple", "Environment.colorinterpolate", "Environment.color_interp"], ["results"],
      "property testing (hypothesis) against exact rational arithmetic", "Searched, not proved."),
    P("C28", "Names and sequence numbers are unique and gap free",
      "Objects of each kind that are created with a name ending with a period or comma (or without a name) get consecutive sequence numbers per kind, base name and environment, starting at 0 respectively 1, so names are unique per base name; other names are used as is. Changing the name of an object changes the names that are derived from it, but not its base name and sequence number. A registry contains each registered object exactly once, in order of registration, until deregistered; a double registration is refused.",
      ["histories"], "all sequences of creations of components, queues, resources, states, stores, monitors and environments",
      "depends on the history of creations",
      ["_set_name", "Component.name", "Queue.name", "Monitor.name", "Component.register"], ["name()", "base_name()", "sequence_number()"],
      "model-based property testing (hypothesis): creation sequences against a counter model", "Searched, not proved."),
    P("C29", "Period monitors partition the data of the original monitor",
      "A period monitor divides the data of a (level or non level) monitor over the repeating periods: the data per period is exactly the data of the original in those periods, so numbers and durations add up to the total.",
      ["histories"], "all histories and all period specifications",
      "moments on the period boundaries",
      ["PeriodMonitor"], ["statistics per period"],
      "model-based property testing (hypothesis): recomputation per period", "Searched, not proved."),
    P("C30", "Captured output is exactly what was printed; scopes restore settings",
      "Everything printed inside a capture (or redirect) scope, and nothing else, is captured (or written to the file or file handle) verbatim, and printed as well if and only if requested, also with repeated scopes and a redirect inside a capture or the other way around; and scopes that temporarily change a setting (trace suppression, cap_now, over3d, captured output) restore it afterwards, also after an exception.",
      ["histories", "fault_sequences"], "all sequences of prints, scopes and exceptions",
      "sequences of scopes with exceptions",
      ["capture_stdout", "redirect_stdout", "Environment.suppress_trace", "cap_now", "over3d", "captured_stdout_as_str"], ["captured text", "file contents", "settings after the scope"],
      "model-based property testing (hypothesis): scope sequences with injected exceptions", "Searched, not proved."),
    P("C31", "A frame shows the animation objects as specified for that moment",
      "Each frame of a blind animation (video) and each snapshot shows every animation object (rectangle, polygon, line, points, circle, text, image, animated image and the classic Animate) that is present and visible at that time, and no other, at the position, size, angle, anchor, offset, color, alpha, line width and layer order that its attributes have at that time - given as a scalar, changed by an assignment, as a function or method of time - in screen as well as user coordinates; objects disappear upon remove, keep=False or the end of the parent, and come back with show(); there's exactly one frame per speed / fps of simulated time.",
      ["inputs", "histories"], "all sets of animation objects with any combination of static and time dependent attributes, coordinate systems, and sequences of changes, removes and shows",
      "no test looks at a picture; the combinations of attributes, coordinate systems, caching of images and moments are unbounded",
      ["AnimateRectangle", "AnimatePolygon", "AnimateLine", "AnimatePoints", "AnimateCircle", "AnimateText", "AnimateImage", "Animate", "_Animate_t_x_y_Base", "AnimateClassic", "Environment._capture_image", "Environment.snapshot", "_BlindVideoMaker"], ["frames of the video", "snapshots", "is_removed()", "attributes of Animate at t"],
      "property-based testing (hypothesis): frames of generated animations compared to an independent rasteriser, and metamorphic relations (dynamic versus static attributes, user versus screen coordinates)", "Searched, not proved. Only blind animation (video and snapshots), as there's no display here; no 3D. Pixels close to an edge are not judged."),
    P("C32", "Animated queues and monitors show the contents at each moment",
      "At each frame and snapshot, an animated queue shows precisely the animation objects of the components that are in the queue at that moment, in queue order (or reversed) and up to max_length, next to each other with their own dimensions in the given direction or along the trajectory; an animated monitor shows the values tallied so far at the right time and value positions, clipped to and scrolling in its panel, with labels and the line at now; both follow visible, keep, parent, remove and show, and leave nothing behind after removal.",
      ["histories", "inputs"], "all histories of queue operations and tallies, with any combination of parameters",
      "tests do not look at animations; histories of queue changes in between frames are unbounded",
      ["AnimateQueue.update", "AnimateMonitor.update", "AnimateMonitor.line", "Component.animation_objects", "Queue.animate", "Monitor.animate"], ["frames of the video", "snapshots", "is_removed()"],
      "model-based property testing (hypothesis): frames of generated histories compared to an independent rasteriser", "Searched, not proved. Only blind animation; no 3D; titles and label texts are not judged."),
    P("C33", "Invalid calls are refused and leave the model unaffected",
      "Calls that violate a documented precondition raise an exception, and have no effect on the model whatsoever: process interaction on a data component or main, resume of a component that is not interrupted, interrupt of one that is passive, holding till the past, entering a queue twice or entering a full one, leaving (or asking the priority, successor, enter time in) a queue the component is not in, out of range indices, releasing what is not claimed, negative requests, duplicate or no stores, contradictory parameters (fail_at and fail_delay, duration and till, at for a data component), unknown processes, queries and tallies that are not supported for the kind of monitor (level, non level, stats_only, frozen, merged), and definitions of distributions, component generators, trajectories and time units with contradictory or out of range parameters.",
      ["histories", "inputs"], "all invalid calls, at any moment in any model, and on any monitor",
      "tests do a few calls with pytest.raises, hardly ever in a running model, and do not look at the remainder of the model after that",
      ["Component._checkisnotdata", "Component._checkisnotmain", "Component._checkinqueue", "Component._checknotinqueue", "Component.interrupt", "Component.resume", "Component.hold", "Component.request", "Component.from_store", "Component.to_store", "Component.release", "Queue.insert", "Queue.__getitem__", "Queue.pop", "Monitor._block_stats_only", "Monitor.tally"], ["exceptions", "all histories and statistics of the model"],
      "metamorphic property testing (hypothesis): generated models with and without intruding invalid calls must behave the same", "Searched, not proved. Calls with several resources of which only one is invalid are not atomic, and not claimed."),
    P("C34", "Trace and reports describe the actual state and history of the model",
      "The trace is a faithful and sufficient record: from the trace lines alone, one can tell at any moment which component is current and what the time is, for which time each component is scheduled, which processes are alive, who claims what quantity of which resource, the value of all states, the contents of the stores and which requests and waits failed. suppress_trace and switching the trace leave out precisely the lines of the suppressed components or periods. print_info and print_statistics of components, queues, stores, resources, states and the environment show the actual values, and reporting does not influence the model.",
      ["histories", "inputs"], "all models, at any moment",
      "tests do not look at the trace; only a few fixed outputs are compared",
      ["Environment.print_trace", "Component.print_info", "Queue.print_info", "Resource.print_info", "State.print_info", "Environment.print_info", "Resource.print_statistics", "Queue.print_statistics", "State.print_statistics", "Component.suppress_trace"], ["trace output", "print_info()", "print_statistics()"],
      "property testing (hypothesis): the state replayed from the trace, and the parsed reports, are compared with the public accessors in generated models", "Searched, not proved. The entry of an item by a waiting to_store (and what that causes) is not traced by salabim."),
]


def exists(p):
    return (VERIF / "vt" / "props" / f"{p['id'].lower()}.py").exists()


def main():
    lines = []
    checks = []
    for p in PROPS:
        if not exists(p):
            print("no module for", p["id"])
            continue
        assert len(p["title"]) <= 80, p["id"]
        lines.append(
            json.dumps(
                dict(
                    id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                    anchors=dict(files=[F], mechanism=[dict(name=m, where=f"{F}: {m}") for m in p["mech"]], state=[], observe_at=p["observe"], hook_needed=None),
                )
            )
        )
        checks.append(
            dict(
                property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} quick", thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} thorough",
                technique=p["technique"], level="exploration", level_note=p["note"],
            )
        )
    (VERIF / "properties.jsonl").write_text("\n".join(lines) + "\n")
    manifest = dict(
        version=1, setup_cmd="true", checks=checks, not_applicable=[],
        notes="No hooks: the checks import /repo/salabim directly and use the public API only. Nothing has to be built.",
    )
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


main()
