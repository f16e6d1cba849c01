"""The properties, in one place: writes properties.jsonl and MANIFEST.json (a property is claimed when its check module exists)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = ["salabim/salabim.py"]
P = []


def prop(id, title, statement, over, text, why, mechanism, state=(), observe=(), note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mechanism=mechanism, state=state, observe=observe, note=note, technique=technique))


KERNEL = "explicit-state model checking of a reference kernel; every explored transition replayed on the real code"
OPSEQ = "exhaustive bounded operation sequences on the real code against a reference model"
INPUT = "exhaustive bounded input/configuration enumeration on the real code against a reference model"

prop(
    "C01",
    "Events are executed in time, priority, then scheduling order; the clock is exact",
    "Whatever is scheduled by whichever process, control always passes to the pending event with the smallest (time, priority), and among equals in the order of scheduling (urgent ones before all non-urgent ones, last urgent first). "
    "now() never decreases, is exactly the scheduled time of the process that has control, and every scheduled event that is not cancelled or rescheduled is executed exactly once. "
    "Scheduling in the past is refused (or capped to now if cap_now is in force) and leaves no trace of the refused event.",
    ["schedules", "histories"],
    "all interleavings of activate/hold/passivate/cancel/standby by main and up to 4 processes with times, priorities, urgent and cap_now from small domains",
    "The tests run a few fixed scenarios; ordering errors need particular ties between times, priorities and urgent flags.",
    [{"name": "Environment.step, Component._push (heap of (time, priority, sequence))", "where": "salabim/salabim.py: Environment.step, Component._push, Component._remove"}],
    [{"name": "event list", "meaning": "heap of (t, priority, seq, component)", "where": "Environment._event_list"}],
    ["now()", "scheduled_time()", "order of control"],
    technique=KERNEL,
)
prop(
    "C02",
    "Component life cycle: every operation leads from every status to the right one",
    "For every component and every moment, status(), scheduled_time(), scheduled_priority(), remaining_duration(), failed(), mode(), mode_time() and running_process() are exactly what the history of activate, hold, passivate, interrupt, resume, standby, cancel, request, wait and end-of-process implies. "
    "An operation a status does not allow is refused with an exception, ending or cancelling a process makes the component a data component that holds no resources, and a (re)activated component starts the right process from its beginning, exactly when asked.",
    ["histories", "schedules"],
    "all histories of life cycle operations by main and by up to 3 processes on themselves and on each other, up to a depth",
    "There are 8 statuses, about 12 operations with many arguments and two callers (self/other); the tests touch a few of the combinations, each once.",
    [{"name": "Component.activate/hold/passivate/cancel/standby/interrupt/resume", "where": "salabim/salabim.py: class Component"}],
    [{"name": "status", "meaning": "status monitor of a component", "where": "Component.status"}],
    ["status()", "scheduled_time()", "remaining_duration()", "running_process()"],
    technique=KERNEL,
)
prop(
    "C03",
    "Interrupt and resume preserve the remaining work; levels nest",
    "A scheduled component that is interrupted keeps exactly its remaining duration, however often and in whatever nesting it is interrupted, and after as many resumes (or one resume(all=True)) it is scheduled again for now plus that remaining duration. "
    "While interrupted it never gets control, its interrupt_level() is the number of outstanding interrupts and the remaining duration does not run down.",
    ["histories", "schedules"],
    "all histories of hold, interrupt, resume, run, activate, passivate and remaining_duration changes, up to a depth",
    "A wrong remaining duration needs a particular nesting of interrupts at particular instants; the tests have one interrupt scenario.",
    [{"name": "Component.interrupt / resume / remaining_duration", "where": "salabim/salabim.py: class Component"}],
    [{"name": "interrupt level, remaining duration", "meaning": "saved at interrupt", "where": "Component._interrupt_level, _remaining_duration"}],
    ["interrupt_level()", "remaining_duration()", "scheduled_time()"],
    technique=KERNEL,
)
prop(
    "C04",
    "Standby components run after every event, in order, and are never lost",
    "A component in standby gets control exactly once after each event that is executed (unless the component executing it is marked skip_standby), in the order in which they became standby. "
    "It stays so until it does something else or is rescheduled or cancelled by another process; no standby component is skipped, lost or run twice.",
    ["schedules", "histories"],
    "all interleavings of up to 3 processes with standby, other operations and skip_standby markings",
    "Only specific interleavings of standby with events, cancels and skip_standby show an error; the tests do not cover standby combinations.",
    [{"name": "standby lists", "where": "salabim/salabim.py: Environment.step, Component.standby, Component._remove"}],
    [{"name": "standby list and pending standby list", "meaning": "components to run after the next event", "where": "Environment._standbylist, _pendingstandbylist"}],
    ["order of control"],
    technique=KERNEL,
)
prop(
    "C05",
    "run() stops exactly where asked; reset_now shifts all points in time alike",
    "run(duration), run(till) and run() return control to main at exactly the requested time (or when no events are left), after all events of that time that precede main in priority order and before all later ones, and a following run continues as if there had been no stop. "
    "After reset_now all reported points in time (now, scheduled, creation, mode and queue enter times) are shifted by the same amount while durations, scheduling order and process behaviour remain the same.",
    ["histories", "inputs"],
    "all splits of a run into stops by till/duration/priority/urgent at all instants, with reset_now at every stop",
    "Errors need a stop that coincides with an event, or a reset_now between scheduling and execution; the tests mostly use a single run.",
    [{"name": "Environment.run, Environment.reset_now, _offset", "where": "salabim/salabim.py: class Environment"}],
    [{"name": "offset", "meaning": "difference between internal and reported time", "where": "Environment._offset"}],
    ["now()", "scheduled_time()", "monitor times"],
    technique=KERNEL,
)
prop(
    "C06",
    "A queue is an ordered set, sorted on priority and FIFO among equals",
    "After any sequence of queue operations (from queue, component or list style methods) a queue contains exactly the components that were entered and not removed, each once, in exactly the documented order, and component and queue agree about membership, priority and enter time. "
    "An operation that would enter a component twice, remove an absent one, exceed the capacity or break the sort order is refused and changes nothing.",
    ["histories"],
    "all sequences of queue operations on up to 4 components and 2 queues with priorities from a small domain",
    "The linked list can be corrupted by a particular operation at a particular position; the tests do a few fixed sequences.",
    [{"name": "doubly linked list with sentinels", "where": "salabim/salabim.py: class Queue, class Qmember, Component.enter*/leave"}],
    [{"name": "Qmember chain", "meaning": "predecessor/successor links", "where": "Queue._head, Queue._tail, Component._qmembers"}],
    ["iteration", "len()", "index()", "priority()", "enter_time()"],
    technique=OPSEQ,
)
prop(
    "C07",
    "Queue reads, iteration and set operations agree with the contents",
    "For every queue contents, len, in, index, indexing, slicing, head/tail, predecessor/successor, count, forward and reversed iteration, copy, move, union, intersection, difference, symmetric difference, operators and comparisons give what the same operation on the ordered list of members gives. "
    "An iteration that is going on while the queue is altered visits no component that has left, visits members that stay exactly once, and terminates.",
    ["inputs", "histories"],
    "all contents of up to 2-3 queues over up to 4 components; all interleavings of an iteration with queue alterations",
    "The tests compare a few fixed queues; iteration under alteration depends on where the alteration happens relative to the iterator.",
    [{"name": "Queue.__iter__, __getitem__, union, ...", "where": "salabim/salabim.py: class Queue"}],
    [],
    ["results of the queue's reading methods"],
    technique=OPSEQ,
)
prop(
    "C08",
    "Queue statistics and capacity reflect exactly what entered and left, and when",
    "For any history of entering and leaving, the length monitor has exactly the length over time, length_of_stay exactly the stay of every component that left, number_of_arrivals/number_of_departures and their rates the right counts, and available quantity and capacity remain in step with the length. "
    "Switching monitors off and on, resetting them and reset_now lose or invent nothing outside the period concerned.",
    ["histories"],
    "all sequences of queue operations interleaved with time steps, capacity changes and monitor switches",
    "Statistics are accumulated at each of about 20 queue operations; an error shows only after the one sequence that reaches it.",
    [{"name": "length / length_of_stay / available_quantity tallies", "where": "salabim/salabim.py: class Queue, Qmember.insert_in_front_of, Component.leave"}],
    [],
    ["length", "length_of_stay", "arrival_rate()", "departure_rate()", "available_quantity"],
    technique=OPSEQ,
)
prop(
    "C09",
    "Resource accounting: claimed + available = capacity, and claims add up, always",
    "At every instant the claimed quantity of a (non anonymous) resource is the sum of what its claimers hold, component and resource agree about every claim and request, and available quantity and occupancy are capacity minus claimed and claimed / capacity. "
    "Never is more than the capacity handed out, and releasing (partly, fully, by termination, by cancel or by the resource itself) returns exactly what was held; the monitors record exactly this over time.",
    ["histories", "schedules"],
    "all interleavings of request/release/set_capacity/cancel/interrupt/timeouts of up to 3 components on up to 2 resources",
    "Leaks and double releases need a particular order of request, partial release, capacity change and termination.",
    [{"name": "Component._tryrequest / _release / Resource.set_capacity", "where": "salabim/salabim.py: class Component, class Resource"}],
    [{"name": "claims", "meaning": "quantity per claimed resource", "where": "Component._claims, Resource._claimed_quantity"}],
    ["claimed_quantity()", "available_quantity()", "claimers()", "claimed_resources()"],
    technique=KERNEL,
)
prop(
    "C10",
    "Requests: all-or-nothing, in priority/FIFO order, without lost wakeups",
    "A request of several resources is honored as a whole or not at all (oneof: exactly one of them), never while another requester that could have been honored earlier in the same queue is passed over against its priority, and a requester that is honored leaves all queues at once. "
    "At no time is there a waiting request that could be honored (lost wakeup); with honor_only_first or honor_only_highest_priority nobody overtakes the head of the queue resp. the highest priority.",
    ["histories", "schedules"],
    "all interleavings of requests (several resources, oneof, priorities, quantities), releases, capacity changes and timeouts of up to 4 components",
    "Lost wakeups and overtaking only occur in particular orders of release and request by several components.",
    [{"name": "Component._tryrequest, Resource._tryrequest", "where": "salabim/salabim.py"}],
    [],
    ["status()", "requesters()", "claimers()"],
    technique=KERNEL,
)
prop(
    "C11",
    "Preemptive resources bump only lower priority claimers, and only when it helps",
    "A request on a preemptive resource takes it away from claimers with a strictly lower priority only (lowest priority, latest first), no more of them than necessary and only if that makes the request possible; otherwise nobody is bumped. "
    "A bumped component has lost exactly its claim of that resource, is activated at once, can see that it lost it, and the accounting of the resource stays exact.",
    ["histories", "schedules"],
    "all interleavings of requests with priorities and quantities on preemptive resources by up to 4 components",
    "Needs several claimers with particular priorities and quantities; the tests have one preemption scenario.",
    [{"name": "Component.request preemption loop, _release(bumped_by)", "where": "salabim/salabim.py: Component.request"}],
    [],
    ["claimers()", "isbumped()", "status()"],
    technique=KERNEL,
)
prop(
    "C12",
    "Anonymous resources behave as a bounded container",
    "The quantity of an anonymous resource is exactly the sum of all gets and puts that were honored plus releases, never below zero nor above its capacity. "
    "A get (put) waits exactly as long as there is not enough quantity (room), and every change of contents or capacity honors all requests in the queue that have become possible, in order, including those made possible by the ones just honored.",
    ["histories", "schedules"],
    "all interleavings of get/put/release/set_capacity by up to 4 components on up to 2 anonymous resources",
    "Chains of puts enabling gets enabling puts only occur in particular queue states.",
    [{"name": "Component._tryrequest with anonymous resources", "where": "salabim/salabim.py"}],
    [],
    ["available_quantity()", "requesters()", "status()"],
    technique=KERNEL,
)
prop(
    "C13",
    "State waits: woken exactly when the condition becomes true, and not otherwise",
    "A component waiting for states (a value, a set of values, an expression, a function, any or all of several states, or wait_for a condition) continues at the very instant its condition first holds at a set/reset/trigger, in priority/FIFO order, and never while it does not hold. "
    "trigger wakes at most max waiters and leaves the requested value; the state value over time and its waiters queue are exactly what the history implies.",
    ["histories", "schedules"],
    "all interleavings of waits (all kinds), sets, resets, triggers and timeouts of up to 4 components and 2 states",
    "Wakeups depend on the combination of kind of condition, order of waiters and order of state changes.",
    [{"name": "State._trywait, Component._trywait, State.trigger", "where": "salabim/salabim.py: class State, Component.wait/wait_for"}],
    [],
    ["get()", "waiters()", "status()"],
    technique=KERNEL,
)
prop(
    "C14",
    "Stores hand over every item exactly once, to the right requester",
    "Each item put in a store is at any time in the store or has been handed to exactly one from_store requester; the item handed over is the first (or key-smallest) that satisfies the requester's filter, and requesters are served in priority/FIFO order. "
    "A store never exceeds its capacity; waiting to_store requesters enter in order as soon as there is room, and no requester waits while a suitable item or room is available; a timed out or cancelled requester is withdrawn from all stores and gets nothing.",
    ["histories", "schedules"],
    "all interleavings of to_store/from_store (filters, keys, several stores, timeouts), direct enter/leave and capacity changes by up to 4 components",
    "Chains of hand-overs over several stores and withdrawal at timeouts need particular interleavings.",
    [{"name": "Component.from_store/to_store, Qmember.insert_in_front_of, Component.leave, Store.set_capacity/rescan", "where": "salabim/salabim.py"}],
    [],
    ["contents of the store", "from_store_item()", "requester queues"],
    technique=KERNEL,
)
prop(
    "C15",
    "A timed out, cancelled or superseded request or wait leaves no residue",
    "A request, wait, from_store or to_store whose fail_at/fail_delay expires lets the component continue at exactly that moment with failed() true, nothing claimed, and gone from every requesters/waiters queue; when honored before (or at) that moment it continues with failed() false and the timeout never fires. "
    "The same withdrawal happens if another process activates, holds, passivates, cancels or otherwise takes over the component, and whoever is next in line is served as if the withdrawn one had never asked.",
    ["histories", "schedules"],
    "all orders of timeout, release/set/item arrival at the same and different instants, and takeover by another process",
    "Races between timeout and honoring at the same instant need exact ties; tests have single examples.",
    [{"name": "Component._check_fail, fail_at handling", "where": "salabim/salabim.py: class Component"}],
    [],
    ["failed()", "requesters()", "waiters()", "claimed_quantity()"],
    technique=KERNEL,
)
prop(
    "C16",
    "Level monitors: duration-weighted statistics of exactly the recorded path",
    "For every sequence of tallies, time steps, on/off switches and resets, a level monitor's values and times (xt, tx, x, number of entries, duration) are exactly the recorded path, and mean, std, minimum, maximum, duration at values and at zero, value_number/duration and t-lookups equal the duration-weighted ones of that path up to now. "
    "ex0 variants leave out exactly the zero periods, periods in which monitoring was off count for nothing, and get(t)/call gives the value that was current at t.",
    ["histories", "inputs"],
    "all sequences of tally/advance/monitor on/off/reset up to a depth with values and time steps from small domains incl. zero length ones",
    "Statistics errors need zero-length periods, off periods or repeated values in a particular order.",
    [{"name": "Monitor (level=True)", "where": "salabim/salabim.py: class Monitor"}],
    [],
    ["mean()", "xt()", "duration()", "get()"],
    technique=OPSEQ,
)
prop(
    "C17",
    "Non-level monitors: weighted statistics of exactly the tallied values",
    "For every sequence of tallies with weights, non numeric values, on/off switches and resets, x, xweight, xt, tx, number_of_entries, number_of_entries_zero, weight, mean, std, minimum, maximum, value_number_of_entries and value_weight equal those of the list of tallied values; ex0 variants leave out exactly the zeros. "
    "Nothing tallied while off is counted, everything tallied while on is counted, and empty monitors give nan (mean etc.) or zero (counts).",
    ["histories", "inputs"],
    "all sequences of tallies, switches and resets up to a depth, over all monitor types",
    "Type specific storage (typed arrays), weights and off periods interact; the tests use a few fixed lists.",
    [{"name": "Monitor (level=False)", "where": "salabim/salabim.py: class Monitor"}],
    [],
    ["x()", "xweight()", "mean()", "std()", "minimum()", "maximum()"],
    technique=OPSEQ,
)
prop(
    "C18",
    "Percentiles, bin counts and histograms are consistent with the recorded values",
    "For any recorded values and weights, every percentile (each interpolation) equals the definition on the sorted weighted values, lies between minimum and maximum and is monotone in q. "
    "Bin counts, bin durations/weights, value counts, printed histograms and statistics add up to the totals, with every value in exactly one bin.",
    ["inputs"],
    "all multisets of up to 5 values/weights from a small domain, all q from a grid, all bin parameters from a grid",
    "Boundaries (ties, values on bin bounds, q at jumps) are many; the tests sample some.",
    [{"name": "Monitor.percentile, bin_number_of_entries, histogram_print", "where": "salabim/salabim.py: class Monitor"}],
    [],
    ["percentile()", "bin_*()", "histogram_print()"],
    technique=INPUT,
)
prop(
    "C19",
    "Derived monitors (slice, merge, x_map, multiply, freeze, copies) are exact",
    "A monitor derived from others by slicing, modulo slicing, merging, adding, multiplying, mapping, resampling or freezing has exactly the (clipped, combined, transformed) values, times and weights of its sources, so that its statistics are those of the derived data. "
    "Deriving never changes the source, and later changes of the source never change the derived monitor.",
    ["histories", "inputs"],
    "all recorded paths from a bounded set times all derivation parameters from a grid",
    "Slice bounds that coincide with jumps, off periods and now are easy to get wrong and hardly tested.",
    [{"name": "Monitor.slice, merge, x_map, __mul__, freeze, deregister", "where": "salabim/salabim.py: class Monitor"}],
    [],
    ["xt()/xweight() of the derived monitor"],
    technique=INPUT,
)
prop(
    "C20",
    "Memory-less (stats_only) monitors give the same statistics as full ones",
    "For every history of tallies, time steps, switches and resets, a stats_only monitor reports the same number of entries, weight/duration, mean, std, minimum, maximum and ex0 variants as a full monitor fed with the same. "
    "Requests that need the individual values are refused.",
    ["histories"],
    "all sequences of tally/advance/on/off/reset up to a depth, level and non-level, with weights",
    "Running sums at switches and zero-length periods are only compared for one scenario in the tests.",
    [{"name": "Monitor stats_only branches", "where": "salabim/salabim.py: class Monitor"}],
    [],
    ["mean()", "std()", "duration()"],
    technique=OPSEQ,
)
prop(
    "C21",
    "Distributions: samples follow the definition for every draw, with right mean",
    "For every underlying random draw, each distribution gives exactly the value its definition assigns to that draw, inside its support and within lowerbound/upperbound (by rejection, with fallback to the bound), and mean() is the mean of that definition in the right time unit. "
    "Discrete distributions (Pdf, CumPdf, Poisson, IntUniform, External) assign to every outcome exactly its probability, including draws exactly at a boundary, and string/Distribution/callable/arithmetic forms are equivalent to the explicit ones.",
    ["inputs"],
    "all draws from a grid (including 0 and boundary values) times all distributions and parameters from small domains",
    "Tests sample with a fixed seed and compare means roughly; boundary draws practically never occur.",
    [{"name": "_Distribution subclasses' sample", "where": "salabim/salabim.py: distribution classes"}],
    [],
    ["sample()", "mean()"],
    technique=INPUT,
)
prop(
    "C22",
    "Seeds determine everything; random streams are independent",
    "Two runs of the same model with the same seed make exactly the same draws, and thus give identical results; a different seed or seed in between is honored exactly as documented. "
    "A distribution or model part with its own random stream neither influences nor is influenced by draws from others.",
    ["schedules", "configurations"],
    "all interleavings of draws over the distributions of a bounded set and all ways of seeding",
    "A shared or silently reseeded stream only shows when draws interleave in a particular way.",
    [{"name": "random_seed, randomstream arguments", "where": "salabim/salabim.py: random_seed, Environment.__init__, _Distribution"}],
    [],
    ["sample()"],
    technique=OPSEQ,
)
prop(
    "C23",
    "Component generators create exactly the specified arrivals",
    "A ComponentGenerator creates components at exactly the times its specification implies (iat, force_at/force_till, at, till, duration, number, delay, spread/equidistant over duration, moments), never beyond till or more than number, and calls at_end exactly once at the right moment. "
    "With disturbances every arrival is shifted by exactly its own disturbance, and generated components get the specified class, arguments and serial names.",
    ["inputs", "configurations"],
    "all combinations of the generator's parameters from small domains, with deterministic and controlled random interarrival times",
    "There are over 10 interacting parameters; the tests use a few combinations.",
    [{"name": "ComponentGenerator.process variants", "where": "salabim/salabim.py: class ComponentGenerator"}],
    [],
    ["creation times"],
    technique=INPUT,
)
prop(
    "C24",
    "Yield and yieldless models behave identically",
    "The same model written as yieldless process and as generator with yields passes through exactly the same sequence of events, statuses, queue contents and claims for every history, including exceptions. "
    "This holds for all process interaction methods and for from_store results.",
    ["histories", "schedules", "configurations"],
    "all histories of the kernel, resource, state and store operation alphabets up to a depth, executed in both modes",
    "The tests run nearly everything in one mode only.",
    [{"name": "env._yieldless branches", "where": "salabim/salabim.py: class Component, Environment.step"}],
    [],
    ["complete observation log"],
    technique=KERNEL,
)
prop(
    "C25",
    "Time units and datetimes: conversions are consistent and transparent",
    "For all pairs of time units, conversion functions, durations and distributions with a time unit give the same physical time, conversion there and back is the identity, and with datetime0 set datetimes/timedeltas and numbers may be used interchangeably with the same result. "
    "Printed times and durations denote the same instants.",
    ["inputs", "configurations"],
    "all pairs of time units times durations from a grid; datetime0 on/off; all methods accepting times",
    "The number of pairs and entry points is large; a wrong factor in one is seen only there.",
    [{"name": "_time_unit_lookup, Environment.to_time_unit, to_datetime, spec_to_time", "where": "salabim/salabim.py: class Environment"}],
    [],
    ["now()", "to_*()", "t_to_datetime()"],
    technique=INPUT,
)
prop(
    "C26",
    "Observing a model does not change it",
    "Switching tracing, monitors, suppress_trace options, printing of info/statistics/histograms or reading any status, queue or monitor at any moment leaves the sequence of events, all statuses, queues, claims and random draws exactly as without. "
    "Trace output itself is deterministic: the same history gives the same trace, and (suppress) switches restore the previous setting.",
    ["histories", "configurations"],
    "all histories up to a depth, executed with and without observation at every step",
    "A side effect of a reading method only matters at the particular moment it is called.",
    [{"name": "print_trace, print_info, print_statistics, monitor switches", "where": "salabim/salabim.py"}],
    [],
    ["observation log", "trace output"],
    technique=KERNEL,
)
prop(
    "C27",
    "Environments are isolated; names and sequence numbers are unique and in order",
    "Two environments never influence each other: interleaving the construction and stepping of two models gives each exactly the same behaviour, names and results as when run alone. "
    "Automatic names and sequence numbers count per environment, kind of object and base name in creation order; base name and sequence number survive renaming, and derived names follow it.",
    ["schedules", "histories"],
    "all interleavings of operations on two environments, and all naming forms, up to a depth",
    "Leaks via globals (default environment, name counters) need two live environments; the tests use one at a time.",
    [{"name": "g.default_env, _set_name, _nameserialize*", "where": "salabim/salabim.py: _set_name, class Environment"}],
    [],
    ["name()", "sequence_number()", "observation log"],
    technique=KERNEL,
)
prop(
    "C28",
    "Period monitors partition the observations",
    "With a PeriodMonitor, every tally or piece of a level path ends up in exactly the period its time lies in (cyclically; at a boundary in one of the two), so that the periods together have exactly the entries and durations of the whole since it was attached. "
    "Several period monitors of one monitor are independent, and attaching, resetting or removing one does not disturb the monitored monitor.",
    ["histories", "inputs"],
    "all period lists from a small domain times all tally sequences up to a depth",
    "Only tallies exactly at period boundaries or over several periods show errors.",
    [{"name": "PeriodMonitor.process / tally hook", "where": "salabim/salabim.py: class PeriodMonitor"}],
    [],
    ["period monitors' xt()/mean()"],
    technique=OPSEQ,
)
prop(
    "C29",
    "ItemFile reads back exactly the items in the text",
    "For every text, ItemFile gives the items in order: blank and tab separated, single or double quoted items taken literally (null string included), everything after # and everything within curly braces on a line ignored (braces count as white space). "
    "read_item_int and read_item_float give the number an item denotes (decimal comma allowed) or raise ValueError, read_item_bool is False exactly for false (any case), zero and the empty string, and EOFError is raised exactly after the last item. "
    "Mixing the read functions does not skip or repeat anything, and a file and a string with the same text give the same items.",
    ["inputs", "histories"],
    "all texts over a small alphabet up to a length, times all read sequences",
    "Quoting, comments and blank lines combine in many ways; the tests read one file.",
    [{"name": "ItemFile._nextread", "where": "salabim/salabim.py: class ItemFile"}],
    [],
    ["read_item*()"],
    technique=INPUT,
)
prop(
    "C30",
    "Interpolation helpers and trajectories are exact and continuous",
    "interpolate, interp, linspace, arange-like helpers and searchsorted give exactly the piecewise linear/ordered values, clipped outside the range, for scalars and tuples. "
    "Trajectories (standstill, polygon, circle, merged) are at the right position at the start, end, and in between, move at no more than the specified speed and acceleration, continuously, with in_trajectory, duration and length consistent.",
    ["inputs"],
    "all argument combinations from small grids",
    "Acceleration phases and merging have many cases; tests sample few.",
    [{"name": "interpolate, interp, Trajectory classes", "where": "salabim/salabim.py"}],
    [],
    ["returned values"],
    technique=INPUT,
)
prop(
    "C31",
    "An Event performs its action exactly once, at the right time, unless cancelled",
    "An Event executes its action exactly once, at exactly the scheduled (or rescheduled) time and in event order, with action_taken() true from then on; an event that is cancelled before performs nothing. "
    "Its action may schedule, cancel or alter anything, with the same results as when done by a process.",
    ["histories", "schedules"],
    "all interleavings of creating, rescheduling, cancelling and executing up to 3 events and a process",
    "Rescheduling or cancelling at the same instant needs exact ties.",
    [{"name": "Event.process, Event.action", "where": "salabim/salabim.py: class Event"}],
    [],
    ["action_taken()", "order of actions"],
    technique=OPSEQ,
)
prop(
    "C32",
    "Animating and recording do not change a run; frames come at the right times",
    "Recording an animation (without a display) of a run with a given end changes nothing in that run: the same processes get control at the same times, and see and record the same states and statistics, whenever the animation is switched on or off and whatever it shows. "
    "Frames are made at exactly the start of the animation plus k * speed / fps, each once, as long as the animation is on and the video is not closed; every dynamic attribute is evaluated for exactly that time, and each frame ends up in the video, in order.",
    ["histories", "schedules", "inputs"],
    "all histories of operations by main and up to 3 processes, animated from and until every control point, with several frame intervals and kinds of video",
    "Errors need statistics read between two frames, frames coinciding with events, or an animation switched off in the middle; the tests do not animate at all.",
    [{"name": "_BlindVideoMaker, Environment.animation_parameters, video_close, statistics while animating", "where": "salabim/salabim.py: class _BlindVideoMaker, Environment.animation_parameters, Monitor._xweight, Monitor.slice, Monitor.xt"}],
    [{"name": "animation time", "meaning": "time of the frame being made", "where": "Environment._t"}],
    ["order of control", "statistics", "number, time and content of the frames"],
    technique=KERNEL,
)
prop(
    "C33",
    "A frame shows exactly what should be visible, where, how and in which order",
    "Every frame shows exactly those 2D animation objects that are made, not removed, kept and visible at that moment, with the position, size, angle, offset, anchor, colour and layer they have at that moment, whether these are given as a constant, function, method or by a subclass, or are changed during the run. "
    "A lower layer is in front of a higher one and in a layer the last one made is in front. AnimateQueue shows exactly the members of the queue in order (or reversed, or limited), Animate moves linearly from t0 to t1, and objects of a parent disappear when its process ends. "
    "Colour specifications and screen/user coordinates are converted as documented.",
    ["inputs", "histories"],
    "all scenes of 1-3 objects over small domains of each attribute and all sequences of 3 changes between frames; every pixel away from edges is judged",
    "A wrong picture raises no exception, so only comparing pixels with an independent painter shows it; the tests do not animate at all.",
    [{"name": "Animate2dBase.make_pil_image, Environment._capture_image, AnimateQueue.update, DynamicClass", "where": "salabim/salabim.py: class Animate2dBase, AnimateQueue, Animate, DynamicClass, Environment._capture_image"}],
    [{"name": "animation objects", "meaning": "what is to be drawn", "where": "Environment.an_objects, sys_objects"}],
    ["pixels of the frames", "is_removed()", "colorspec_to_tuple()", "user_to_screen_coordinates_x()"],
    technique=INPUT,
)

NOTE = (
    "Complete within the stated bounds, on the real code from /repo's working tree; beyond the bounds nothing is claimed. "
    "Trusted: the reference model (independently written from the documentation) and CPython."
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {"files": F, "state": list(p["state"]), "mechanism": p["mechanism"], "observe_at": list(p["observe"]), "hook_needed": None},
                    }
                )
                + "\n"
            )
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")):
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": f"./check.sh {p['id']} quick",
                    "thorough_cmd": f"./check.sh {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": p["technique"],
                    "level": "model_checking",
                    "level_note": NOTE,
                }
            )
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(
            {
                "version": 1,
                "setup_cmd": "./setup.sh",
                "checks": checks,
                "not_applicable": na,
                "notes": "No hooks in /repo are needed: everything is observed through the public interface. See DESIGN.md.",
            },
            f,
            indent=1,
        )
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


main()
