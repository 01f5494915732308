#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the texts stay easy to edit).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S="schedules";F="fault_sequences";H="histories";I="inputs"
p("C01","Counter updates are never lost, invented or counted twice",
 "Every accepted increment or addition made to a counter, through any clone and from any thread, is contained exactly once in its value: a read contains every addition that completed before the read began, none that had not begun when the read ended, and no addition twice. When all updates have finished the value equals the exact sum. Rejected additions (negative or NaN) return an error and change nothing.",
 [S,H,I],"every interleaving of concurrent increment/add/add_u64/read/clone/drop calls at every atomic step, and every mix of integral, fractional and rejected amounts",
 "The only counter test is single threaded with four updates; lost updates need two threads interleaved between the load and the store of one update.",
 ["src/metrics/counter.rs","src/atomic.rs"],[("atomic fetch_add / CAS loop","src/atomic.rs"),("split integral/fractional accumulators","src/metrics/counter.rs Value")],
 [("value","sum of accepted additions","src/metrics/counter.rs")],["Counter::value","Counter Display","Gatherer::gather"])
p("C02","A counter never goes down and never wraps",
 "The value of a counter observed by anyone never decreases: if one read finishes before another begins, the later read is not smaller, for amounts of any magnitude including huge ones and infinity. The final value agrees with the mathematical sum of all accepted additions up to floating point rounding.",
 [S,H,I],"all interleavings and all histories of non-negative additions of any magnitude (2^53, 2^63, u64::MAX, 1e300, +Inf, fractions) with concurrent readers",
 "Tests add 3.45 and 2; magnitude-dependent and accumulated overflow plus reader/writer overlap are never reached.",
 ["src/metrics/counter.rs","src/atomic.rs"],[("Value::add routing between u64 and f64","src/metrics/counter.rs"),("AtomicU64::add","src/atomic.rs")],
 (),["Counter::value"])
p("C03","Gauge operations are atomic (linearizable)",
 "Every set, add, subtract, increment, decrement, set-to-current-time and read of a gauge takes effect atomically at one instant between its call and its return, with the semantics of a single floating point variable shared by all clones.",
 [S,H],"all interleavings of concurrent gauge operations on shared clones",
 "The gauge test performs one set and one read on a single thread.",
 ["src/metrics/gauge.rs","src/atomic.rs"],[("CAS loop","src/atomic.rs AtomicF64::update")],(),["Gauge::value","Gauge Display"])
p("C04","In-progress tracking always returns to its baseline",
 "A gauge changed only by in-progress tracking always equals its initial value plus the number of tracked closures currently running, and returns to the initial value when they have all ended, whether a closure returned or panicked. The closure's result or panic payload is passed through to the caller.",
 [S,F,H],"all interleavings, nestings and panics of tracked closures",
 "The doc test tracks one closure that returns normally on one thread; a panicking closure is never tried.",
 ["src/metrics/gauge.rs"],[("increment before / decrement after the closure","src/metrics/gauge.rs track_inprogress")],(),["Gauge::value"])
p("C05","Each observation lands once, in the right histogram bucket",
 "Every value observed by a histogram is counted exactly once, in the bucket with the smallest upper bound that is not below it, and added once to the sum; cumulative counts equal the number of observations not above each bound. Reads made while observations are in flight contain all completed observations and none that have not begun.",
 [S,H,I],"all interleavings of concurrent observations, readers, clones; bound lists in any order with repeated, negative or infinite bounds; values on, between and beyond bounds, including infinities",
 "Tests observe 2-4 values single threaded against sorted, distinct, finite bounds.",
 ["src/metrics/histogram.rs","src/bucket.rs","src/atomic.rs"],[("binary search over sorted bounds","src/metrics/histogram.rs observe"),("atomic bucket counters","src/bucket.rs")],
 [("buckets","per-bound non-cumulative counts","src/metrics/histogram.rs")],["Histogram::count","Histogram::sum","Histogram::cumulative_buckets"])
p("C06","Every exposed histogram is consistent within itself",
 "Any textual exposition of a histogram, single or aggregated, produced at any moment while observations are in flight, has strictly increasing bounds ending in +Inf, non-decreasing cumulative counts, and a total count equal to its +Inf bucket.",
 [S,H,I],"every interleaving of a rendering thread with observing threads, single histograms and merged ones with different bounds",
 "Tests render only when nothing else runs; the count and the +Inf bucket can differ only when an observation lands between the two reads.",
 ["src/metrics/histogram.rs","src/aggregated_metrics.rs","src/bucket.rs"],[("rendering of cumulative buckets","src/metrics/histogram.rs Display"),("AggregatedCumulativeBuckets merge","src/bucket.rs")],
 (),["Histogram Display","MetricFamilies::to_text"])
p("C07","Summary count, sum and samples conserve every observation",
 "Every value observed by a summary contributes exactly once to its total count, once to its sum and, while inside the window, once to its samples, from any thread and through any clone; reads during concurrent observation contain everything completed before and nothing not yet begun. Expiry of samples never reduces count or sum.",
 [S,H],"all interleavings of observers and readers including lock contention and stalled lock holders",
 "The test observes five values on one thread.",
 ["src/metrics/summary.rs","src/atomic.rs"],[("sample deque under a mutex","src/metrics/summary.rs with_current_samples"),("atomic count and sum","src/metrics/summary.rs observe")],
 [("samples","time stamped observations within the window","src/metrics/summary.rs")],["Summary::count","Summary::sum","Summary::quantiles"])
p("C08","Summary quantiles cover exactly the sliding time window",
 "At any moment the quantiles of a summary, single or aggregated, are computed from exactly the non-NaN observations made within the configured window of elapsed time: nothing older and nothing younger is missing. This holds when the wall clock is stepped in either direction and when observing or reading threads are stalled at arbitrary points.",
 [S,F,H],"all clock histories (advances, forward and backward wall clock steps, stalls inside calls), all windows from zero to unbounded, all interleavings",
 "The test never lets time pass; window expiry and clock steps are unreachable without controlling the clock.",
 ["src/metrics/summary.rs","src/aggregated_metrics.rs"],[("front pruning by age","src/metrics/summary.rs with_current_samples")],
 [("samples","time stamped observations","src/metrics/summary.rs")],["Summary::quantiles","AggregatedSummary::quantiles"])
p("C09","Quantile queries are total and return true ranks",
 "For every set of valid quantiles, including 0 and 1, and every set of current observations, a quantile query never panics, returns one value per distinct configured quantile in ascending order, and each value is an actual current observation at the corresponding rank; a merged query over several summaries ranks the union of their observations. This holds while other threads keep observing.",
 [S,H,I],"all interleavings of queries with observers, all quantile lists in [0,1], all sample multisets including NaN and infinities, all groupings of summaries into one series",
 "The test uses three interior quantiles over five samples on one thread; 1.0 and merging are never tried.",
 ["src/metrics/summary.rs","src/aggregated_metrics.rs","src/quantile.rs"],[("rank index computation","src/metrics/summary.rs quantiles"),("merged samples","src/aggregated_metrics.rs AggregatedSummary::quantiles")],
 (),["Summary::quantiles","AggregatedSummary::quantiles","Summary Display"])
p("C10","A registered metric is in every later gather, exactly once",
 "Once registering a metric or collector with a gatherer's registry has returned, every gather of that gatherer that begins later contains it exactly once until its last handle is dropped or its collector ends, regardless of which thread registered it, through which registry clone, or what other registrations and gathers run concurrently. A metric whose construction failed is never exposed, and registering to a gatherer that no longer exists is harmless.",
 [S,H],"all interleavings of registration, gathering and handle dropping across threads, registries and gatherers",
 "Tests register three metrics and gather once, on one thread.",
 ["src/registry.rs","src/metrics/builder.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs"],
 [("mpsc hand-over of collectors","src/registry.rs"),("registration in finish","src/metrics/*.rs")],[("collectors","registered collectors","src/registry.rs")],["Gatherer::gather"])
p("C11","Dropped metrics disappear and take nothing else with them",
 "After the last handle and gathered snapshot of a metric are gone, no later gather exposes it, and a collector that has reported its end is never called again. Every gather calls every other live collector exactly once, whichever collectors end in that gather.",
 [S,H],"all orders and timings of drops and collector ends relative to gathers, any number of them in one gather",
 "No test drops a handle before gathering.",
 ["src/registry.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs"],
 [("weak collectors","src/metrics/*.rs collectors"),("removal during iteration","src/registry.rs gather")],[("collectors","registered collectors","src/registry.rs")],["Gatherer::gather"])
p("C12","Gathering merges same-identity metrics losslessly, nothing else",
 "In every gather, metrics with equal name, kind and label set form one series, and metrics that differ in any of these are never merged: counters and gauges add up, histograms and summaries combine their buckets, counts, sums and observations, and the latest timestamp is kept. Each family appears once, families and series in a deterministic sorted order, and no update made before the gather is missing from the merged values.",
 [S,H,I],"all groupings of metrics into series, all registration orders and threads, gathers concurrent with updates",
 "One test merges two of each kind with one schedule and no timestamps.",
 ["src/registry.rs","src/metric.rs","src/aggregated_metrics.rs","src/bucket.rs"],
 [("sort by name, kind, labels then adjacent merge","src/registry.rs gather"),("try_merge","src/aggregated_metrics.rs")],(),["Gatherer::gather","MetricFamilies::to_text"])
p("C13","Gathering is safe while labels are being changed",
 "A gather that runs while other threads insert, remove or clear labels of registered metrics neither panics nor blocks forever; it contains every live metric exactly once, under a label set the metric had during that gather, and no two series of one family have the same label set.",
 [S,H],"all interleavings of label mutation with collection, sorting, merging and rendering, any number of metrics",
 "No test mutates labels concurrently with a gather.",
 ["src/registry.rs","src/metric.rs","src/aggregated_metrics.rs","src/label.rs"],
 [("sort and merge keyed by labels","src/registry.rs gather")],(),["Gatherer::gather","MetricFamilies::to_text"])
p("C14","Label maps change atomically (linearizable)",
 "Each insert, remove, clear, lookup, size query and iteration of a metric's labels takes effect atomically between its call and its return, across all clones of the metric: no concurrent modification is lost, and an iteration sees one version of the map, sorted and without repeated names. Invalid or reserved label names are rejected without effect.",
 [S,F,H],"all interleavings of label operations from several threads, under any address reuse pattern of the memory allocator",
 "Tests insert one label on one thread.",
 ["src/label.rs"],[("copy-on-write swap of an immutable label vector","src/label.rs LabelsMut"),("AtomicImmut","atomic_immut crate")],[("labels","current immutable label vector","src/label.rs Labels")],["Labels::get","Labels::iter","Labels::len","Labels Display"])
p("C15","Label references stay valid while they can be held",
 "A label or label iterator obtained from a metric keeps its name and value, and never refers to released memory, for as long as the borrow that produced it lives, whatever other threads or clones do to the labels meanwhile.",
 [S,F,H],"all interleavings and orders of lookups, iterations, modifications and handle drops, under any address reuse pattern",
 "No test keeps a label across a modification, and a use of released memory usually goes unnoticed in a normal run.",
 ["src/label.rs"],[("lifetime of returned labels","src/label.rs Labels::get, Labels::iter")],[("labels","current immutable label vector","src/label.rs Labels")],["Labels::get","Labels::iter"])
p("C16","Timestamps are atomic and follow the wall clock",
 "Setting, clearing and reading a metric's timestamp are atomic; a timestamp is either absent or a value that was set, setting it to now yields a wall clock value current during the call (also before 1970 and across clock steps), and it is exposed exactly while set. An aggregated series carries the latest timestamp of its members, absent only if all are absent.",
 [S,F,H],"all interleavings of timestamp operations and all wall clock histories including times before the epoch",
 "No test touches timestamps.",
 ["src/timestamp.rs","src/aggregated_metrics.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs"],
 [("sentinel in one atomic","src/timestamp.rs"),("max of members","src/aggregated_metrics.rs")],(),["Timestamp::get","Display of metrics","Gatherer::gather"])
p("C17","Timing a closure records its true elapsed time once",
 "Timing a closure with any metric kind calls it exactly once, returns its result, and records exactly one duration that lies between the closure's own elapsed time and that of the whole call, in seconds. This holds under wall clock steps in either direction, stalls at any point and concurrent use.",
 [S,F,H],"all clock histories, stalls and interleavings of timed closures on all four metric kinds",
 "No test times anything; clock steps cannot be produced without a controlled clock.",
 ["src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs","src/timestamp.rs"],
 [("monotonic clock","src/metrics/*.rs time"),("duration_to_seconds","src/timestamp.rs")],(),["Counter::time","Gauge::time","Histogram::time","Summary::time"])
p("C18","Process metrics survive operating system failures",
 "When reading operating system information fails in any way (no access, no descriptors left, input/output errors, interrupted or short reads), collecting process metrics neither panics nor ends its registration nor leaks descriptors: metrics whose source could be read are present with the source's values, the others are left out of that gather, and they are back once the failure is over.",
 [F,H],"all combinations and sequences of failures of the individual open and read calls over repeated gathers, and all wall clock values at start",
 "The doc test gathers once on a healthy system and ignores the result.",
 ["src/metrics/process.rs"],[("per-source error handling","src/metrics/process.rs collect")],(),["ProcessMetricsCollector::collect","Gatherer::gather"])
p("C19","A panic in user code never damages the registry or metrics",
 "A panic raised by a user supplied collector or timed or tracked closure reaches the caller and leaves the library usable: no registration, earlier or later, is lost, later gathers contain every other live metric exactly once, and the default registry stays connected to the default gatherer even if the panic poisoned its lock. Other threads are never affected.",
 [S,F,H],"panics at any collector position and any moment, with concurrent registration, updates and gathers",
 "No test panics inside the library.",
 ["src/registry.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs"],
 [("collector list kept across unwinding","src/registry.rs gather"),("default_registry on a poisoned lock","src/registry.rs")],(),["Gatherer::gather","default_registry","default_gatherer"])
p("C20","Hot path updates never wait for a stalled thread",
 "Updating or reading a counter, gauge, histogram or timestamp finishes within a bounded number of its own steps plus retries caused by completed operations of others, even if any other thread using the same metric is stopped forever at an arbitrary point inside the library. When the stopped thread resumes, its update takes effect exactly once.",
 [S,F],"all points at which a thread can stop inside an update or read, and all schedules of the remaining threads",
 "Tests are single threaded; nothing ever stops inside a call.",
 ["src/atomic.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/timestamp.rs"],
 [("lock-free atomics","src/atomic.rs")],(),["Counter, Gauge, Histogram, Timestamp methods"])
p("C21","Every text exposition is well formed and faithful",
 "The text exposition produced by a gather at any moment, while metrics are updated, relabelled, registered and dropped concurrently, is valid Prometheus text format: help and type of each family once and before its samples, only samples belonging to the family, no series twice, every value parsable, and states exactly the labels, timestamps, values and help texts that the gathered metrics have. Label values and help texts with any Unicode content decode to exactly the original strings.",
 [S,H,I],"all interleavings of rendering with updates, relabelling, registration and drops; any label values and help texts",
 "Tests compare three fixed outputs with a plain label value.",
 ["src/metric.rs","src/label.rs","src/aggregated_metrics.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs"],
 [("Display implementations","src/metric.rs, src/label.rs, src/aggregated_metrics.rs")],(),["MetricFamilies::to_text"])
p("C22","Callbacks may use the library; every call finishes",
 "Code run by the library on the user's behalf (timed closures, tracked closures, collectors) may itself update, render, relabel, create and register any metric, including the one involved, and run further gathers on other gatherers, without deadlock. Under any schedule in which every thread keeps running, all calls on all metric kinds and on registries and gatherers finish.",
 [S,H],"all interleavings of threads running mixed operations with re-entrant callbacks",
 "No test calls the library from a callback except reading a gauge on the same thread; deadlocks and livelocks need particular interleavings.",
 ["src/registry.rs","src/metrics/summary.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/label.rs"],
 [("no lock held while user code runs","src/metrics/*.rs time, src/registry.rs"),("spin read-write lock","atomic_immut crate")],(),["all public calls"])
p("C23","Names and labels are accepted exactly by their grammar",
 "Metric name parts are accepted exactly if they match [a-zA-Z_:][a-zA-Z0-9_:]* and label names exactly if they match [a-zA-Z_][a-zA-Z0-9_]*, do not begin with __ and are not reserved for the metric kind; everything else is rejected with an invalid-input error.",
 [I],"all strings","Tests try two invalid label names.",["src/metric.rs","src/label.rs"],[("validate_name","src/metric.rs, src/label.rs")])
p("C24","Builders pass every setting on to the metric",
 "A metric built through any builder carries exactly the namespace, subsystem, name, help, labels, bounds, quantiles and initial value that were set, with later settings of one item replacing earlier ones, and linear and exponential bucket builders produce the documented bounds.",
 [I],"all builder call sequences","Tests set a few options once.",["src/metrics/builder.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs"],[("builders","src/metrics/*.rs")])
p("C25","Memory is returned",
 "When the last handles, copied labels, gathered snapshots, texts, registries and gatherers of some metrics are gone, every allocation made for them has been released, whatever the interleaving of their use and whatever panics user code raised. While a process runs, memory depends on what is current: repeating updates, reads, renderings, gathers, label changes within a fixed set of labels, registering and dropping metrics, ending collectors, and observations that leave the window does not accumulate memory, given that registered gatherers are gathered.",
 [S,H,F],"all interleavings of creating, cloning, using, relabelling, gathering, replacing gatherers, panicking and dropping, and all repeated cycles of such operations",
 "Tests create a handful of metrics and never look at memory; leaks need a race, a panic or many repetitions to matter.",
 ["src/registry.rs","src/label.rs","src/metric.rs","src/metrics/counter.rs","src/metrics/gauge.rs","src/metrics/histogram.rs","src/metrics/summary.rs"],
 [("Weak references in collectors","src/metrics/*.rs"),("removal of ended collectors","src/registry.rs gather"),("expiry of samples","src/metrics/summary.rs"),("label versions","src/label.rs")],(),["allocator"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
