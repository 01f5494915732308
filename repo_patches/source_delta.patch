From 7d6c2ba816d69b9d1585b283fea8a970f2e7427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 01/12] fix: do not index past the samples for the quantile 1.0

Summary::quantiles and AggregatedSummary::quantiles clamped the rank to the
number of samples instead of the last index, so that any query with the
quantile 1.0 panicked.
---
 src/aggregated_metrics.rs | 5 ++++-
 src/metrics/summary.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..ea19edb 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,10 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(
+                    count - 1,
+                    (quantile.as_f64() * count as f64).floor() as usize,
+                );
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..fe79687 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,10 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(
+                    count - 1,
+                    (quantile.as_f64() * count as f64).floor() as usize,
+                );
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From 30f40f09b306b51adfc53813904cfb72df99fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 02/12] fix: measure the summary window with the monotonic
 clock

The age of samples was taken from the wall clock: stepping it backward kept
expired samples (and everything behind them) in the window, stepping it
forward dropped current ones.
---
 src/metrics/summary.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index fe79687..92b63bc 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 use std::fmt;
 use std::iter;
 use std::sync::{Arc, Mutex, Weak};
-use std::time::{Duration, Instant, SystemTime};
+use std::time::{Duration, Instant};
 
 use atomic::{AtomicF64, AtomicU64};
 use default_registry;
@@ -133,13 +133,13 @@ impl Summary {
 
     pub(crate) fn with_current_samples<F, T>(&self, f: F) -> T
     where
-        F: FnOnce(SystemTime, &mut VecDeque<(SystemTime, f64)>) -> T,
+        F: FnOnce(Instant, &mut VecDeque<(Instant, f64)>) -> T,
     {
-        let now = SystemTime::now();
+        let now = Instant::now();
         if let Ok(mut samples) = self.0.samples.lock() {
             while samples
                 .front()
-                .and_then(|s| now.duration_since(s.0).ok())
+                .and_then(|s| now.checked_duration_since(s.0))
                 .and_then(|d| if d > self.0.window { Some(()) } else { None })
                 .is_some()
             {
@@ -335,7 +335,7 @@ struct Inner {
     timestamp: Timestamp,
     window: Duration,
     quantiles: Vec<Quantile>,
-    samples: Mutex<VecDeque<(SystemTime, f64)>>,
+    samples: Mutex<VecDeque<(Instant, f64)>>,
     count: AtomicU64,
     sum: AtomicF64,
 }
-- 
2.43.0


From c6b038875c537173cbdb45d286a1f2dcd02748c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 03/12] fix: keep label versions alive while they can be
 referenced, and serialize label changes

`Labels::get` and the items of `Labels::iter` borrow from the metric, but
pointed into a vector that the next modification through another clone
released.  Concurrent modifications could also be lost: the compare-and-swap
of AtomicImmut::update compares addresses and releases the old vector first,
so a vector allocated at the same address in the meantime is overwritten.

Modifications are now serialized by a mutex, which also keeps every distinct
label vector for the lifetime of the metric.
---
 src/label.rs | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..6f79217 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -8,6 +8,7 @@ use atomic_immut::AtomicImmut;
 use std;
 use std::fmt;
 use std::ops::Deref;
+use std::sync::{Arc, Mutex};
 
 use {ErrorKind, Result};
 
@@ -111,11 +112,18 @@ impl fmt::Display for Label {
 
 /// A map of labels (i.e., key-value pairs).
 #[derive(Debug)]
-pub struct Labels(AtomicImmut<Vec<Label>>);
+pub struct Labels {
+    current: AtomicImmut<Arc<Vec<Label>>>,
+
+    // Every distinct version that has been current so far.
+    // `get` and `iter` hand out references into them, so they are kept as long as `self` lives.
+    // The mutex also serializes the modifications.
+    versions: Mutex<Vec<Arc<Vec<Label>>>>,
+}
 impl Labels {
     /// Returns the number of labels contained in this map.
     pub fn len(&self) -> usize {
-        self.0.load().len()
+        self.current.load().len()
     }
 
     /// Returns `true` if this map has no labels, otherwise `false`.
@@ -130,13 +138,33 @@ impl Labels {
 
     /// Returns an iterator which visiting all labels in this map.
     pub fn iter(&self) -> Iter {
-        let labels = self.0.load();
-        let inner = unsafe { std::mem::transmute(labels.iter()) };
-        Iter { labels, inner }
+        let labels: *const Vec<Label> = &**self.current.load();
+
+        // This is safe because `self.versions` keeps the vector alive (and unchanged) until `self` is dropped.
+        let inner = unsafe { (*labels).iter() };
+        Iter { inner }
     }
 
     pub(crate) fn new(labels: Vec<Label>) -> Self {
-        Labels(AtomicImmut::new(labels))
+        let labels = Arc::new(labels);
+        Labels {
+            current: AtomicImmut::new(Arc::clone(&labels)),
+            versions: Mutex::new(vec![labels]),
+        }
+    }
+    fn update<F>(&self, f: F)
+    where
+        F: FnOnce(&[Label]) -> Vec<Label>,
+    {
+        let mut versions = self.versions.lock().unwrap_or_else(|e| e.into_inner());
+        let new = f(&self.current.load());
+        let known = versions.iter().find(|v| ***v == new).cloned();
+        let new = known.unwrap_or_else(|| {
+            let new = Arc::new(new);
+            versions.push(Arc::clone(&new));
+            new
+        });
+        self.current.store(new);
     }
 }
 impl fmt::Display for Labels {
@@ -168,10 +196,10 @@ impl<'a> LabelsMut<'a> {
             ErrorKind::InvalidInput
         );
         let label = track!(Label::new(name, value))?;
-        self.inner.0.update(move |labels| {
-            let mut labels = labels.clone();
+        self.inner.update(move |labels| {
+            let mut labels = labels.to_vec();
             labels.retain(|l| l.name != label.name);
-            labels.push(label.clone());
+            labels.push(label);
             labels.sort();
             labels
         });
@@ -181,13 +209,12 @@ impl<'a> LabelsMut<'a> {
     /// Removes the label which has the name `name` if it exists.
     pub fn remove(&mut self, name: &str) {
         self.inner
-            .0
             .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
     }
 
     /// Clears the all labels.
     pub fn clear(&mut self) {
-        self.inner.0.store(Vec::new());
+        self.inner.update(|_| Vec::new());
     }
 
     pub(crate) fn new(labels: &'a Labels, reserved: Option<&'static str>) -> Self {
@@ -207,7 +234,6 @@ impl<'a> Deref for LabelsMut<'a> {
 /// An iterator over the labels of a `Labels`.
 #[derive(Debug)]
 pub struct Iter<'a> {
-    labels: std::sync::Arc<Vec<Label>>,
     inner: std::slice::Iter<'a, Label>,
 }
 impl<'a> Iterator for Iter<'a> {
-- 
2.43.0


From f58add79591847787f7b11f6f73c55f02b82b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 04/12] fix: gather on a snapshot of the labels

Gatherer::gather sorted and merged metrics by their live labels.  Labels
changed by another thread meanwhile made the order inconsistent (sort_by may
panic on that), separated metrics with equal labels or exposed one label set
twice, and the exposition could mix two label sets within one series.
---
 src/aggregated_metrics.rs | 24 ++++++++++++++++--------
 src/label.rs              |  5 +++++
 src/metric.rs             | 20 ++++++++++----------
 src/registry.rs           | 17 ++++++++++++-----
 4 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index ea19edb..af0d10e 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -12,6 +12,7 @@ use timestamp::Timestamp;
 #[derive(Debug, Clone)]
 pub struct AggregatedCounter {
     inner: Counter,
+    labels: Labels,
     timestamp: Option<i64>,
     value: f64,
 }
@@ -23,7 +24,7 @@ impl AggregatedCounter {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inner.labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the counters in this aggregation.
@@ -36,11 +37,12 @@ impl AggregatedCounter {
         self.value
     }
 
-    pub(crate) fn new(counter: Counter) -> Self {
+    pub(crate) fn new(counter: Counter, labels: Labels) -> Self {
         let value = counter.value();
         let timestamp = counter.timestamp().get();
         AggregatedCounter {
             inner: counter,
+            labels,
             timestamp,
             value,
         }
@@ -76,6 +78,7 @@ impl fmt::Display for AggregatedCounter {
 #[derive(Debug, Clone)]
 pub struct AggregatedGauge {
     inner: Gauge,
+    labels: Labels,
     timestamp: Option<i64>,
     value: f64,
 }
@@ -87,7 +90,7 @@ impl AggregatedGauge {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inner.labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the counters in this aggregation.
@@ -100,11 +103,12 @@ impl AggregatedGauge {
         self.value
     }
 
-    pub(crate) fn new(gauge: Gauge) -> Self {
+    pub(crate) fn new(gauge: Gauge, labels: Labels) -> Self {
         let value = gauge.value();
         let timestamp = gauge.timestamp().get();
         AggregatedGauge {
             inner: gauge,
+            labels,
             timestamp,
             value,
         }
@@ -140,6 +144,7 @@ impl fmt::Display for AggregatedGauge {
 #[derive(Debug, Clone)]
 pub struct AggregatedHistogram {
     inners: Vec<Histogram>,
+    labels: Labels,
 }
 impl AggregatedHistogram {
     /// Returns the name of this metric.
@@ -149,7 +154,7 @@ impl AggregatedHistogram {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inners[0].labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the histograms in this aggregation.
@@ -178,9 +183,10 @@ impl AggregatedHistogram {
         self.inners.iter().map(|h| h.sum()).sum()
     }
 
-    pub(crate) fn new(histogram: Histogram) -> Self {
+    pub(crate) fn new(histogram: Histogram, labels: Labels) -> Self {
         AggregatedHistogram {
             inners: vec![histogram],
+            labels,
         }
     }
 
@@ -244,6 +250,7 @@ impl fmt::Display for AggregatedHistogram {
 #[derive(Debug, Clone)]
 pub struct AggregatedSummary {
     inners: Vec<Summary>,
+    labels: Labels,
 }
 impl AggregatedSummary {
     /// Returns the name of this metric.
@@ -253,7 +260,7 @@ impl AggregatedSummary {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inners[0].labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the summaries in this aggregation.
@@ -312,9 +319,10 @@ impl AggregatedSummary {
             .collect()
     }
 
-    pub(crate) fn new(summary: Summary) -> Self {
+    pub(crate) fn new(summary: Summary, labels: Labels) -> Self {
         AggregatedSummary {
             inners: vec![summary],
+            labels,
         }
     }
 
diff --git a/src/label.rs b/src/label.rs
index 6f79217..344e731 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -167,6 +167,11 @@ impl Labels {
         self.current.store(new);
     }
 }
+impl Clone for Labels {
+    fn clone(&self) -> Self {
+        Labels::new(self.iter().cloned().collect())
+    }
+}
 impl fmt::Display for Labels {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{{")?;
diff --git a/src/metric.rs b/src/metric.rs
index de10628..8cff24b 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -259,38 +259,38 @@ impl MetricFamily {
         &self.metrics
     }
 
-    pub(crate) fn new(metric: Metric) -> Self {
+    pub(crate) fn new(metric: Metric, labels: Labels) -> Self {
         match metric {
             Metric::Counter(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Counter(vec![AggregatedCounter::new(m)]),
+                metrics: Metrics::Counter(vec![AggregatedCounter::new(m, labels)]),
             },
             Metric::Gauge(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Gauge(vec![AggregatedGauge::new(m)]),
+                metrics: Metrics::Gauge(vec![AggregatedGauge::new(m, labels)]),
             },
             Metric::Summary(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Summary(vec![AggregatedSummary::new(m)]),
+                metrics: Metrics::Summary(vec![AggregatedSummary::new(m, labels)]),
             },
             Metric::Histogram(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Histogram(vec![AggregatedHistogram::new(m)]),
+                metrics: Metrics::Histogram(vec![AggregatedHistogram::new(m, labels)]),
             },
         }
     }
     pub(crate) fn same_family(&self, metric: &Metric) -> bool {
         (self.name(), self.kind()) == (metric.name(), metric.kind())
     }
-    pub(crate) fn push(&mut self, metric: Metric) {
+    pub(crate) fn push(&mut self, metric: Metric, labels: Labels) {
         match metric {
             Metric::Counter(m) => {
                 if let Metrics::Counter(ref mut v) = self.metrics {
-                    let m = AggregatedCounter::new(m);
+                    let m = AggregatedCounter::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
@@ -298,7 +298,7 @@ impl MetricFamily {
             }
             Metric::Gauge(m) => {
                 if let Metrics::Gauge(ref mut v) = self.metrics {
-                    let m = AggregatedGauge::new(m);
+                    let m = AggregatedGauge::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
@@ -306,7 +306,7 @@ impl MetricFamily {
             }
             Metric::Summary(m) => {
                 if let Metrics::Summary(ref mut v) = self.metrics {
-                    let m = AggregatedSummary::new(m);
+                    let m = AggregatedSummary::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
@@ -314,7 +314,7 @@ impl MetricFamily {
             }
             Metric::Histogram(m) => {
                 if let Metrics::Histogram(ref mut v) = self.metrics {
-                    let m = AggregatedHistogram::new(m);
+                    let m = AggregatedHistogram::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..f4d640e 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -104,21 +104,28 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
+
+        // Labels may be modified at any time,
+        // so that sorting and merging have to be based on a single snapshot of them.
+        let mut metrics = metrics
+            .into_iter()
+            .map(|m| (m.labels().clone(), m))
+            .collect::<Vec<_>>();
+        metrics.sort_by(|&(ref al, ref a), &(ref bl, ref b)| {
             let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
             if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
+                al.iter().cmp(bl.iter())
             } else {
                 result
             }
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-        for metric in metrics {
+        for (labels, metric) in metrics {
             if !families.last().map_or(false, |f| f.same_family(&metric)) {
-                families.push(MetricFamily::new(metric));
+                families.push(MetricFamily::new(metric, labels));
             } else {
-                families.last_mut().unwrap().push(metric);
+                families.last_mut().unwrap().push(metric, labels);
             }
         }
         MetricFamilies(families)
-- 
2.43.0


From 2d16b514b066a348e2b313752466de72d3d72984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 05/12] fix: print the +Inf bucket of a histogram as its count

The buckets were read twice while rendering, once for the bucket lines and
once for the count, so an observation in between made `_count` differ from
the `+Inf` bucket of the same exposition.
---
 src/aggregated_metrics.rs | 6 ++++--
 src/metrics/histogram.rs  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index af0d10e..bec2f43 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -214,7 +214,9 @@ impl fmt::Display for AggregatedHistogram {
             "".to_string()
         };
 
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -224,7 +226,7 @@ impl fmt::Display for AggregatedHistogram {
             for label in self.labels().iter() {
                 write!(f, ",{}={:?}", label.name(), label.value())?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -239,7 +241,7 @@ impl fmt::Display for AggregatedHistogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..d644a76 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -123,7 +123,9 @@ impl fmt::Display for Histogram {
             "".to_string()
         };
 
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -133,7 +135,7 @@ impl fmt::Display for Histogram {
             for label in self.labels().iter() {
                 write!(f, ",{}={:?}", label.name(), label.value())?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -148,7 +150,7 @@ impl fmt::Display for Histogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
-- 
2.43.0


From dbf0f9a08818136b2324037bf850b827e73ad139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 06/12] fix: do not let a counter wrap around

Integral amounts went to a wrapping u64 whatever their size: adding 1e300 or
infinity (both saturate to u64::MAX) twice, or a few u64 amounts near 2^63,
made the counter go down.
---
 src/metrics/counter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..ae9e84c 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -238,6 +238,9 @@ struct Inner {
     value: Value,
 }
 
+// Larger amounts are left to the floating point part, so that the integer part cannot wrap in practice.
+const MAX_INTEGER_AMOUNT: u64 = 1 << 32;
+
 #[derive(Debug)]
 struct Value {
     f64: AtomicF64,
@@ -265,7 +268,7 @@ impl Value {
     fn add(&self, count: f64) {
         let floor = count.floor() as u64;
         let ceil = count.ceil() as u64;
-        if floor == ceil {
+        if floor == ceil && count <= MAX_INTEGER_AMOUNT as f64 {
             self.u64.add(floor);
         } else {
             self.f64.add(count);
@@ -274,7 +277,11 @@ impl Value {
 
     #[inline]
     fn add_u64(&self, count: u64) {
-        self.u64.add(count);
+        if count <= MAX_INTEGER_AMOUNT {
+            self.u64.add(count);
+        } else {
+            self.f64.add(count as f64);
+        }
     }
 }
 
-- 
2.43.0


From 4a22bc93a43952ec5ab2d46923a707b020f80481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 07/12] fix: stop tracking a closure that panics

Gauge::track_inprogress did not decrement the gauge if the closure panicked.
---
 src/metrics/gauge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metrics/gauge.rs b/src/metrics/gauge.rs
index 291f5cf..1e6a2e1 100644
--- a/src/metrics/gauge.rs
+++ b/src/metrics/gauge.rs
@@ -116,10 +116,16 @@ impl Gauge {
     where
         F: FnOnce() -> T,
     {
+        struct Decrement<'a>(&'a Gauge);
+        impl<'a> Drop for Decrement<'a> {
+            fn drop(&mut self) {
+                self.0.decrement();
+            }
+        }
+
         self.increment();
-        let result = f();
-        self.decrement();
-        result
+        let _decrement = Decrement(self);
+        f()
     }
 
     /// Measures the exeuction time of `f` and sets this gauge to its duration in seconds.
-- 
2.43.0


From eb02261d5f5ff4ab846cb5423c925b8b0f57aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 08/12] fix: keep the default registry connected after a panic

Once a collector had panicked while the default gatherer was locked,
default_registry() returned a registry without a receiver: every metric
registered from then on was dropped silently.
---
 src/registry.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index f4d640e..f9bd282 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -17,11 +17,9 @@ pub fn default_gatherer() -> &'static Mutex<Gatherer> {
 
 /// Returns the global default `Registry`.
 pub fn default_registry() -> Registry {
-    if let Ok(gatherer) = default_gatherer().lock() {
-        gatherer.registry()
-    } else {
-        let (tx, _) = mpsc::channel();
-        Registry { tx }
+    match default_gatherer().lock() {
+        Ok(gatherer) => gatherer.registry(),
+        Err(poisoned) => poisoned.into_inner().registry(),
     }
 }
 
-- 
2.43.0


From c65f76e2f312bcf9b22672daac1ec7aafc38a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 09/12] fix: escape label values and help texts as the text
 format requires

A line feed was written as an escaped backslash followed by `n`, and the
bucket and quantile lines used Rust's debug escapes, which the text format
does not know (\t, \u{..}, \').
---
 src/aggregated_metrics.rs | 4 ++--
 src/label.rs              | 2 +-
 src/metric.rs             | 2 +-
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index bec2f43..043fac2 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -224,7 +224,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", count, timestamp)?;
         }
@@ -360,7 +360,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/label.rs b/src/label.rs
index 344e731..f978089 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -101,7 +101,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
diff --git a/src/metric.rs b/src/metric.rs
index 8cff24b..5dc77c1 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -332,7 +332,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index d644a76..6c07f24 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -133,7 +133,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", count, timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 92b63bc..b3cec77 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -172,7 +172,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From 5a528375b8446d87c1c8d615375d0a8beed3031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 10/12] fix: merge buckets with equal upper bounds

Giving a bound twice (or +Inf, which is always present) made two buckets of
which one got all observations, and exposed the same series twice.
---
 src/metrics/histogram.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 6c07f24..9bbebd1 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -284,6 +284,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
-- 
2.43.0


From f04ea0136e85c0c6b1147e98090f286817dd3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 11/12] fix: merge only equal buckets of aggregated histograms

A bound of -Inf was taken for +Inf, which merged the first bucket of every
other histogram into it, and bounds closer than 2.2e-16 were taken as equal.
---
 src/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..6508594 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -133,7 +133,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
 
         for buckets in &mut self.iters {
             let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            if upper_bound == min {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From 3d301faa12777482c2440a1e602a27acbf4c3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 12/12] fix: drop repeated quantiles of a summary

Giving a quantile twice exposed the same series twice.
---
 src/metrics/summary.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index b3cec77..ba2648a 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -296,6 +296,7 @@ impl SummaryBuilder {
             .map(|quantile| track!(Quantile::new(*quantile)))
             .collect::<Result<Vec<_>>>())?;
         quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
+        quantiles.dedup();
         let inner = Inner {
             quantile_name,
             labels: Labels::new(labels),
-- 
2.43.0

