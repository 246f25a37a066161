From c6ba7616cacfbcb13a8929c6ac56f84fcd3d4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:05 +0000
Subject: [PATCH 01/30] hooks: observation points at the stage boundaries,
 behind the feature verif

---
 Cargo.toml                                    |   1 +
 src/lib.rs                                    |   4 +
 src/training/mod.rs                           |  25 ++
 src/training/node_estimation/mod.rs           |   3 +
 .../multi_kde/actors/helper.rs                |   3 +
 src/training/observe.rs                       | 229 ++++++++++++++++++
 src/training/rotation/mod.rs                  |   3 +
 src/training/rotation/pca/helper.rs           |   3 +
 src/training/rotation/pca/mod.rs              |   3 +
 src/training/scoring/helper.rs                |   3 +
 src/training/scoring/mod.rs                   |   7 +
 src/training/scoring/observe.rs               |  61 +++++
 src/verif.rs                                  |  78 ++++++
 13 files changed, 423 insertions(+)
 create mode 100644 src/training/observe.rs
 create mode 100644 src/training/scoring/observe.rs
 create mode 100644 src/verif.rs

diff --git a/Cargo.toml b/Cargo.toml
index af7a8d8..64d8bf7 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -29,6 +29,7 @@ doc = false
 
 [features]
 python = ["pyo3", "numpy"]
+verif = []
 
 [dev-dependencies]
 actix-rt = "2.9.0"
diff --git a/src/lib.rs b/src/lib.rs
index 44c1119..6b47e93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,10 @@ mod parameters;
 mod tests;
 mod training;
 mod utils;
+#[cfg(not(feature = "verif"))]
+mod verif;
+#[cfg(feature = "verif")]
+pub mod verif;
 
 mod interface;
 #[cfg(feature = "python")]
diff --git a/src/training/mod.rs b/src/training/mod.rs
index a2d4f9d..9b57e35 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -46,6 +46,7 @@ mod edge_estimation;
 mod intersection_calculation;
 mod messages;
 mod node_estimation;
+mod observe;
 mod rotation;
 mod scoring;
 mod segmentation;
@@ -174,6 +175,9 @@ impl Handler<DataLoadedAndProcessed> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: DataLoadedAndProcessed, _ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_data(&msg.dataset_stats, &msg.phase_space, &msg.data_ref);
+        }
         ConsoleLogger::new(6, 12, "Rotating Data".to_string()).print();
         self.dataset_stats = Some(msg.dataset_stats);
         self.rotate(msg.phase_space, msg.data_ref);
@@ -184,6 +188,9 @@ impl Handler<RotationDoneMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, _msg: RotationDoneMessage, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_points();
+        }
         ConsoleLogger::new(7, 12, "Segmenting Data".to_string()).print();
         self.data_manager.as_ref().unwrap().do_send(PoisonPill);
         self.data_manager = None;
@@ -196,6 +203,9 @@ impl Handler<SegmentedMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, _msg: SegmentedMessage, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_transitions();
+        }
         ConsoleLogger::new(8, 12, "Calculating Intersections".to_string()).print();
 
         self.calculate_intersections(ctx.address().recipient());
@@ -210,6 +220,9 @@ impl Handler<IntersectionCalculationDone> for Training {
         _msg: IntersectionCalculationDone,
         ctx: &mut Self::Context,
     ) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_intersections();
+        }
         ConsoleLogger::new(9, 12, "Estimating Nodes".to_string()).print();
 
         self.node_estimation.current_segment_id = num_integer::Integer::div_floor(
@@ -224,6 +237,9 @@ impl Handler<NodeEstimationDone> for Training {
     type Result = ();
 
     fn handle(&mut self, _msg: NodeEstimationDone, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_nodes();
+        }
         ConsoleLogger::new(10, 12, "Estimating Edges".to_string()).print();
 
         self.estimate_edges(ctx);
@@ -234,6 +250,9 @@ impl Handler<EdgeEstimationDone> for Training {
     type Result = ();
 
     fn handle(&mut self, _msg: EdgeEstimationDone, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_edges("edges");
+        }
         ConsoleLogger::new(11, 12, "Transpose Distributed Data".to_string()).print();
 
         self.scoring.node_degrees = self.calculate_node_degrees();
@@ -250,6 +269,9 @@ impl Handler<TranspositionDone> for Training {
     type Result = ();
 
     fn handle(&mut self, _msg: TranspositionDone, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_edges("transposed_edges");
+        }
         ConsoleLogger::new(12, 12, "Scoring".to_string()).print();
 
         self.init_scoring(ctx);
@@ -260,6 +282,9 @@ impl Handler<ScoringDone> for Training {
     type Result = ();
 
     fn handle(&mut self, _msg: ScoringDone, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_score();
+        }
         debug!(
             "score {}",
             self.scoring.score.as_ref().unwrap_or(&arr1(&[]))
diff --git a/src/training/node_estimation/mod.rs b/src/training/node_estimation/mod.rs
index 8bfb297..8b3f6bd 100644
--- a/src/training/node_estimation/mod.rs
+++ b/src/training/node_estimation/mod.rs
@@ -228,6 +228,9 @@ impl Handler<ClusteringResponse<f32>> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: ClusteringResponse<f32>, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_clustering(&msg.labels, &msg.cluster_centers);
+        }
         if !msg.labels.is_empty() {
             let current_intersections = self.node_estimation.current_intersections.clone();
             self.node_estimation.current_intersections.clear();
diff --git a/src/training/node_estimation/multi_kde/actors/helper.rs b/src/training/node_estimation/multi_kde/actors/helper.rs
index f8e235f..1f1c6b6 100644
--- a/src/training/node_estimation/multi_kde/actors/helper.rs
+++ b/src/training/node_estimation/multi_kde/actors/helper.rs
@@ -94,6 +94,9 @@ impl Handler<EstimatorTask> for EstimatorHelper {
     type Result = ();
 
     fn handle(&mut self, msg: EstimatorTask, _ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            crate::verif::perturb("kde_helper");
+        }
         let estimate = self.evaluate(msg.data_range);
         self.receiver
             .do_send(EstimatorResponse { estimate });
diff --git a/src/training/observe.rs b/src/training/observe.rs
new file mode 100644
index 0000000..4fae915
--- /dev/null
+++ b/src/training/observe.rs
@@ -0,0 +1,229 @@
+//! Copies the state of the training out at the stage boundaries, for runtime monitoring.
+//! Only ever called if the feature `verif` is enabled.
+use ndarray::{ArcArray, Array2, Array3, Ix3};
+
+use crate::data_manager::DatasetStats;
+use crate::data_store::transition::TransitionMixin;
+use crate::training::Training;
+use crate::verif::{array, emit, float_rows, index, index_rows, perturb};
+
+impl Training {
+    fn observed_node(&self) -> (&'static str, crate::verif::Value) {
+        ("node", index(vec![self.cluster_nodes.get_own_idx()]))
+    }
+
+    pub(crate) fn observe_data(
+        &self,
+        stats: &DatasetStats,
+        phase_space: &ArcArray<f32, Ix3>,
+        data_ref: &ArcArray<f32, Ix3>,
+    ) {
+        let mut fields = vec![
+            self.observed_node(),
+            ("phase_space", array(phase_space)),
+            ("data_ref", array(data_ref)),
+            ("n", index(stats.n)),
+        ];
+        if let (Some(min), Some(max), Some(std)) = (&stats.min_col, &stats.max_col, &stats.std_col)
+        {
+            fields.push(("min", array(min)));
+            fields.push(("max", array(max)));
+            fields.push(("std", array(std)));
+        }
+        emit("data", fields);
+        perturb("data");
+    }
+
+    pub(crate) fn observe_pca(&self, components: &Array2<f32>, means: &ndarray::Array1<f32>) {
+        emit(
+            "pca",
+            vec![
+                self.observed_node(),
+                ("components", array(components)),
+                ("means", array(means)),
+            ],
+        );
+        perturb("pca");
+    }
+
+    pub(crate) fn observe_rotation_matrix(&self, matrix: &Array3<f32>) {
+        emit(
+            "rotation_matrix",
+            vec![self.observed_node(), ("matrix", array(matrix))],
+        );
+        perturb("rotation_matrix");
+    }
+
+    pub(crate) fn observe_points(&self) {
+        let points: Vec<_> = self.data_store.get_points();
+        let dims = points.first().map(|p| p.get_dims()).unwrap_or(0);
+        emit(
+            "points",
+            vec![
+                self.observed_node(),
+                ("id", index(points.iter().map(|p| p.get_id()))),
+                ("segment", index(points.iter().map(|p| p.get_segment()))),
+                (
+                    "coords",
+                    float_rows(
+                        dims,
+                        points.iter().flat_map(|p| p.clone_coordinates().to_vec()),
+                    ),
+                ),
+            ],
+        );
+        perturb("points");
+    }
+
+    pub(crate) fn observe_transitions(&self) {
+        let transitions = self.data_store.get_transitions();
+        let dims = transitions
+            .first()
+            .map(|t| t.get_from_point().get_dims())
+            .unwrap_or(0);
+        emit(
+            "transitions",
+            vec![
+                self.observed_node(),
+                (
+                    "ids",
+                    index_rows(
+                        4,
+                        transitions.iter().flat_map(|t| {
+                            vec![
+                                t.get_from_point().get_id(),
+                                t.get_to_point().get_id(),
+                                t.get_from_point().get_segment(),
+                                t.get_to_point().get_segment(),
+                            ]
+                        }),
+                    ),
+                ),
+                (
+                    "from",
+                    float_rows(
+                        dims,
+                        transitions
+                            .iter()
+                            .flat_map(|t| t.get_from_point().clone_coordinates().to_vec()),
+                    ),
+                ),
+                (
+                    "to",
+                    float_rows(
+                        dims,
+                        transitions
+                            .iter()
+                            .flat_map(|t| t.get_to_point().clone_coordinates().to_vec()),
+                    ),
+                ),
+            ],
+        );
+        perturb("transitions");
+    }
+
+    pub(crate) fn observe_intersections(&self) {
+        for segment in 0..self.parameters.rate {
+            if let Some(intersections) = self.data_store.get_intersections_from_segment(segment) {
+                let dims = intersections
+                    .first()
+                    .map(|i| i.get_coordinates().len())
+                    .unwrap_or(0);
+                emit(
+                    "intersections",
+                    vec![
+                        self.observed_node(),
+                        ("segment", index(vec![segment])),
+                        (
+                            "from_id",
+                            index(intersections.iter().map(|i| i.get_from_id())),
+                        ),
+                        (
+                            "coords",
+                            float_rows(
+                                dims,
+                                intersections
+                                    .iter()
+                                    .flat_map(|i| i.get_coordinates().to_vec()),
+                            ),
+                        ),
+                    ],
+                );
+            }
+        }
+        emit("intersections_done", vec![self.observed_node()]);
+        perturb("intersections");
+    }
+
+    pub(crate) fn observe_clustering(&self, labels: &[usize], centers: &Array2<f32>) {
+        if !labels.is_empty() {
+            emit(
+                "clustering",
+                vec![
+                    self.observed_node(),
+                    (
+                        "segment",
+                        index(vec![self.node_estimation.current_segment_id]),
+                    ),
+                    ("labels", index(labels.iter().copied())),
+                    ("centers", array(centers)),
+                ],
+            );
+        }
+        perturb("clustering");
+    }
+
+    pub(crate) fn observe_nodes(&self) {
+        let n = self.dataset_stats.as_ref().and_then(|s| s.n).unwrap_or(0);
+        let nodes = (0..n)
+            .filter_map(|point_id| self.data_store.get_nodes_by_point_id(point_id))
+            .flatten()
+            .flat_map(|node| {
+                vec![
+                    node.get_segment_id(),
+                    node.get_cluster(),
+                    node.get_from_id(),
+                ]
+            });
+        emit(
+            "nodes",
+            vec![self.observed_node(), ("nodes", index_rows(3, nodes))],
+        );
+        perturb("nodes");
+    }
+
+    pub(crate) fn observe_edges(&self, name: &'static str) {
+        let edges = self.data_store.get_edges();
+        emit(
+            name,
+            vec![
+                self.observed_node(),
+                (
+                    "edges",
+                    index_rows(
+                        6,
+                        edges.iter().flat_map(|edge| {
+                            let (from, to) = (edge.get_from_node(), edge.get_to_node());
+                            vec![
+                                from.get_segment_id(),
+                                from.get_cluster(),
+                                from.get_from_id(),
+                                to.get_segment_id(),
+                                to.get_cluster(),
+                                to.get_from_id(),
+                            ]
+                        }),
+                    ),
+                ),
+            ],
+        );
+        perturb(name);
+    }
+
+    pub(crate) fn observe_score(&self) {
+        if let Some(score) = &self.scoring.score {
+            emit("score", vec![self.observed_node(), ("score", array(score))]);
+        }
+        perturb("score");
+    }
+}
diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index a604255..1c3679c 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -264,6 +264,9 @@ impl Handler<RotationMatrixMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: RotationMatrixMessage, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_rotation_matrix(&msg.rotation_matrix);
+        }
         if !self.rotation.broadcasted {
             self.rotation.rotation_matrix_buffer = Some(msg);
             return;
diff --git a/src/training/rotation/pca/helper.rs b/src/training/rotation/pca/helper.rs
index 9b93b3e..3b23ae5 100644
--- a/src/training/rotation/pca/helper.rs
+++ b/src/training/rotation/pca/helper.rs
@@ -157,6 +157,9 @@ impl Handler<PCAHelperMessage> for PCAHelper {
     type Result = ();
 
     fn handle(&mut self, msg: PCAHelperMessage, _ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            crate::verif::perturb("pca_helper");
+        }
         if let PCAHelperMessage::Setup { neighbors, data } = msg {
             self.neighbors.extend(neighbors);
             self.data = Some(data);
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 8b43799..55039da 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -306,6 +306,9 @@ impl Handler<PCAComponents> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: PCAComponents, ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            self.observe_pca(&msg.components, &msg.means);
+        }
         self.rotation.pca.components = Some(msg.clone().components);
         self.rotation.pca.global_means = Some(msg.means.clone());
         match &self.rotation.pca.recipient {
diff --git a/src/training/scoring/helper.rs b/src/training/scoring/helper.rs
index 619dee8..7120365 100644
--- a/src/training/scoring/helper.rs
+++ b/src/training/scoring/helper.rs
@@ -43,6 +43,9 @@ impl Handler<ScoringHelperInstruction> for ScoringHelper {
     type Result = ();
 
     fn handle(&mut self, msg: ScoringHelperInstruction, _ctx: &mut Self::Context) -> Self::Result {
+        if cfg!(feature = "verif") {
+            crate::verif::perturb("scoring_helper");
+        }
         let mut single_scores: Vec<f32> = vec![];
         let mut first_empty = false;
 
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e70537d..3db689e 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -1,5 +1,6 @@
 mod helper;
 pub mod messages;
+mod observe;
 pub mod overlap;
 #[cfg(test)]
 mod tests;
@@ -79,6 +80,9 @@ impl Scorer for Training {
     }
 
     fn score(&mut self, ctx: &mut Context<Training>) {
+        if cfg!(feature = "verif") {
+            self.observe_scoring_inputs();
+        }
         if self.scoring.edges_in_time.len() < (self.parameters.query_length - 1) {
             panic!("There are less edges than the given 'query_length'!");
         }
@@ -156,6 +160,9 @@ impl Scorer for Training {
     }
 
     fn finalize_parallel_score(&mut self, ctx: &mut Context<Training>) {
+        if cfg!(feature = "verif") {
+            self.observe_raw_scores();
+        }
         self.scoring.helpers.as_ref().unwrap().do_send(PoisonPill);
         let mut scores: Array1<f32> = self.scoring.single_scores.clone().into_iter().collect();
         self.scoring.single_scores.clear();
diff --git a/src/training/scoring/observe.rs b/src/training/scoring/observe.rs
new file mode 100644
index 0000000..292e1d7
--- /dev/null
+++ b/src/training/scoring/observe.rs
@@ -0,0 +1,61 @@
+//! Copies the inputs and the unnormalised results of the scoring out, for runtime monitoring.
+//! Only ever called if the feature `verif` is enabled.
+use crate::training::Training;
+use crate::verif::{emit, float_rows, index, index_rows, perturb};
+
+impl Training {
+    pub(crate) fn observe_scoring_inputs(&self) {
+        self.observe_edges("scoring_edges");
+        emit(
+            "scoring_inputs",
+            vec![
+                ("node", index(vec![self.cluster_nodes.get_own_idx()])),
+                (
+                    "edges_in_time",
+                    index(self.scoring.edges_in_time.iter().copied()),
+                ),
+                (
+                    "weights",
+                    index_rows(
+                        5,
+                        self.scoring.edge_weight.iter().flat_map(|(edge, weight)| {
+                            let (from, to) = (edge.get_from_node(), edge.get_to_node());
+                            vec![
+                                from.get_segment_id(),
+                                from.get_cluster(),
+                                to.get_segment_id(),
+                                to.get_cluster(),
+                                *weight,
+                            ]
+                        }),
+                    ),
+                ),
+                (
+                    "degrees",
+                    index_rows(
+                        3,
+                        self.scoring.node_degrees.iter().flat_map(|(node, degree)| {
+                            vec![node.get_segment_id(), node.get_cluster(), *degree]
+                        }),
+                    ),
+                ),
+            ],
+        );
+        perturb("scoring_inputs");
+    }
+
+    pub(crate) fn observe_raw_scores(&self) {
+        emit(
+            "raw_scores",
+            vec![
+                ("node", index(vec![self.cluster_nodes.get_own_idx()])),
+                ("first_empty", index(vec![self.scoring.first_empty as usize])),
+                (
+                    "scores",
+                    float_rows(1, self.scoring.single_scores.iter().copied()),
+                ),
+            ],
+        );
+        perturb("raw_scores");
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..a01b772
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,78 @@
+//! Observation points for runtime monitoring.
+//!
+//! Every call site is guarded by `cfg!(feature = "verif")`; without that feature nothing in here
+//! is ever executed. The module only copies values out, it never influences the computation.
+#![cfg_attr(not(feature = "verif"), allow(dead_code))]
+
+use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::{Arc, Mutex, RwLock};
+
+/// A plain copy of some observed array together with its shape.
+#[derive(Clone, Debug)]
+pub enum Value {
+    Float(Vec<usize>, Vec<f32>),
+    Index(Vec<usize>, Vec<u64>),
+}
+
+/// One observation at a stage boundary.
+#[derive(Clone, Debug)]
+pub struct Event {
+    pub seq: u64,
+    pub name: &'static str,
+    pub fields: Vec<(&'static str, Value)>,
+}
+
+type Sink = Box<dyn FnMut(Event) + Send>;
+type Perturb = Arc<dyn Fn(&'static str) + Send + Sync>;
+
+static SEQ: AtomicU64 = AtomicU64::new(0);
+static SINK: Mutex<Option<Sink>> = Mutex::new(None);
+static PERTURB: RwLock<Option<Perturb>> = RwLock::new(None);
+
+/// Registers the function that receives all observations of this process.
+pub fn set_sink(sink: impl FnMut(Event) + Send + 'static) {
+    *SINK.lock().unwrap() = Some(Box::new(sink));
+}
+
+/// Registers a function that is called wherever a delay may be injected.
+pub fn set_perturb(perturb: impl Fn(&'static str) + Send + Sync + 'static) {
+    *PERTURB.write().unwrap() = Some(Arc::new(perturb));
+}
+
+pub(crate) fn emit(name: &'static str, fields: Vec<(&'static str, Value)>) {
+    if let Some(sink) = SINK.lock().unwrap().as_mut() {
+        let seq = SEQ.fetch_add(1, Ordering::SeqCst);
+        sink(Event { seq, name, fields });
+    }
+}
+
+pub(crate) fn perturb(site: &'static str) {
+    let perturb = PERTURB.read().unwrap().clone();
+    if let Some(perturb) = perturb {
+        perturb(site);
+    }
+}
+
+pub(crate) fn index(data: impl IntoIterator<Item = usize>) -> Value {
+    let data: Vec<u64> = data.into_iter().map(|x| x as u64).collect();
+    Value::Index(vec![data.len()], data)
+}
+
+pub(crate) fn index_rows(width: usize, data: impl IntoIterator<Item = usize>) -> Value {
+    let data: Vec<u64> = data.into_iter().map(|x| x as u64).collect();
+    Value::Index(vec![data.len() / width, width], data)
+}
+
+pub(crate) fn float_rows(width: usize, data: impl IntoIterator<Item = f32>) -> Value {
+    let data: Vec<f32> = data.into_iter().collect();
+    let rows = if width == 0 { 0 } else { data.len() / width };
+    Value::Float(vec![rows, width], data)
+}
+
+pub(crate) fn array<S, D>(array: &ndarray::ArrayBase<S, D>) -> Value
+where
+    S: ndarray::Data<Elem = f32>,
+    D: ndarray::Dimension,
+{
+    Value::Float(array.shape().to_vec(), array.iter().copied().collect())
+}
-- 
2.43.0


From ded09b5f9f7425c5b4e8b382b4a870d19004d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:33 +0000
Subject: [PATCH 02/30] hooks: observe the points once more after the
 segmentation

---
 src/training/mod.rs     | 3 ++-
 src/training/observe.rs | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/training/mod.rs b/src/training/mod.rs
index 9b57e35..df00a9b 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -189,7 +189,7 @@ impl Handler<RotationDoneMessage> for Training {
 
     fn handle(&mut self, _msg: RotationDoneMessage, ctx: &mut Self::Context) -> Self::Result {
         if cfg!(feature = "verif") {
-            self.observe_points();
+            self.observe_points("points");
         }
         ConsoleLogger::new(7, 12, "Segmenting Data".to_string()).print();
         self.data_manager.as_ref().unwrap().do_send(PoisonPill);
@@ -204,6 +204,7 @@ impl Handler<SegmentedMessage> for Training {
 
     fn handle(&mut self, _msg: SegmentedMessage, ctx: &mut Self::Context) -> Self::Result {
         if cfg!(feature = "verif") {
+            self.observe_points("segmented_points");
             self.observe_transitions();
         }
         ConsoleLogger::new(8, 12, "Calculating Intersections".to_string()).print();
diff --git a/src/training/observe.rs b/src/training/observe.rs
index 4fae915..020ea63 100644
--- a/src/training/observe.rs
+++ b/src/training/observe.rs
@@ -54,11 +54,11 @@ impl Training {
         perturb("rotation_matrix");
     }
 
-    pub(crate) fn observe_points(&self) {
+    pub(crate) fn observe_points(&self, name: &'static str) {
         let points: Vec<_> = self.data_store.get_points();
         let dims = points.first().map(|p| p.get_dims()).unwrap_or(0);
         emit(
-            "points",
+            name,
             vec![
                 self.observed_node(),
                 ("id", index(points.iter().map(|p| p.get_id()))),
@@ -72,7 +72,7 @@ impl Training {
                 ),
             ],
         );
-        perturb("points");
+        perturb(name);
     }
 
     pub(crate) fn observe_transitions(&self) {
-- 
2.43.0


From 5914e1def3e5cd66874660266925059e51a28ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:33 +0000
Subject: [PATCH 03/30] fix: connect the nodes of a very first transition that
 passes the last segment

---
 src/training/edge_estimation/edges_orderer.rs | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/training/edge_estimation/edges_orderer.rs b/src/training/edge_estimation/edges_orderer.rs
index fabffb7..5fa34ca 100644
--- a/src/training/edge_estimation/edges_orderer.rs
+++ b/src/training/edge_estimation/edges_orderer.rs
@@ -49,11 +49,13 @@ impl EdgesOrderer {
                 Some(first_edge) => first_edge.get_from_node(),
                 None => previous_node.clone(),
             });
-            if let Some(previous_transition_node) = &self.previous_transition_node {
-                self.edges_large.push(Edge::new(
+            match &self.previous_transition_node {
+                Some(previous_transition_node) => self.edges_large.push(Edge::new(
                     previous_transition_node.clone(),
                     current_node.clone(),
-                ));
+                )),
+                // the very first transition starts here, so no edge leads to this node
+                None => self.first_node = Some(current_node.clone()),
             }
             true
         } else {
@@ -85,12 +87,13 @@ impl EdgesOrderer {
     pub fn into_vec(mut self) -> Vec<Edge> {
         match &self.middle_node {
             Some(middle_node) => {
-                let previous_node = self
-                    .edges_large
-                    .last()
-                    .as_ref()
-                    .expect("Should be filled, we have a middle_node!")
-                    .get_to_node();
+                let previous_node = match self.edges_large.last() {
+                    Some(edge) => edge.get_to_node(),
+                    None => self
+                        .first_node
+                        .clone()
+                        .expect("Should be filled, we have a middle_node!"),
+                };
                 let connecting_edge = Edge::new(previous_node, middle_node.clone());
                 self.push(connecting_edge);
 
-- 
2.43.0


From 4308d2eb1f4786563e99061dc5b902439d558b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:03 +0000
Subject: [PATCH 04/30] fix: keep the path order of a transition's edges when
 they are redistributed

---
 src/data_store/mod.rs             | 32 +++++++++++++++++++++++++++++++
 src/training/transposition/mod.rs |  2 +-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 0d8d795..d49faae 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -193,6 +193,38 @@ impl DataStore {
             .sort_by(|edge_a, edge_b| edge_a.get_to_id().partial_cmp(&edge_b.get_to_id()).unwrap());
     }
 
+    /// Sorts the edges along the path of the time series. Edges with the same target point belong
+    /// to one transition and come, in general, from several cluster nodes. They are put into the
+    /// order in which the transition passes the segments.
+    pub fn sort_edges_along_path(&mut self, n_segments: usize) {
+        self.sort_edges();
+        for edges in self
+            .edges
+            .chunk_by_mut(|edge_a, edge_b| edge_a.get_to_id().eq(&edge_b.get_to_id()))
+        {
+            let is_inner = |edge: &EdgeRef| edge.get_from_node().get_from_id().eq(&edge.get_to_id());
+            let from_segment = |edge: &EdgeRef| edge.get_from_node().get_segment_id();
+            let to_segment = |edge: &EdgeRef| edge.get_to_node().get_segment_id();
+
+            let first_segment = match edges.iter().find(|edge| !is_inner(edge)) {
+                Some(entering_edge) => to_segment(entering_edge),
+                None => edges
+                    .iter()
+                    .map(from_segment)
+                    .find(|segment| edges.iter().all(|edge| to_segment(edge).ne(segment)))
+                    .unwrap_or(0),
+            };
+
+            edges.sort_by_key(|edge| {
+                if is_inner(edge) {
+                    1 + (from_segment(edge) + n_segments - first_segment) % n_segments
+                } else {
+                    0
+                }
+            });
+        }
+    }
+
     // --- Misc
 
     pub fn wipe_graph(&mut self) -> Vec<MaterializedEdge> {
diff --git a/src/training/transposition/mod.rs b/src/training/transposition/mod.rs
index 9b48be1..7dca116 100644
--- a/src/training/transposition/mod.rs
+++ b/src/training/transposition/mod.rs
@@ -93,7 +93,7 @@ impl Transposer for Training {
     }
 
     fn transpose_finalize(&mut self, ctx: &mut Context<Training>) {
-        self.data_store.sort_edges();
+        self.data_store.sort_edges_along_path(self.parameters.rate);
         ctx.address().do_send(TranspositionDone);
     }
 }
-- 
2.43.0


From 5fa354ed9fdf7c02796e6fd63f26cd04ab430914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:18 +0000
Subject: [PATCH 05/30] fix: hand over the edge that follows on the overlap
 with the previous cluster node

---
 src/data_store/mod.rs           | 4 ++++
 src/training/scoring/overlap.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index d49faae..03bc1c2 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -184,6 +184,10 @@ impl DataStore {
         self.edges.to_vec()
     }
 
+    pub fn count_edges(&self) -> usize {
+        self.edges.len()
+    }
+
     pub fn slice_edges(&self, range: Range<usize>) -> Iter<'_, EdgeRef> {
         self.edges[range].iter()
     }
diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 09798e7..30c90d2 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -11,7 +11,12 @@ pub(crate) trait ScoringOverlap {
 
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
-        let to_edge_idx = self.scoring.edges_in_time[self.parameters.query_length - 1];
+        // a query also covers the edge that follows on its last point
+        let n_edges = match self.parameters.query_length.checked_sub(2) {
+            Some(last_point) => self.scoring.edges_in_time[last_point],
+            None => 0,
+        };
+        let to_edge_idx = (n_edges + 1).min(self.data_store.count_edges());
         let overlap = self
             .data_store
             .slice_edges(0..to_edge_idx)
-- 
2.43.0


From fe5cd3931271db92e258358756b9ec17b7d9870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:44 +0000
Subject: [PATCH 06/30] fix: wait for the means of all cluster nodes and keep
 early messages in the distributed PCA

---
 src/training/rotation/mod.rs     |  2 +-
 src/training/rotation/pca/mod.rs | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index 1c3679c..d0c4b8b 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -48,7 +48,7 @@ impl Rotator for Training {
         self.rotation.reduced = Some(reduced);
         self.rotation.reduced_ref = Some(reduced_ref);
 
-        self.rotation.pca = PCA::new(self.cluster_nodes.get_own_idx(), 3);
+        self.rotation.pca.reset(self.cluster_nodes.get_own_idx(), 3);
         self.run_pca();
     }
 
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 55039da..7982613 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -46,7 +46,16 @@ impl PCA {
     }
 
     pub fn clear(&mut self) {
-        *self = Self::new(self.id, self.n_components);
+        self.reset(self.id, self.n_components);
+    }
+
+    /// Starts over, but keeps the messages that other cluster nodes already sent for what's next.
+    pub fn reset(&mut self, id: usize, n_components: usize) {
+        *self = PCA {
+            buffer: std::mem::take(&mut self.buffer),
+            means_buffer: std::mem::take(&mut self.means_buffer),
+            ..Self::new(id, n_components)
+        };
     }
 }
 
@@ -57,6 +66,7 @@ pub trait PCAnalyzer {
     fn center_columns_decomposition(&mut self);
     fn helper_center_columns_decomposition(&mut self);
     fn send_to_main(&mut self);
+    fn has_all_means(&self) -> bool;
     fn next_2_power(&mut self) -> usize;
     fn send_to_neighbor_or_finalize(&mut self);
     fn combine_remote_r(&mut self, remote_r: Array2<f32>);
@@ -111,6 +121,8 @@ impl PCAnalyzer for Training {
 
         self.send_to_main();
         self.send_to_neighbor_or_finalize();
+        self.resolve_buffer();
+        self.resolve_means_buffer();
     }
 
     fn helper_center_columns_decomposition(&mut self) {
@@ -155,6 +167,11 @@ impl PCAnalyzer for Training {
         }
     }
 
+    fn has_all_means(&self) -> bool {
+        let n_means = self.rotation.pca.n.as_ref().map(|n| n.len());
+        n_means.eq(&Some(self.cluster_nodes.len_incl_own()))
+    }
+
     fn next_2_power(&mut self) -> usize {
         let len = self.cluster_nodes.len_incl_own();
         2_i32.pow((len as f32).log2().ceil() as u32) as usize
@@ -183,7 +200,7 @@ impl PCAnalyzer for Training {
         {
             self.rotation.pca.r_count += 1;
             self.send_to_neighbor_or_finalize()
-        } else if id == 0 && threshold == 0 {
+        } else if id == 0 && threshold == 0 && self.has_all_means() {
             self.finalize()
         }
     }
@@ -271,7 +288,7 @@ impl Handler<PCAMeansMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: PCAMeansMessage, _ctx: &mut Self::Context) -> Self::Result {
-        if self.rotation.pca.column_means.is_some() {
+        if self.rotation.pca.column_means.is_some() && !self.has_all_means() {
             self.rotation.pca.column_means = Some(concatenate![
                 Axis(0),
                 self.rotation.pca.column_means.as_ref().unwrap().clone(),
@@ -282,6 +299,7 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            self.send_to_neighbor_or_finalize();
         } else {
             self.rotation.pca.means_buffer.push(msg);
         }
-- 
2.43.0


From 0f0d498a52da6ce3c34e8081156200425b0d873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:29 +0000
Subject: [PATCH 07/30] fix: connect the transitions of neighbouring cluster
 nodes, whenever their messages arrive

---
 src/training/segmentation/messages.rs |   5 +-
 src/training/segmentation/mod.rs      | 118 +++++++++++++++-----------
 2 files changed, 71 insertions(+), 52 deletions(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index a3c037c..adac336 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -9,10 +9,11 @@ pub struct SegmentMessage {
     pub(crate) segments: Vec<MaterializedTransition>,
 }
 
-#[derive(RemoteMessage, Serialize, Deserialize)]
+#[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
-    pub(crate) transition: MaterializedTransition,
+    /// the first transition from this point on, if there is any
+    pub(crate) transition: Option<MaterializedTransition>,
 }
 
 #[derive(Message)]
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a5c3f60..e32b42b 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -28,6 +28,9 @@ pub(crate) struct Segmentation {
     pub send_transition: Option<MaterializedTransition>,
     pub last_point: Option<Point>,
     pub last_transition: Option<Transition>,
+    /// own segments are built and only the first point of the next cluster node is missing
+    waiting_for_first_point: bool,
+    first_point_buffer: Option<SendFirstPointMessage>,
     direct_protocol: DirectProtocol<SegmentMessage>,
     /// {cluster node id (answering): {cluster node id (asking): \[NodeInQuestion\]}}
     pub node_questions: NodeQuestions,
@@ -68,6 +71,7 @@ pub(crate) trait Segmenter {
         to_node_id: usize,
     );
     fn try_send_inter_node_points(&mut self) -> bool;
+    fn send_first_point(&mut self);
     fn distribute_segments(&mut self, foreign_data: TransitionsForNodes);
     fn self_correction(
         &mut self,
@@ -97,6 +101,10 @@ impl Segmenter for Training {
         let wait_for_points = self.try_send_inter_node_points();
         if wait_for_points {
             self.segmentation.transitions_for_nodes = node_transitions;
+            self.segmentation.waiting_for_first_point = true;
+            if let Some(msg) = self.segmentation.first_point_buffer.take() {
+                ctx.address().do_send(msg);
+            }
         } else {
             // if no other cluster node exists (i.e. local only)
             self.segmentation
@@ -243,28 +251,22 @@ impl Segmenter for Training {
     }
 
     fn try_send_inter_node_points(&mut self) -> bool {
-        let point = self.segmentation.send_point.take();
-        let transition = self.segmentation.send_transition.take();
-        match self.cluster_nodes.get_previous_idx() {
-            Some(prev_idx) => {
-                if let (Some(point), Some(transition)) = (point, transition) {
-                    self.cluster_nodes
-                        .get_as(&prev_idx, "Training")
-                        .unwrap()
-                        .do_send(SendFirstPointMessage { point, transition });
-                }
+        // last cluster node does not receive a SendFirstPointMessage
+        let is_last = self.cluster_nodes.get_own_idx().eq(&self.cluster_nodes.len());
+        // without any own transition, it's the one of the next cluster node that must be sent
+        if is_last || self.segmentation.send_transition.is_some() {
+            self.send_first_point();
+        }
+        !is_last
+    }
 
-                let own_id = self.cluster_nodes.get_own_idx();
-                own_id.ne(&self.cluster_nodes.len()) // last cluster node does not receive a SendFirstPointMessage
-            }
-            None => {
-                // local only case
-                assert!(
-                    self.segmentation.send_point.is_none(),
-                    "This should be empty, because there are no other cluster nodes!"
-                );
-                false
-            }
+    fn send_first_point(&mut self) {
+        let transition = self.segmentation.send_transition.take();
+        if let Some(point) = self.segmentation.send_point.take() {
+            self.cluster_nodes
+                .get_prev_as("Training")
+                .expect("There should be a previous cluster node to send the point to!")
+                .do_send(SendFirstPointMessage { point, transition });
         }
     }
 
@@ -300,11 +302,11 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .resolve_buffer(ctx.address().recipient());
-                let transition_count = self.data_store.count_transitions()
-                    + node_transitions
-                        .iter()
-                        .map(|(_segment, transitions)| transitions.len())
-                        .sum::<usize>();
+                // own transitions are among the node transitions
+                let transition_count = node_transitions
+                    .iter()
+                    .map(|(_segment, transitions)| transitions.len())
+                    .sum::<usize>();
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
@@ -386,11 +388,18 @@ impl Handler<SendFirstPointMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: SendFirstPointMessage, ctx: &mut Self::Context) -> Self::Result {
+        if !self.segmentation.waiting_for_first_point {
+            self.segmentation.first_point_buffer = Some(msg);
+            return;
+        }
+        self.segmentation.waiting_for_first_point = false;
+
         let spanning_transition = Transition::new(
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.clone();
+        let next_transition = msg.transition;
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -399,8 +408,9 @@ impl Handler<SendFirstPointMessage> for Training {
             let from_node_id =
                 self.segment_id_to_assignment(spanning_transition.get_from_segment());
             let to_node_id = self.segment_id_to_assignment(spanning_transition.get_to_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
+            let last_to_node_id = last_transition
+                .as_ref()
+                .map(|last| self.segment_id_to_assignment(last.get_to_segment()));
 
             if from_node_id == self.cluster_nodes.get_own_idx() {
                 // normal transition
@@ -408,40 +418,48 @@ impl Handler<SendFirstPointMessage> for Training {
             }
 
             self.find_splits(
-                Some(last_transition),
-                Some(last_transition_to_cluster_id),
+                last_transition,
+                last_to_node_id,
                 &spanning_transition,
                 from_node_id,
                 to_node_id,
             );
 
-            match self
-                .segmentation
+            self.segmentation
                 .transitions_for_nodes
-                .get_mut(&from_node_id)
-            {
-                Some(foreign_data) => foreign_data.push(spanning_transition.materialize()),
-                None => {
-                    self.segmentation
-                        .transitions_for_nodes
-                        .insert(from_node_id, vec![spanning_transition.materialize()]);
-                }
+                .entry(from_node_id)
+                .or_default()
+                .push(spanning_transition.materialize());
+
+            if self.segmentation.last_transition.is_none() {
+                self.segmentation.send_transition = Some(spanning_transition.materialize());
             }
-        } else {
-            let transition = msg.transition.into_transition();
-            let transition_from_cluster_id =
-                self.segment_id_to_assignment(transition.get_from_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
+            last_transition = Some(spanning_transition);
+        } else if last_transition.is_none() {
+            self.segmentation.send_transition = next_transition.clone();
+        }
 
-            self.search_split_between_transitions(
+        // the first transition of the next cluster node continues our last one
+        if let (Some(last_transition), Some(transition)) = (last_transition, next_transition)
+        {
+            let transition = transition.into_transition();
+            let last_to_node_id = self.segment_id_to_assignment(last_transition.get_to_segment());
+            let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+            let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+
+            self.find_splits(
                 Some(last_transition),
+                Some(last_to_node_id),
                 &transition,
-                transition_from_cluster_id,
-                last_transition_to_cluster_id,
+                from_node_id,
+                to_node_id,
             );
         }
 
+        if self.segmentation.send_point.is_some() {
+            self.send_first_point();
+        }
+
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
         self.segmentation
-- 
2.43.0


From 8ef86205fd8cfe80ee0e6d1771af97a6d58c318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:56 +0000
Subject: [PATCH 08/30] fix: give equal scores instead of NaN or a panic when
 no query differs

---
 src/training/scoring/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 3db689e..2640da5 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -197,9 +197,13 @@ impl Scorer for Training {
     fn normalize_score(&mut self, scores: &mut Array1<f32>) {
         let all_score_max = *scores.max().unwrap();
         let all_score_min = *scores.min().unwrap();
+        let range = match all_score_max - all_score_min {
+            range if range > 0.0 => range,
+            _ => 1.0, // all scores are equal
+        };
         *scores = scores
             .into_iter()
-            .map(|x| (*x - all_score_min) / (all_score_max - all_score_min))
+            .map(|x| (*x - all_score_min) / range)
             .collect();
     }
 
@@ -213,11 +217,13 @@ impl Scorer for Training {
                     .remove(&cluster_node_id)
                     .expect("A subscore is missing!");
                 if first_empty {
-                    let last_score = scores
-                        .last()
-                        .expect("First cannot be empty if it's the first overall score point!");
-
-                    fill_up_first_missing_points(&mut sub_score, last_score[last_score.len() - 1]);
+                    // without any edge up to here there is no last score to continue
+                    if let Some(last_score) = scores.last() {
+                        fill_up_first_missing_points(
+                            &mut sub_score,
+                            last_score[last_score.len() - 1],
+                        );
+                    }
                 }
                 scores.push(sub_score);
             }
-- 
2.43.0


From 215263a4afeb2744c91a5230bb5ce381551cb5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:53 +0000
Subject: [PATCH 09/30] fix: keep the order of rotating messages that arrive
 before a cluster node is ready

---
 src/training/scoring/mod.rs      | 16 +++++++++++-----
 src/training/scoring/weights.rs  | 20 +++++++-------------
 src/training/segmentation/mod.rs |  6 +++---
 src/utils/rotation_protocol.rs   | 14 ++++++--------
 4 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 2640da5..03922b1 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -71,8 +71,14 @@ impl Scorer for Training {
         self.scoring.edge_weight = self.calculate_edge_weight();
 
         if self.cluster_nodes.len() > 0 {
-            self.start_node_degrees_rotation(ctx);
-            self.start_edge_weight_rotation(ctx);
+            self.start_node_degrees_rotation();
+            self.start_edge_weight_rotation();
+            for msg in self.scoring.node_degrees_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
+            for msg in self.scoring.edge_weight_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             // non-distributed
             self.score(ctx);
@@ -172,9 +178,6 @@ impl Scorer for Training {
             self.scoring
                 .score_rotation_protocol
                 .start(self.cluster_nodes.len());
-            self.scoring
-                .score_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
             self.scoring
                 .subscores
                 .insert(own_idx, (scores.clone(), self.scoring.first_empty));
@@ -187,6 +190,9 @@ impl Scorer for Training {
                     first_empty: self.scoring.first_empty,
                 });
             self.scoring.score_rotation_protocol.sent();
+            for msg in self.scoring.score_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             self.normalize_score(&mut scores);
             self.scoring.score = Some(scores);
diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index b40a767..dbe461b 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -13,8 +13,8 @@ pub(crate) trait ScoringWeights {
     fn count_edges_in_time(&mut self) -> Vec<usize>;
     fn calculate_edge_weight(&mut self) -> HashMap<MaterializedEdge, usize>;
     fn calculate_node_degrees(&mut self) -> HashMap<NodeRef, usize>;
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>);
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>);
+    fn start_node_degrees_rotation(&mut self);
+    fn start_edge_weight_rotation(&mut self);
     fn init_done(&mut self) -> bool;
 }
 
@@ -115,13 +115,10 @@ impl ScoringWeights for Training {
         node_degrees
     }
 
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_node_degrees_rotation(&mut self) {
         self.scoring
             .node_degrees_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .node_degrees_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -136,13 +133,10 @@ impl ScoringWeights for Training {
         self.scoring.node_degrees_rotation_protocol.sent();
     }
 
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_edge_weight_rotation(&mut self) {
         self.scoring
             .edge_weight_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .edge_weight_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -233,9 +227,9 @@ impl Handler<ScoreInitDone> for Training {
             self.send_overlap_to_neighbor(ctx);
         } else {
             self.scoring.overlap_rotation_protocol.start(1);
-            self.scoring
-                .overlap_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
+            for msg in self.scoring.overlap_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         }
     }
 }
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index e32b42b..d8b6ef4 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -299,9 +299,6 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .start(self.cluster_nodes.len());
-                self.segmentation
-                    .transition_count_protocol
-                    .resolve_buffer(ctx.address().recipient());
                 // own transitions are among the node transitions
                 let transition_count = node_transitions
                     .iter()
@@ -314,6 +311,9 @@ impl Segmenter for Training {
                 self.segmentation.transition_count_protocol.sent();
                 self.segmentation.global_transition_count += transition_count;
                 self.segmentation.transitions_for_nodes = node_transitions;
+                for msg in self.segmentation.transition_count_protocol.take_buffer() {
+                    self.handle(msg, ctx);
+                }
             }
             None => {
                 self.segmentation.global_transition_count = self.data_store.count_transitions();
diff --git a/src/utils/rotation_protocol.rs b/src/utils/rotation_protocol.rs
index 91d3418..6c4e2e6 100644
--- a/src/utils/rotation_protocol.rs
+++ b/src/utils/rotation_protocol.rs
@@ -1,4 +1,4 @@
-use actix::{Message, Recipient};
+use actix::Message;
 use actix_telepathy::RemoteMessage;
 
 #[derive(Default, Clone)]
@@ -32,12 +32,10 @@ impl<T: Message + RemoteMessage + Clone> RotationProtocol<T> {
         (self.n_received < self.n_total) || (self.n_sent < self.n_total)
     }
 
-    pub fn resolve_buffer(&mut self, rec: Recipient<T>)
-    where
-        T::Result: Send,
-    {
-        for _ in 0..self.buffer.len() {
-            rec.do_send(self.buffer.remove(0));
-        }
+    /// Messages that arrived before the start, in the order of their arrival. They must be handled
+    /// right after the own message was sent. If they were sent to the mailbox again, messages that
+    /// are already waiting there would overtake them, but every node relies on the rotation's order.
+    pub fn take_buffer(&mut self) -> Vec<T> {
+        std::mem::take(&mut self.buffer)
     }
 }
-- 
2.43.0


From ec5796af3fb98762ff2c39be9bbf5e5f6d1b2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:04 +0000
Subject: [PATCH 10/30] fix: start only as many PCA helpers as there are chunks
 of rows

---
 src/training/rotation/pca/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 7982613..46eec49 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -127,7 +127,16 @@ impl PCAnalyzer for Training {
 
     fn helper_center_columns_decomposition(&mut self) {
         let own_addr = self.own_addr.as_ref().unwrap().clone().recipient();
-        self.rotation.pca.helpers = (0..self.parameters.n_threads)
+        let data = self
+            .rotation
+            .pca
+            .data
+            .as_ref()
+            .expect("PCA started before data is present!");
+        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
+        // few rows don't fill a chunk for every thread, but every helper waits for all the others
+        let n_helpers = num_integer::div_ceil(data.shape()[0], chunk_size);
+        self.rotation.pca.helpers = (0..n_helpers)
             .into_iter()
             .map(|i| PCAHelper::start_helper(i, own_addr.clone()))
             .collect();
@@ -138,13 +147,6 @@ impl PCAnalyzer for Training {
             .iter()
             .map(|addr| addr.clone().recipient())
             .collect();
-        let data = self
-            .rotation
-            .pca
-            .data
-            .as_ref()
-            .expect("PCA started before data is present!");
-        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
         for (chunk, helper) in data
             .axis_chunks_iter(Axis(0), chunk_size)
             .zip(self.rotation.pca.helpers.iter())
-- 
2.43.0


From 024f7ebdf268e150e2827207d4b461ec8ca5a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:18 +0000
Subject: [PATCH 11/30] fix: cluster intersections that do not differ instead
 of panicking

---
 .../multi_kde/actors/gaussian_kde.rs          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 6cc7873..83da69a 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -51,8 +51,17 @@ impl GaussianKDEActor {
 
         let weights = self.calculate_weights();
         let scotts_factor = self.scotts_factor(weights.view());
-        let precision = self.compute_covariance(scotts_factor);
-        self.evaluate(grid, weights, precision, ctx);
+        match self.compute_covariance(scotts_factor) {
+            Some(precision) => self.evaluate(grid, weights, precision, ctx),
+            // values that don't differ have a flat estimate without any peak
+            None => self
+                .receiver
+                .as_ref()
+                .unwrap()
+                .do_send(GaussianKDEResponse {
+                    kernel_estimate: Array1::zeros(self.resolution),
+                }),
+        }
     }
 
     fn evaluate(
@@ -95,10 +104,10 @@ impl GaussianKDEActor {
         }
     }
 
-    fn compute_covariance(&self, factor: f32) -> Array2<f32> {
+    fn compute_covariance(&self, factor: f32) -> Option<Array2<f32>> {
         let covariance = self.data.as_ref().unwrap().t().cov(1.).unwrap();
-        let covariance_inv = covariance.inv().unwrap(); // todo: catch exception
-        covariance_inv / factor.powi(2)
+        let covariance_inv = covariance.inv().ok()?;
+        Some(covariance_inv / factor.powi(2))
     }
 
     fn scotts_factor(&self, weights: ArrayView2<f32>) -> f32 {
-- 
2.43.0


From 1332b78ac809c86277be5989d24a4e3cb342ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:03 +0000
Subject: [PATCH 12/30] fix: write the contributions also if the first windows
 or the graph have none

---
 src/training/anomaly_contribution/mod.rs | 3 ++-
 src/training/scoring/mod.rs              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/training/anomaly_contribution/mod.rs b/src/training/anomaly_contribution/mod.rs
index 5bc07eb..c0ab65a 100644
--- a/src/training/anomaly_contribution/mod.rs
+++ b/src/training/anomaly_contribution/mod.rs
@@ -133,7 +133,8 @@ impl AnomalyContribution {
             .collect();
 
         let contribution = if contributions.is_empty() {
-            let n_dims = *self.n_dims.as_ref().unwrap();
+            // unknown, if there is no node at all
+            let n_dims = self.n_dims.unwrap_or_default();
             Array1::zeros([n_dims])
         } else {
             contributions = contributions
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 03922b1..ccb675e 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -369,7 +369,8 @@ impl Handler<QueryClusterContributionResponse> for Training {
         let mut last_contribution = None;
         for c in contributions.iter_mut() {
             if c.sum() == 0.0 {
-                *c = last_contribution.expect("No contribution");
+                // nothing to continue yet, if no window before has a contribution
+                *c = last_contribution.unwrap_or(*c);
             } else {
                 last_contribution = Some(*c);
             }
-- 
2.43.0


From 7a6c2aab4feb1a342737ff7f24fe292c27bb6938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:10 +0000
Subject: [PATCH 13/30] fix: leave a channel without a reference direction
 unrotated instead of NaN

---
 src/training/rotation/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index d0c4b8b..bc83925 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -138,15 +138,20 @@ impl Rotator for Training {
             .to_owned();
         let curve_vec2 = arr1(&[0., 0., 1.]);
 
+        // without a direction (constant channel), there is nothing to rotate
         let a = curve_vec1.clone()
             / norm(curve_vec1.view(), Axis(0))
+                .mapv(|x| if x == 0. { 1. } else { x })
                 .into_shape((1, curve_vec1.shape()[1]))
                 .unwrap();
         let b = curve_vec2.into_shape((3, 1)).unwrap();
 
         let v = cross2d(a.view(), b.view(), Axis(0), Axis(0));
         let c = b.t().dot(&a);
-        let s_ = norm(v.t(), Axis(0)).into_shape((1, v.shape()[0])).unwrap();
+        let s_ = norm(v.t(), Axis(0))
+            .mapv(|x| if x == 0. { 1. } else { x })
+            .into_shape((1, v.shape()[0]))
+            .unwrap();
 
         let identity: Array2<f32> = ArrayBase::eye(3);
         let i = repeat(identity.view(), v.shape()[0])
-- 
2.43.0


From 6e3a8d00e9511278de63ecb42373587761694e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:39 +0000
Subject: [PATCH 14/30] fix: start only as many scoring helpers as there are
 scores

---
 src/training/scoring/mod.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index ccb675e..0d21630 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -58,6 +58,8 @@ pub(crate) trait Scorer {
     fn init_scoring(&mut self, ctx: &mut Context<Training>);
     fn score(&mut self, ctx: &mut Context<Training>);
     fn build_anomaly_contribution_score(&self, ctx: &mut Context<Training>);
+    /// every helper must have a score of its own to calculate
+    fn n_score_helpers(&self, score_length: usize) -> usize;
     fn parallel_score(&mut self, score_length: usize);
     fn finalize_parallel_score(&mut self, ctx: &mut Context<Training>);
     fn normalize_score(&mut self, score: &mut Array1<f32>);
@@ -94,7 +96,8 @@ impl Scorer for Training {
         }
 
         let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
-        self.scoring.helper_protocol.n_total = self.parameters.n_threads;
+        let n_helpers = self.n_score_helpers(score_length);
+        self.scoring.helper_protocol.n_total = n_helpers;
 
         let edges = self.data_store.get_edges();
         let edges_in_time = self.scoring.edges_in_time.clone();
@@ -103,7 +106,7 @@ impl Scorer for Training {
         let query_length = self.parameters.query_length;
         let receiver = ctx.address().recipient();
 
-        self.scoring.helpers = Some(SyncArbiter::start(self.parameters.n_threads, move || {
+        self.scoring.helpers = Some(SyncArbiter::start(n_helpers, move || {
             ScoringHelper {
                 edges: edges.clone(),
                 edges_in_time: edges_in_time.clone(),
@@ -141,16 +144,17 @@ impl Scorer for Training {
         });
     }
 
+    fn n_score_helpers(&self, score_length: usize) -> usize {
+        self.parameters.n_threads.min(score_length).max(1)
+    }
+
     fn parallel_score(&mut self, score_length: usize) {
-        let n_per_thread = score_length / self.parameters.n_threads;
-        let n_rest = score_length % self.parameters.n_threads;
+        let n_helpers = self.n_score_helpers(score_length);
+        let n_per_thread = score_length / n_helpers;
+        let n_rest = score_length % n_helpers;
 
-        for i in 0..self.parameters.n_threads {
-            let rest = if i == self.parameters.n_threads - 1 {
-                n_rest
-            } else {
-                0
-            };
+        for i in 0..n_helpers {
+            let rest = if i == n_helpers - 1 { n_rest } else { 0 };
 
             self.scoring
                 .helpers
-- 
2.43.0


From 2496e6f30c2a98725f5d573d5534d85a3a6215f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:26 +0000
Subject: [PATCH 15/30] fix: let a cluster node leave only after all the others
 have their scores

---
 src/cluster_listener.rs          |  6 ++--
 src/training/mod.rs              | 48 +++++++++++++++++++++++++++++---
 src/training/scoring/messages.rs |  9 ++++++
 src/training/scoring/mod.rs      |  3 ++
 4 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/cluster_listener.rs b/src/cluster_listener.rs
index 8e197aa..93e176b 100644
--- a/src/cluster_listener.rs
+++ b/src/cluster_listener.rs
@@ -7,6 +7,7 @@ use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
 use std::net::SocketAddr;
 
+use crate::training::scoring::messages::MemberLeftMessage;
 use crate::training::{StartTrainingMessage, Training};
 use crate::utils::ClusterNodes;
 
@@ -122,8 +123,9 @@ impl Handler<ClusterLog> for ClusterMemberListener {
             }
             ClusterLog::MemberLeft(addr) => {
                 debug!("member left {:?}", addr);
-                if let Role::Sub { mainhost: _ } = &self.parameters.role {
-                    ctx.stop();
+                match &self.parameters.role {
+                    Role::Sub { mainhost: _ } => ctx.stop(),
+                    Role::Main { .. } => self.training.do_send(MemberLeftMessage),
                 }
             }
         }
diff --git a/src/training/mod.rs b/src/training/mod.rs
index df00a9b..bd6ae18 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -25,7 +25,8 @@ use crate::training::rotation::{
     RotationMatrixMessage, Rotator,
 };
 use crate::training::scoring::messages::{
-    EdgeWeights, NodeDegrees, OverlapRotation, ScoringDone, SubScores,
+    EdgeWeights, MemberLeftMessage, NodeDegrees, OverlapRotation, ScoresReceived, ScoringDone,
+    SubScores,
 };
 use crate::training::scoring::weights::ScoringWeights;
 use crate::training::scoring::{Scorer, Scoring};
@@ -48,7 +49,7 @@ mod messages;
 mod node_estimation;
 mod observe;
 mod rotation;
-mod scoring;
+pub(crate) mod scoring;
 mod segmentation;
 mod transposition;
 
@@ -58,6 +59,7 @@ mod transposition;
     AskForForeignNodes,
     NodeDegrees,
     SubScores,
+    ScoresReceived,
     EdgeWeights,
     OverlapRotation,
     TranspositionRotationMessage,
@@ -93,6 +95,18 @@ impl Training {
         self.parameters.segment_id_to_assignment(segment_id)
     }
 
+    /// A cluster node must not leave as long as another one waits for messages
+    fn stop_if_all_done(&mut self, ctx: &mut Context<Self>) {
+        if self.scoring.done && self.scoring.n_others_done == self.cluster_nodes.len() {
+            self.stop(ctx);
+        }
+    }
+
+    fn stop(&mut self, ctx: &mut Context<Self>) {
+        ctx.stop();
+        System::current().stop();
+    }
+
     fn cluster_node_diff(&self, from_node_id: usize, to_node_id: usize) -> usize {
         (to_node_id as isize)
             .sub(&(from_node_id as isize))
@@ -299,7 +313,33 @@ impl Handler<ScoringDone> for Training {
             sink.do_send(DetectionResponse { anomaly_score });
         }
 
-        ctx.stop();
-        System::current().stop();
+        for (id, _) in self.cluster_nodes.iter() {
+            self.cluster_nodes
+                .get_as(id, "Training")
+                .unwrap()
+                .do_send(ScoresReceived);
+        }
+        self.scoring.done = true;
+        self.stop_if_all_done(ctx);
+    }
+}
+
+impl Handler<ScoresReceived> for Training {
+    type Result = ();
+
+    fn handle(&mut self, _msg: ScoresReceived, ctx: &mut Self::Context) -> Self::Result {
+        self.scoring.n_others_done += 1;
+        self.stop_if_all_done(ctx);
+    }
+}
+
+impl Handler<MemberLeftMessage> for Training {
+    type Result = ();
+
+    fn handle(&mut self, _msg: MemberLeftMessage, ctx: &mut Self::Context) -> Self::Result {
+        // a cluster node only leaves regularly if all the others are done as well
+        if self.scoring.done {
+            self.stop(ctx);
+        }
     }
 }
diff --git a/src/training/scoring/messages.rs b/src/training/scoring/messages.rs
index 005052c..3ac9af4 100644
--- a/src/training/scoring/messages.rs
+++ b/src/training/scoring/messages.rs
@@ -15,6 +15,15 @@ pub struct ScoreInitDone;
 #[rtype(Result = "()")]
 pub(crate) struct ScoringDone;
 
+/// A cluster node has its scores and needs nothing from the others anymore
+#[derive(RemoteMessage, Serialize, Deserialize, Default, Clone)]
+pub(crate) struct ScoresReceived;
+
+/// A cluster node has left
+#[derive(Message)]
+#[rtype(Result = "()")]
+pub(crate) struct MemberLeftMessage;
+
 #[serde_as]
 #[derive(RemoteMessage, Serialize, Deserialize, Default, Clone)]
 pub(crate) struct NodeDegrees {
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 0d21630..3f3d0a8 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -52,6 +52,9 @@ pub(crate) struct Scoring {
     score_rotation_protocol: RotationProtocol<SubScores>,
     helper_protocol: HelperProtocol,
     helper_buffer: HashMap<usize, ScoringHelperResponse>,
+
+    pub done: bool,
+    pub n_others_done: usize,
 }
 
 pub(crate) trait Scorer {
-- 
2.43.0


From ade49fa85ea6888bef6fc7d96b964d17df4d40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:04 +0000
Subject: [PATCH 16/30] fix: panic if a step runs along a segment boundary

---
 src/utils/geometry.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/geometry.rs b/src/utils/geometry.rs
index a386fc6..e69e3ac 100644
--- a/src/utils/geometry.rs
+++ b/src/utils/geometry.rs
@@ -37,7 +37,12 @@ pub fn line_plane_intersection(
             plane_vector.view(),
         ],
     )?;
-    let inv = vectors.inv()?;
+    let inv = match vectors.inv() {
+        Ok(inv) => inv,
+        // the line runs along the plane: it's reached at its end
+        Err(LinalgError::Lapack(_)) => return Ok(line_points.slice(s![1, ..]).to_owned()),
+        Err(e) => return Err(e.into()),
+    };
     let vec_start =
         line_points.slice(s![0, ..]).to_owned() - plane_points.slice(s![0, ..]).to_owned();
     let vec_to_intersection: Array1<f32> = inv.t().dot(&vec_start);
-- 
2.43.0


From d777c7cfe61ca8b860982f1906098597d5dad757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:24 +0000
Subject: [PATCH 17/30] fix: empty lines of a CSV file shifted the shares of
 the cluster nodes

---
 src/data_manager/data_reader/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index bc2a69e..3a74d9d 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -30,13 +30,13 @@ pub trait DataReader {
 
 impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
-        let file = File::open(file_path).unwrap();
-        let count_reader = BufReader::new(file);
-        let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_reader.lines().count() - 1
-        } else {
-            count_reader.lines().count()
-        };
+        // empty lines are no records
+        let n_lines = ReaderBuilder::new()
+            .has_headers(self.data_reading.as_ref().unwrap().with_header)
+            .from_path(file_path)
+            .unwrap()
+            .records()
+            .count();
 
         let mut nodes = self.cluster_nodes.clone();
         nodes.change_ids("DataManager");
-- 
2.43.0


From 104989949822d5ce5d7b52f00c3ef6a603f8c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:35 +0000
Subject: [PATCH 18/30] fix: leave no service behind after an analysis on a
 single node

Training and DataManager registered with the cluster's address resolver even if there is
no cluster. The registry keeps that service, and with it the event loop of the analysis,
for ever: every analysis lost two file descriptors, so that a process died with 'too many
open files' after about 500 analyses.
---
 src/data_manager/mod.rs | 4 +++-
 src/training/mod.rs     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 884c039..1f15e29 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -154,7 +154,9 @@ impl Actor for DataManager {
     type Context = Context<Self>;
 
     fn started(&mut self, ctx: &mut Self::Context) {
-        self.register(ctx.address().recipient());
+        if self.parameters.n_cluster_nodes > 1 {
+            self.register(ctx.address().recipient());
+        }
     }
 }
 
diff --git a/src/training/mod.rs b/src/training/mod.rs
index bd6ae18..3458f3d 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -145,7 +145,9 @@ impl Actor for Training {
     type Context = Context<Self>;
 
     fn started(&mut self, ctx: &mut Self::Context) {
-        self.register(ctx.address().recipient());
+        if self.parameters.n_cluster_nodes > 1 {
+            self.register(ctx.address().recipient());
+        }
         self.own_addr = Some(ctx.address());
 
         self.data_manager = Some(
-- 
2.43.0


From 2a720ac4c14f649189dd229a1bb1b1d0865adbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:53 +0000
Subject: [PATCH 19/30] fix: refuse data with numbers that are not finite

A NaN in the last row passed through all stages and every score came out as 0, as if
nothing in the series were unusual.
---
 src/data_manager/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 1f15e29..8819047 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -87,6 +87,10 @@ impl DataManager {
     }
 
     fn calculate_datastats(&mut self, addr: Addr<Self>) {
+        assert!(
+            self.data.as_ref().unwrap().iter().all(|x| x.is_finite()),
+            "The data must consist of finite numbers only!"
+        );
         self.minmax_calculation = Some(MinMaxCalculation {
             nodes: vec![],
             min: None,
-- 
2.43.0


From 15513910a5f6b4409dca14ff142c4b7a236fbf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 20/30] hook: make the model's interface visible to the
 monitors (feature verif)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6b47e93..4795909 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,11 @@ mod verif;
 pub mod verif;
 
 mod interface;
+#[cfg(feature = "verif")]
+pub mod model {
+    pub use crate::interface::SyncInterface;
+    pub use crate::training::Training;
+}
 #[cfg(feature = "python")]
 mod python_binding;
 
-- 
2.43.0


From 2b82789b4332553d50a8fdd704e211cde90c8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 21/30] fix: refuse a main node without data instead of waiting
 for ever

---
 src/data_manager/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 8819047..bf01a83 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -175,14 +175,12 @@ impl Handler<LoadDataMessage> for DataManager {
             overlap: self.parameters.pattern_length - 1,
         });
 
-        let role = self.parameters.role.clone();
-        if let Role::Main {
-            data_path: Some(data_path),
-        } = role
-        {
-            self.read_csv(&data_path, ctx.address())
-        } else {
-            self.resolve_buffer(ctx.address())
+        match self.parameters.role.clone() {
+            Role::Main { data_path } => {
+                let data_path = data_path.expect("The main node needs the path to the data!");
+                self.read_csv(&data_path, ctx.address())
+            }
+            Role::Sub { .. } => self.resolve_buffer(ctx.address()),
         }
     }
 }
-- 
2.43.0


From 8dacca03950f912ed2076539fc5185aea5db3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 22/30] fix: report results that cannot be written completely

The writers were flushed only when they were dropped, which ignores errors: on a full disk the analysis
succeeded without scores.
---
 src/training/scoring/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 3f3d0a8..312b0c7 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -277,6 +277,7 @@ impl Scorer for Training {
         for s in score.iter() {
             writer.serialize(s)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
@@ -409,6 +410,7 @@ impl Handler<QueryClusterContributionResponse> for Training {
             last = Some(ser);
             writer.serialize(ser.to_vec()).unwrap();
         }
+        writer.flush().unwrap();
         ctx.address().do_send(ScoringDone);
     }
 }
-- 
2.43.0


From d1ebc386ff243802c20e7a540e3d39cad94d6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 23/30] fix: panic on arrays that are not in row-major order

---
 src/utils/ndarray_extensions/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/ndarray_extensions/mod.rs b/src/utils/ndarray_extensions/mod.rs
index c625c73..ac5a6f2 100644
--- a/src/utils/ndarray_extensions/mod.rs
+++ b/src/utils/ndarray_extensions/mod.rs
@@ -92,8 +92,7 @@ where
     fn min_axis(&self, axis: Axis) -> Array1<A> {
         let _n = self.len_of(axis);
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
+        if self.ndim() == 2 {
             let ax = axis.index();
             for (i, elt) in res.iter_mut().enumerate() {
                 let mut smallest = A::max_value();
@@ -112,8 +111,7 @@ where
 
     fn max_axis(&self, axis: Axis) -> Array1<A> {
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
+        if self.ndim() == 2 {
             let ax = axis.index();
             for (i, elt) in res.iter_mut().enumerate() {
                 let mut largest = A::min_value();
-- 
2.43.0


From 5397e7d2cda6c0b70e142f546e7d975e45ff75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 24/30] fix: end the main node if another cluster node died
 before the analysis was complete

---
 src/training/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/training/mod.rs b/src/training/mod.rs
index 3458f3d..4486a2f 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -342,6 +342,9 @@ impl Handler<MemberLeftMessage> for Training {
         // a cluster node only leaves regularly if all the others are done as well
         if self.scoring.done {
             self.stop(ctx);
+        } else {
+            error!("A cluster node left before the analysis was complete!");
+            System::current().stop_with_code(1);
         }
     }
 }
-- 
2.43.0


From 2cba519736f366b5bbacbd0d7e237ca850e13e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 25/30] fix: refuse 0 threads instead of waiting for ever

---
 src/training/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/training/mod.rs b/src/training/mod.rs
index 4486a2f..f693e6f 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -169,6 +169,10 @@ impl Handler<StartTrainingMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: StartTrainingMessage, _ctx: &mut Self::Context) -> Self::Result {
+        assert!(
+            self.parameters.n_threads > 0,
+            "At least one thread is needed!"
+        );
         self.cluster_nodes = msg.nodes;
         self.sink = msg.source;
         if let Some(data) = msg.data {
-- 
2.43.0


From a24ec4e50107b6b183cc82569dc484d50cbcc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:24 +0000
Subject: [PATCH 26/30] fix: refuse data without any selected column

---
 src/data_manager/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index bf01a83..00723dd 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -87,6 +87,10 @@ impl DataManager {
     }
 
     fn calculate_datastats(&mut self, addr: Addr<Self>) {
+        assert!(
+            self.data.as_ref().unwrap().ncols() > 0,
+            "At least one column must be selected!"
+        );
         assert!(
             self.data.as_ref().unwrap().iter().all(|x| x.is_finite()),
             "The data must consist of finite numbers only!"
-- 
2.43.0


From 08bae20e5f77fbead36a5463082f8f4757c44cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:40 +0000
Subject: [PATCH 27/30] fix: refuse a distributed analysis whose last share
 holds no pattern instead of waiting for ever

---
 src/data_manager/data_reader/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index 3a74d9d..9593c53 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -49,6 +49,10 @@ impl DataReader for DataManager {
 
         let partition_len = num_integer::Integer::div_floor(&n_lines, &receivers.len());
         let last_overlap = n_lines - (partition_len * receivers.len());
+        assert!(
+            partition_len + last_overlap > self.data_reading.as_ref().unwrap().overlap,
+            "There are too few rows for the pattern length and the number of cluster nodes!"
+        );
         let mut receiver_iterator: AnyClusterNodesIterator<Self> = receivers.clone().into_iter();
         let mut buffer = vec![];
         let mut overlap_buffer = vec![];
-- 
2.43.0


From d4258dc3024718c9db08ed5925db1cb67a91efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:40 +0000
Subject: [PATCH 28/30] fix: refuse fewer segments than cluster nodes instead
 of dividing by zero

---
 src/training/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/training/mod.rs b/src/training/mod.rs
index f693e6f..c22ca84 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -173,6 +173,10 @@ impl Handler<StartTrainingMessage> for Training {
             self.parameters.n_threads > 0,
             "At least one thread is needed!"
         );
+        assert!(
+            self.parameters.rate >= self.parameters.n_cluster_nodes,
+            "At least one segment per cluster node is needed!"
+        );
         self.cluster_nodes = msg.nodes;
         self.sink = msg.source;
         if let Some(data) = msg.data {
-- 
2.43.0


From 3020a70a59df19e5697183df7ea7d7ac2fe0a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:40 +0000
Subject: [PATCH 29/30] fix: let a query be longer than what a cluster node
 holds

---
 src/training/scoring/mod.rs     | 15 ++++++++++-----
 src/training/scoring/overlap.rs |  7 ++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 312b0c7..354e076 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -94,11 +94,12 @@ impl Scorer for Training {
         if cfg!(feature = "verif") {
             self.observe_scoring_inputs();
         }
-        if self.scoring.edges_in_time.len() < (self.parameters.query_length - 1) {
-            panic!("There are less edges than the given 'query_length'!");
-        }
-
-        let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
+        // no query starts here, if it does not end within what follows in time
+        let score_length = self
+            .scoring
+            .edges_in_time
+            .len()
+            .saturating_sub(self.parameters.query_length - 1);
         let n_helpers = self.n_score_helpers(score_length);
         self.scoring.helper_protocol.n_total = n_helpers;
 
@@ -208,6 +209,10 @@ impl Scorer for Training {
     }
 
     fn normalize_score(&mut self, scores: &mut Array1<f32>) {
+        assert!(
+            !scores.is_empty(),
+            "There are less edges than the given 'query_length'!"
+        );
         let all_score_max = *scores.max().unwrap();
         let all_score_min = *scores.min().unwrap();
         let range = match all_score_max - all_score_min {
diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 30c90d2..076624e 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -11,8 +11,10 @@ pub(crate) trait ScoringOverlap {
 
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
+        // all there is, if the query is longer than that
+        let n_points = (self.parameters.query_length - 1).min(self.scoring.edges_in_time.len());
         // a query also covers the edge that follows on its last point
-        let n_edges = match self.parameters.query_length.checked_sub(2) {
+        let n_edges = match n_points.checked_sub(1) {
             Some(last_point) => self.scoring.edges_in_time[last_point],
             None => 0,
         };
@@ -23,8 +25,7 @@ impl ScoringOverlap for Training {
             .map(|edge| edge.materialize())
             .collect();
 
-        let edges_in_time =
-            self.scoring.edges_in_time[0..(self.parameters.query_length - 1)].to_vec();
+        let edges_in_time = self.scoring.edges_in_time[0..n_points].to_vec();
 
         self.cluster_nodes
             .get_prev_as("Training")
-- 
2.43.0


From 66f69b64e90fe496bc8ebf5ec56a687fbba57d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:40 +0000
Subject: [PATCH 30/30] fix: do not panic on cluster centers beyond the integer
 range

---
 src/utils/float_approx.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/float_approx.rs b/src/utils/float_approx.rs
index adddb37..9fd20cd 100644
--- a/src/utils/float_approx.rs
+++ b/src/utils/float_approx.rs
@@ -13,10 +13,13 @@ where
     A: Mul + Float,
 {
     pub fn approximate(&self, tolerance: usize) -> isize {
-        self.0
-            .mul(A::from(10 * tolerance).unwrap())
-            .to_isize()
-            .unwrap()
+        let scaled = self.0.mul(A::from(10 * tolerance).unwrap());
+        let largest = if scaled.is_sign_negative() {
+            isize::MIN
+        } else {
+            isize::MAX
+        };
+        scaled.to_isize().unwrap_or(largest)
     }
 
     pub fn from_array_view_clone(array: ArrayView1<A>) -> Vec<Self> {
-- 
2.43.0

