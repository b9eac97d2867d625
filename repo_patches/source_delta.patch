From dae90208b7292a117bab8836394a97572df4b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 01/66] fix: update aggregated node coefficient rows when only
 the rhs is non-constant

A coefficient relationship with constant factors but a time-varying
right-hand side was built as a fixed row with a right-hand side of zero.
---
 pywr-core/src/aggregated_node.rs | 17 +++++++++--------
 pywr-core/src/solvers/builder.rs | 10 +++++-----
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 3b51304..7beecb0 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -312,11 +312,12 @@ impl<'a> NodeConstFactor<'a> {
 pub struct NodeConstFactorPair<'a> {
     node0: NodeConstFactor<'a>,
     node1: NodeConstFactor<'a>,
-    rhs: f64,
+    /// The right-hand side value. This is `None` if the value is non-constant.
+    rhs: Option<f64>,
 }
 
 impl<'a> NodeConstFactorPair<'a> {
-    fn new(node0: NodeConstFactor<'a>, node1: NodeConstFactor<'a>, rhs: f64) -> Self {
+    fn new(node0: NodeConstFactor<'a>, node1: NodeConstFactor<'a>, rhs: Option<f64>) -> Self {
         Self { node0, node1, rhs }
     }
 
@@ -339,7 +340,7 @@ impl<'a> NodeConstFactorPair<'a> {
     }
 
     #[must_use]
-    pub fn rhs(&self) -> f64 {
+    pub fn rhs(&self) -> Option<f64> {
         self.rhs
     }
 }
@@ -833,7 +834,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
                 NodeConstFactorPair::new(
                     NodeConstFactor::new(n0, Some(1.0)),
                     NodeConstFactor::new(n1.as_slice(), None),
-                    0.0,
+                    Some(0.0),
                 )
             })
             .collect::<Vec<_>>()
@@ -857,7 +858,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
                 NodeConstFactorPair::new(
                     NodeConstFactor::new(n0, Some(1.0)),
                     NodeConstFactor::new(n1.as_slice(), f1.map(|v| -f0 / v)),
-                    0.0,
+                    Some(0.0),
                 )
             })
             .collect::<Vec<_>>()
@@ -980,7 +981,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
             Ok(NodeConstFactorPair::new(
                 NodeConstFactor::new(n0, Some(1.0)),
                 NodeConstFactor::new(n1.as_slice(), v1),
-                0.0,
+                Some(0.0),
             ))
         })
         .collect::<Result<Vec<_>, ConstantRatioFactorError>>()?;
@@ -1074,8 +1075,8 @@ fn get_const_coefficient_factor_pairs<'a>(
     let f1 = factors[1].try_get_constant_value(values)?;
 
     let rhs = match rhs {
-        Some(rhs) => rhs.try_get_constant_value(values)?.unwrap_or_default(),
-        None => 0.0,
+        Some(rhs) => rhs.try_get_constant_value(values)?,
+        None => Some(0.0),
     };
 
     Ok(vec![NodeConstFactorPair::new(
diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index c5a04f2..b1917f7 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -970,14 +970,14 @@ where
                         self.add_node(node1, f1.unwrap_or(1.0), &mut row);
                     }
 
-                    // Make the row fixed at RHS
+                    // Make the row fixed at RHS; if the RHS is not constant it will be updated later
                     let rhs = node_pair.rhs();
 
-                    row.set_lower(rhs);
-                    row.set_upper(rhs);
+                    row.set_lower(rhs.unwrap_or_default());
+                    row.set_upper(rhs.unwrap_or_default());
 
-                    // Row is fixed if we can compute the ratio now
-                    if f0.is_some() && f1.is_some() {
+                    // Row is fixed if we can compute the ratio and the RHS now
+                    if f0.is_some() && f1.is_some() && rhs.is_some() {
                         self.builder.add_fixed_row(row);
                         row_indices_for_agg_node.push(None)
                     } else {
-- 
2.43.0


From 086bf83384766f5c8c60b1786b546d2c87a1897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/66] fix: accumulate updated factor coefficients that share
 a column

The coefficients of time-varying aggregated node factors overwrote each
other when the nodes of the relationship share a column, and did not use
the opposite sign for the outgoing edges of storage nodes as is done when
the row is built. Rows with placeholder coefficients are also no longer
shared between aggregated nodes.
---
 pywr-core/src/solvers/builder.rs | 38 ++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index b1917f7..f669133 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -87,34 +87,50 @@ where
         self.row_upper[row] = self.row_upper[row].min(ub);
     }
 
+    /// Add an updated coefficient for a row.
+    ///
+    /// If the column already has an updated coefficient for this row then the `factor` will be added to
+    /// it. This is consistent with [`RowBuilder::add_element`].
+    fn update_row_coefficient(&mut self, row: I, column: I, factor: f64) {
+        let existing = self
+            .coefficients_to_update
+            .iter_mut()
+            .find(|(r, c, _)| *r == row && *c == column);
+
+        match existing {
+            Some((_, _, coefficient)) => *coefficient += factor,
+            None => self.coefficients_to_update.push((row, column, factor)),
+        }
+    }
+
     fn update_row_coefficients(&mut self, row: I, node: &Node, factor: f64, col_edge_map: &ColumnEdgeMap<I>) {
         match node.node_type() {
             NodeType::Link => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.update_row_coefficient(row, column, factor)
                 }
             }
             NodeType::Input => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.update_row_coefficient(row, column, factor)
                 }
             }
             NodeType::Output => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.update_row_coefficient(row, column, factor)
                 }
             }
             NodeType::Storage => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.update_row_coefficient(row, column, factor)
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.update_row_coefficient(row, column, -factor)
                 }
             }
         }
@@ -191,6 +207,13 @@ where
         }
     }
 
+    /// Add a row to the LP without re-using an existing row.
+    fn add_unique_variable_row(&mut self, row: RowBuilder<I>) -> I {
+        let row_id = self.num_variable_rows();
+        self.rows.push(row);
+        row_id
+    }
+
     /// Return the number of variable rows
     fn num_variable_rows(&self) -> I {
         I::from(self.rows.len()).unwrap()
@@ -981,8 +1004,9 @@ where
                         self.builder.add_fixed_row(row);
                         row_indices_for_agg_node.push(None)
                     } else {
-                        // These rows will be updated with the correct ratio later
-                        let row_idx = self.builder.add_variable_row(row);
+                        // These rows will be updated with the correct ratio later. The coefficients are
+                        // placeholders so the row must not be shared with any other constraint.
+                        let row_idx = self.builder.add_unique_variable_row(row);
                         row_indices_for_agg_node.push(Some(row_idx));
                     }
                 }
-- 
2.43.0


From ba88daecf42ee3ae55ba51de12f1b023466344b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 03/66] fix: enforce time-varying limits of mutually exclusive
 nodes

The bounds of the binary rows were reset to be unbounded before each solve
and never re-applied, so a node with non-constant flow limits that is part
of a mutual exclusivity constraint was not limited at all. Nodes sharing a
column also shared these rows, and overwrote each other's coefficients. An
unlimited upper bound is also capped in the same way as a constant one.
---
 pywr-core/src/solvers/builder.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index f669133..7950d71 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -524,13 +524,19 @@ where
                 }
                 NodeRowType::BinaryUpperBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the upper bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, ub));
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, ub.min(1e6)));
+                    // The bounds of this variable row have been reset, so they must be applied again
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
                 NodeRowType::BinaryLowerBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the lower bound
-                    // This row has the correct bounds already, so we just update the coefficients
                     self.builder.coefficients_to_update.push((row.row_id, bin_col_id, -lb));
+                    // The bounds of this variable row have been reset, so they must be applied again
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
             }
         }
@@ -902,11 +908,12 @@ where
                         }
                         None => {
                             // If the bounds are not constant then the binary variable coefficient is updated later
-                            // Use a placeholder of 1.0 and -1.0 for now
+                            // Use a placeholder of 1.0 and -1.0 for now. The rows must not be shared with
+                            // another node that uses the same column because their coefficients may differ.
                             row_ub.add_element(*col, 1.0);
                             row_lb.add_element(*col, -1.0);
 
-                            let row_id = self.builder.add_variable_row(row_ub);
+                            let row_id = self.builder.add_unique_variable_row(row_ub);
                             let row_type = NodeRowType::BinaryUpperBound { bin_col_id: *col };
 
                             row_ids.push(NodeRowId {
@@ -917,7 +924,7 @@ where
 
                             // We do not know the bounds yet, so we have to assume there is a possibility
                             // of a non-zero lower bound.
-                            let row_id = self.builder.add_variable_row(row_lb);
+                            let row_id = self.builder.add_unique_variable_row(row_lb);
                             let row_type = NodeRowType::BinaryLowerBound { bin_col_id: *col };
 
                             row_ids.push(NodeRowId {
-- 
2.43.0


From 9b8378ce43783f05884d941d711083bc70426d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 04/66] fix: do not pass unbounded rows to microlp

A row without a lower bound, such as that of an inactive virtual storage
node, was added as 'greater than negative infinity'. This corrupts the
solver's tableau and a bounded problem was reported as unbounded.
---
 pywr-core/src/solvers/microlp/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index 85acf22..d2a8327 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -67,8 +67,10 @@ impl MicroLpSolver {
                 problem.add_constraint(expr.clone(), ComparisonOp::Eq, row_lower);
             } else {
                 assert!(row_lower < row_upper, "Row lower bound must be less than upper bound");
-                // Otherwise add two rows for each constraint (>= and <=)
-                problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                // Otherwise add two rows for each constraint (>= and <=), if they are bounded
+                if row_lower.is_finite() {
+                    problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                }
 
                 if row_upper.is_finite() {
                     problem.add_constraint(expr, ComparisonOp::Le, row_upper);
-- 
2.43.0


From 91f207e64f4fddb1cf05297a2907b69336bd7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 05/66] fix: give OffsetParameter its internal state, without
 which every use of it panicked

---
 pywr-core/src/parameters/offset.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/offset.rs b/pywr-core/src/parameters/offset.rs
index f85d673..d84fbde 100644
--- a/pywr-core/src/parameters/offset.rs
+++ b/pywr-core/src/parameters/offset.rs
@@ -1,6 +1,6 @@
 use crate::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
 use crate::network::ResolutionMaps;
-use crate::parameters::errors::GeneralCalculationError;
+use crate::parameters::errors::{GeneralCalculationError, ParameterSetupError};
 use crate::parameters::{
     ActivationFunction, BuiltParameter, GeneralBeforeParameter, GeneralParameter, GeneralParameterContext,
     GeneralParameterEntry, MaybeBuiltParameter, Parameter, ParameterBuildError, ParameterBuilder, ParameterMeta,
@@ -8,6 +8,8 @@ use crate::parameters::{
     downcast_internal_state_mut, downcast_internal_state_ref, downcast_variable_config_ref,
 };
 use crate::resolve_metric_f64;
+use crate::scenario::ScenarioIndex;
+use crate::timestep::Timestep;
 
 #[derive(Debug)]
 pub struct OffsetParameter {
@@ -36,6 +38,15 @@ impl Parameter for OffsetParameter {
         &self.meta
     }
 
+    fn setup(
+        &self,
+        _timesteps: &[Timestep],
+        _scenario_index: &ScenarioIndex,
+    ) -> Result<Option<Box<dyn ParameterState>>, ParameterSetupError> {
+        let value: InternalValue = None;
+        Ok(Some(Box::new(value)))
+    }
+
     fn as_f64_variable(&self) -> Option<&dyn VariableParameter<f64>> {
         Some(self)
     }
-- 
2.43.0


From 9a96c4b7fd31cda6e519d4da97fa43d6906f722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 06/66] fix: thin-plate-spline radial basis function is zero,
 not NaN, at zero distance

---
 pywr-core/src/parameters/profiles/rbf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 6d76a6f..21c484d 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -305,6 +305,8 @@ impl RadialBasisFunction {
             RadialBasisFunction::Linear => r,
             RadialBasisFunction::Cubic => r.powi(3),
             RadialBasisFunction::Quintic => r.powi(5),
+            // `r^2 * ln(r)` tends to zero as `r` does, but evaluates to NaN at exactly zero.
+            RadialBasisFunction::ThinPlateSpline if r == 0.0 => 0.0,
             RadialBasisFunction::ThinPlateSpline => r.powi(2) * r.ln(),
             RadialBasisFunction::Gaussian { epsilon } => (-(epsilon * r).powi(2)).exp(),
             RadialBasisFunction::MultiQuadric { epsilon } => (1.0 + (epsilon * r).powi(2)).sqrt(),
-- 
2.43.0


From 48bb83b8e31997ec7ddf782a72f62a4fc1f0e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 07/66] fix: monthly profile interpolated from the last day no
 longer overshoots within that day

---
 pywr-core/src/parameters/profiles/monthly.rs | 43 +++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/monthly.rs b/pywr-core/src/parameters/profiles/monthly.rs
index 594c552..f122963 100644
--- a/pywr-core/src/parameters/profiles/monthly.rs
+++ b/pywr-core/src/parameters/profiles/monthly.rs
@@ -54,6 +54,24 @@ fn interpolate_last(date: &DateTime, first_value: f64, last_value: f64) -> f64 {
     first_value + (last_value - first_value) * fraction_of_month
 }
 
+/// Interpolate between `first_value` and `last_value` on the last day of the month. The first value is assumed
+/// to correspond to the (start of the) last day of this month, and the last value to that of the next month.
+fn interpolate_after_last(date: &DateTime, first_value: f64, last_value: f64) -> f64 {
+    let end_of_month = date.last_of_month().start_of_day();
+    let end_of_next_month = date
+        .first_of_month()
+        .checked_add(1.months())
+        .expect("Datetime overflowed!")
+        .last_of_month()
+        .start_of_day();
+
+    let duration = end_of_next_month.duration_since(end_of_month);
+    let since_end_of_month = date.duration_since(end_of_month);
+    let fraction = since_end_of_month.as_secs_f64() / duration.as_secs_f64();
+
+    first_value + (last_value - first_value) * fraction
+}
+
 impl Parameter for MonthlyProfileParameter {
     fn meta(&self) -> &ParameterMeta {
         &self.meta
@@ -75,12 +93,25 @@ impl SimpleParameter<f64> for MonthlyProfileParameter {
                     interpolate_first(&ctx.timestep.date, first_value, last_value)
                 }
                 MonthlyInterpDay::Last => {
-                    let current_month = ctx.timestep.date.month();
-                    let last_month = if current_month == 1 { 12 } else { current_month - 1 };
-                    let first_value = self.values[last_month as usize - 1];
-                    let last_value = self.values[ctx.timestep.date.month() as usize - 1];
-
-                    interpolate_last(&ctx.timestep.date, first_value, last_value)
+                    let current_month0 = ctx.timestep.date.month() as usize - 1;
+                    let start_of_last_day = ctx.timestep.date.last_of_month().start_of_day();
+
+                    if ctx.timestep.date > start_of_last_day {
+                        // Part way through the last day of the month; already moving to next month's value.
+                        let next_month0 = (current_month0 + 1) % 12;
+                        interpolate_after_last(
+                            &ctx.timestep.date,
+                            self.values[current_month0],
+                            self.values[next_month0],
+                        )
+                    } else {
+                        let last_month0 = (current_month0 + 11) % 12;
+                        interpolate_last(
+                            &ctx.timestep.date,
+                            self.values[last_month0],
+                            self.values[current_month0],
+                        )
+                    }
                 }
             },
             None => self.values[ctx.timestep.date.month() as usize - 1],
-- 
2.43.0


From ebcfd153c89dcbe86debc083602bc2d031635dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 08/66] fix: uniform drawdown counted a 29 February that its
 period does not contain

---
 .../parameters/profiles/uniform_drawdown.rs   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/uniform_drawdown.rs b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
index 6948a9a..37461d5 100644
--- a/pywr-core/src/parameters/profiles/uniform_drawdown.rs
+++ b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
@@ -47,14 +47,19 @@ impl SimpleParameter<f64> for UniformDrawdownProfileParameter {
         // or not in the current period
         let total_days_in_period = if is_leap_year(year) { 366 } else { 365 };
 
-        // Now determine number of days we're into the period if it has wrapped around to a new year
-        if days_into_period < 0 {
+        // Now determine number of days we're into the period if it has wrapped around to a new year, and whether
+        // the period has passed the end of February.
+        // Recall `current_doy` was incremented by 1 if it is a non-leap already (hence comparison to 60)
+        let passed_february = if days_into_period < 0 {
             days_into_period += 366;
-            // Need to adjust for post 29th Feb in non-leap years.
-            // Recall `current_doy` was incremented by 1 if it is a non-leap already (hence comparison to 60)
-            if !is_leap_year(ctx.timestep.date.year()) && current_doy > 60 {
-                days_into_period -= 1;
-            }
+            self.reset_doy < 60 || current_doy > 60
+        } else {
+            self.reset_doy < 60 && current_doy > 60
+        };
+
+        // Need to adjust for post 29th Feb if the period does not contain a leap day.
+        if passed_february && !is_leap_year(year) {
+            days_into_period -= 1;
         }
 
         let residual_proportion = self.residual_days as f64 / total_days_in_period as f64;
-- 
2.43.0


From 26229a1a71441f02a3f9a4fd0f9cbcb4abe94a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 09/66] fix: reject scenario subset and combination indices
 outside their group

An index beyond the group's size was ignored in a subset, and made a
combination panic or select data that does not exist; a combination
shorter than the number of groups panicked.
---
 pywr-core/src/scenario.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/scenario.rs b/pywr-core/src/scenario.rs
index 862aa8b..f4b2a51 100644
--- a/pywr-core/src/scenario.rs
+++ b/pywr-core/src/scenario.rs
@@ -28,6 +28,10 @@ pub enum ScenarioDomainBuilderError {
         start: usize,
         end: usize,
     },
+    #[error("Scenario index {index} is out of range for scenario group `{group}` with size {size}")]
+    IndexOutOfRange { group: String, size: usize, index: usize },
+    #[error("Scenario combination has {found} entries, but there are {expected} scenario groups")]
+    IncorrectCombinationLength { found: usize, expected: usize },
 }
 
 /// A subset of a scenario group to run, either defined as a slice or as specific indices.
@@ -175,6 +179,7 @@ impl ScenarioGroupBuilder {
     /// # Errors
     ///
     /// - [`ScenarioDomainBuilderError::InvalidSlice`] if the slice is invalid (e.g. start >= end or end > size)
+    /// - [`ScenarioDomainBuilderError::IndexOutOfRange`] if an index of the subset is not less than the group's size
     /// - [`ScenarioDomainBuilderError::NoLabels`] if a label subset is defined but no labels are provided
     /// - [`ScenarioDomainBuilderError::LabelNotFound`] if a label in the subset is not found in the labels for the group
     /// - [`ScenarioDomainBuilderError::IncorrectNumberOfLabels`] if the number of labels provided does not match the group size
@@ -192,7 +197,17 @@ impl ScenarioGroupBuilder {
 
                 Some(ScenarioGroupSubset::Slice { start, end })
             }
-            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => Some(ScenarioGroupSubset::Indices(indices)),
+            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => {
+                if let Some(index) = indices.iter().find(|i| **i >= self.size) {
+                    return Err(ScenarioDomainBuilderError::IndexOutOfRange {
+                        group: self.name.clone(),
+                        size: self.size,
+                        index: *index,
+                    });
+                }
+
+                Some(ScenarioGroupSubset::Indices(indices))
+            }
             Some(ScenarioGroupSubsetBuilder::Labels(subset_labels)) => {
                 if let Some(labels) = &self.labels {
                     let indices: Vec<usize> = subset_labels
@@ -372,7 +387,9 @@ impl ScenarioDomainBuilder {
     /// # Errors
     ///
     /// A [`ScenarioDomainBuilderError::CombinationsAndSlices`] will be returned if the combinations and slices
-    /// are both defined as this is not currently supported.
+    /// are both defined as this is not currently supported. A
+    /// [`ScenarioDomainBuilderError::IncorrectCombinationLength`] or [`ScenarioDomainBuilderError::IndexOutOfRange`]
+    /// will be returned if a combination does not select one scenario of each group.
     /// Other [`ScenarioDomainBuilderError`] variants may be returned from the group builders if the groups are
     /// not valid (e.g. invalid slices or labels).
     ///
@@ -404,11 +421,25 @@ impl ScenarioDomainBuilder {
                 let combinations = combinations
                     .iter()
                     .map(|combination| {
+                        if combination.len() != self.groups.len() {
+                            return Err(ScenarioDomainBuilderError::IncorrectCombinationLength {
+                                found: combination.len(),
+                                expected: self.groups.len(),
+                            });
+                        }
+
                         combination
                             .iter()
                             .zip(&self.groups)
                             .map(|(c, group)| match c {
                                 ScenarioLabelOrIndex::Label(label) => group.label_position(label),
+                                ScenarioLabelOrIndex::Index(index) if *index >= group.size => {
+                                    Err(ScenarioDomainBuilderError::IndexOutOfRange {
+                                        group: group.name.clone(),
+                                        size: group.size,
+                                        index: *index,
+                                    })
+                                }
                                 ScenarioLabelOrIndex::Index(index) => Ok(*index),
                             })
                             .collect::<Result<Vec<usize>, ScenarioDomainBuilderError>>()
-- 
2.43.0


From d01fc6f4996a265fed14cb54c6d8ce42d3c9a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 10/66] fix: return the error of a step run in parallel instead
 of panicking

The serial step reports an infeasible scenario or a failed parameter as
an error; the parallel and multi-scenario steps unwrapped it.
---
 pywr-core/src/network.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pywr-core/src/network.rs b/pywr-core/src/network.rs
index b8ead57..557baac 100644
--- a/pywr-core/src/network.rs
+++ b/pywr-core/src/network.rs
@@ -841,14 +841,13 @@ impl Network {
                     // TODO clear the current parameter values state (i.e. set them all to zero).
 
                     let start_p_calc = Instant::now();
-                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)
-                        .unwrap();
+                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)?;
 
                     // State now contains updated parameter values BUT original network state
                     let mut parameter_calculation = start_p_calc.elapsed();
 
                     // Solve determines the new network state
-                    let solve_timings = solver.solve(self, timestep, current_state).unwrap();
+                    let solve_timings = solver.solve(self, timestep, current_state)?;
                     // State now contains updated parameter values AND updated network state
 
                     // Now run the "after" method on all components
@@ -860,15 +859,14 @@ impl Network {
                         p_internal_state,
                         ms_internal_state,
                         None,
-                    )
-                    .unwrap();
+                    )?;
 
                     parameter_calculation += start_p_after.elapsed();
 
-                    (parameter_calculation, solve_timings)
+                    Ok::<_, NetworkStepError>((parameter_calculation, solve_timings))
                 },
             )
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         // Add them all together
         for (parameter_calculation, solve_timings) in step_times.into_iter() {
@@ -901,13 +899,12 @@ impl Network {
                 // TODO clear the current parameter values state (i.e. set them all to zero).
 
                 let start_p_calc = Instant::now();
-                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)
-                    .unwrap();
+                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)?;
 
                 // State now contains updated parameter values BUT original network state
-                start_p_calc.elapsed()
+                Ok::<_, NetworkStepError>(start_p_calc.elapsed())
             })
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         for t in p_calc_timings.into_iter() {
             timings.component_timings.total += t;
@@ -915,7 +912,7 @@ impl Network {
 
         // Now solve all the LPs simultaneously
 
-        let solve_timings = solver.solve(self, timestep, &mut state.states).unwrap();
+        let solve_timings = solver.solve(self, timestep, &mut state.states)?;
         // State now contains updated parameter values AND updated network state
         timings.solve += solve_timings;
 
@@ -935,12 +932,11 @@ impl Network {
                         p_internal_states,
                         ms_internal_states,
                         None,
-                    )
-                    .unwrap();
-                    start_p_after.elapsed()
+                    )?;
+                    Ok::<_, NetworkStepError>(start_p_after.elapsed())
                 },
             )
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         for t in p_after_timings.into_iter() {
             timings.component_timings.total += t;
-- 
2.43.0


From d1ae72fb0e34709c8422cd877aaaac9437a69ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 11/66] fix: split values at the end of the current period of a
 fixed number of days

A value was split as if the period started with the value itself. A value crossing
the end of the period (e.g. a 2 day value from the third day of 3 day periods) was
not split, so the second part of it was counted in the wrong period and the following
periods were shifted.
---
 pywr-core/src/recorders/aggregator/mod.rs | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index a0030ea..375d0bf 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -47,14 +47,27 @@ impl AggregationFrequency {
 
     /// Split the value representing a period into multiple ['PeriodValue'] that do not cross the
     /// boundary of the given period.
-    fn split_value_into_periods(&self, value: PeriodValue<f64>) -> Vec<PeriodValue<f64>> {
+    ///
+    /// If there is a current period then `period_start` is its start. Periods of a fixed number of days
+    /// follow on from this date, rather than from the start of the given value.
+    fn split_value_into_periods(
+        &self,
+        value: PeriodValue<f64>,
+        period_start: Option<DateTime>,
+    ) -> Vec<PeriodValue<f64>> {
         let mut sub_values = Vec::new();
 
         let mut current_date = value.start;
         let end_date = value.duration + value.start;
+        let mut period_start = period_start.unwrap_or(current_date);
 
         while current_date < end_date {
-            let start_of_next_period = self.start_of_next_period(&current_date);
+            let mut start_of_next_period = self.start_of_next_period(&period_start);
+            if start_of_next_period <= current_date {
+                // The value starts a new period.
+                start_of_next_period = self.start_of_next_period(&current_date);
+            }
+            period_start = start_of_next_period;
 
             let current_duration = if start_of_next_period <= end_date {
                 start_of_next_period.duration_since(current_date)
@@ -81,6 +94,14 @@ struct PeriodicAggregatorState {
 }
 
 impl PeriodicAggregatorState {
+    /// The start of the current period, if there is one.
+    fn current_period_start(&self) -> Option<DateTime> {
+        self.current_values
+            .as_ref()
+            .and_then(|values| values.first())
+            .map(|value| value.start)
+    }
+
     fn process_value(
         &mut self,
         value: PeriodValue<f64>,
@@ -238,7 +259,7 @@ impl PeriodicAggregator {
         let mut agg_value = None;
 
         if let Some(period) = &self.frequency {
-            for v in period.split_value_into_periods(value) {
+            for v in period.split_value_into_periods(value, current_state.current_period_start()) {
                 let av = current_state.process_value(v, period, &self.function);
                 if av.is_some() {
                     if agg_value.is_some() {
-- 
2.43.0


From 67165668c656f3dc79fee5a28173c9566097a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 12/66] fix: report the metric set's name in the memory
 recorder's data frame

The column "metric_set" contained the name of the recorder.
---
 pywr-core/src/recorders/memory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index 86ad39a..fb49a22 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -164,6 +164,7 @@ struct LongFmtRecord {
 pub struct MemoryRecorderResult {
     meta: RecorderMeta,
     scenario_indices: Vec<ScenarioIndex>,
+    metric_set_name: String,
     metric_names: Vec<String>,
     metric_attrs: Vec<String>,
     data: Vec<Vec<PeriodValue<Vec<f64>>>>,
@@ -235,7 +236,7 @@ impl MemoryRecorderResult {
                             time_end: pv.end(),
                             simulation_id: scenario_index.simulation_id(),
                             label: scenario_index.label(),
-                            metric_set: self.meta.name.clone(),
+                            metric_set: self.metric_set_name.clone(),
                             name: name.clone(),
                             attribute: attr.clone(),
                             value: *v,
@@ -378,6 +379,7 @@ impl Recorder for MemoryRecorder {
         let result = MemoryRecorderResult {
             meta: self.meta.clone(),
             scenario_indices: scenario_indices.to_vec(),
+            metric_set_name: metric_set.name().to_string(),
             metric_names: metric_set.iter_metrics().map(|m| m.name().to_string()).collect(),
             metric_attrs: metric_set.iter_metrics().map(|m| m.attribute().to_string()).collect(),
             data: internal_state.data,
-- 
2.43.0


From 76d983bbe55a341e68246bf10c309cd1c3aafcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 13/66] fix: return an error for a timestep frequency that can
 not be parsed

---
 pywr-core/src/timestep.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/timestep.rs b/pywr-core/src/timestep.rs
index 3f61d08..ff14150 100644
--- a/pywr-core/src/timestep.rs
+++ b/pywr-core/src/timestep.rs
@@ -315,7 +315,8 @@ impl TimeDomainBuilder {
     ///
     /// Valid frequency strings are those that can be parsed by `polars::time::Duration::parse`. See: [https://docs.rs/polars-time/latest/polars_time/struct.Duration.html#method.parse]
     fn generate_timesteps_from_frequency(&self, frequency: &str) -> Result<Vec<Timestep>, TimeDomainBuilderError> {
-        let duration = polars::time::Duration::parse(frequency);
+        let duration = polars::time::Duration::try_parse(frequency)
+            .map_err(|_| TimeDomainBuilderError::GenerationError(frequency.to_string()))?;
 
         if duration.negative() || duration.is_zero() {
             return Err(TimeDomainBuilderError::NonPositiveTimestepDuration);
-- 
2.43.0


From 6bf92c2e046478d7399326ae78667a4268c93e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 14/66] fix: load scalar tables with three or four keys

---
 pywr-schema/src/data_tables/scalar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index fae00c9..e5a1a43 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -99,8 +99,8 @@ impl LoadedScalarTable {
         match rows {
             1 => Ok(LoadedScalarTable::One(load_csv_rows_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_rows_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_rows_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
@@ -112,8 +112,8 @@ impl LoadedScalarTable {
         match cols {
             1 => Ok(LoadedScalarTable::One(load_csv_cols_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_cols_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_cols_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
-- 
2.43.0


From d1d33530427235f6e94fab27d50f2a5a6fbb74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 15/66] fix: return an error for scalar tables without values
 instead of panicking

---
 pywr-schema/src/data_tables/scalar.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index e5a1a43..76ba529 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -262,7 +262,11 @@ fn load_csv_rows_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
                 });
             }
 
-            Ok((key, values[0]))
+            let value = values
+                .first()
+                .ok_or_else(|| TableError::Csv("Row has no value column".to_string()))?;
+
+            Ok((key, *value))
         })
         .collect::<Result<_, TableError>>()?;
 
@@ -330,10 +334,14 @@ fn load_csv_cols_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
         });
     }
 
+    let row = rows
+        .first()
+        .ok_or_else(|| TableError::Csv("Table has no row of values".to_string()))?;
+
     // Turn this into a look-up table with key (row, column)
     let mut values: HashMap<[String; N], TableScalarValue> = HashMap::new();
 
-    for (col, value) in col_headers.iter().zip(&rows[0]) {
+    for (col, value) in col_headers.iter().zip(row) {
         if let Some(v) = value {
             // SAFETY: We have already checked ensured that the number of header rows is N
             let key: [String; N] = col.to_vec().try_into().unwrap();
-- 
2.43.0


From 39ab2cbf55f16723972b16bc96fcbdc37943dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 16/66] fix: do not saturate table values that are too large
 for an unsigned integer

---
 pywr-schema/src/data_tables/scalar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index 76ba529..608dd85 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -25,7 +25,8 @@ impl TableScalarValue {
     pub fn try_as_u64(&self) -> Option<u64> {
         match self {
             TableScalarValue::Float(v) => {
-                if *v >= 0.0 && v.fract() == 0.0 {
+                // NB `u64::MAX as f64` rounds up to 2^64, which is itself too large.
+                if *v >= 0.0 && *v < u64::MAX as f64 && v.fract() == 0.0 {
                     Some(*v as u64)
                 } else {
                     None
-- 
2.43.0


From f5903f7e9c41e5493917d0b98f286099bdd534da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 17/66] fix: return an error for timeseries data that can not
 be aligned instead of panicking

---
 pywr-schema/src/timeseries/align_and_resample.rs | 7 ++++++-
 pywr-schema/src/timeseries/mod.rs                | 4 ++++
 pywr-schema/src/timeseries/polars_dataset.rs     | 3 ---
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index d50e575..c92a0f4 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -26,6 +26,11 @@ pub fn align_and_resample(
     // Ensure that df start aligns with models start for any resampling
     let df = slice_start(df, time_col, domain)?;
 
+    // At least two rows are required to determine the duration
+    if df.height() < 2 {
+        return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string()));
+    }
+
     // Get the durations of the time column
     let durations = df
         .clone()
@@ -38,7 +43,7 @@ pub fn align_and_resample(
     let durations = durations.column("duration")?.duration()?;
 
     if durations.len() > 1 {
-        todo!("Non-uniform timestep are not yet supported");
+        return Err(TimeseriesError::TimeseriesNonUniform(name.to_string()));
     }
 
     let timeseries_duration = match durations.physical().get(0) {
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 2220a9d..56ac3d3 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -49,6 +49,10 @@ pub enum TimeseriesError {
     TimeseriesUnsupportedFileFormat { provider: String, fmt: String },
     #[error("Timeseries provider '{provider}' cannot parse file: '{path}'")]
     TimeseriesUnparsableFileFormat { provider: String, path: String },
+    #[error("The timeseries '{0}' does not have a uniform duration between its rows, which is not yet supported.")]
+    TimeseriesNonUniform(String),
+    #[error("The timeseries '{0}' can not be resampled to model timesteps that are not of uniform duration.")]
+    ModelTimestepsNonUniform(String),
     #[error("A scenario group with name '{0}' was not found")]
     ScenarioGroupNotFound(String),
     #[error("The length of the resampled timeseries dataframe '{0}' does not match the number of model timesteps.")]
diff --git a/pywr-schema/src/timeseries/polars_dataset.rs b/pywr-schema/src/timeseries/polars_dataset.rs
index b909f1f..d283a93 100644
--- a/pywr-schema/src/timeseries/polars_dataset.rs
+++ b/pywr-schema/src/timeseries/polars_dataset.rs
@@ -69,9 +69,6 @@ mod core {
 
                             read_options.try_into_reader_with_file_path(Some(fp))?.finish()?
                         }
-                        Some("parquet") => {
-                            todo!()
-                        }
                         Some(other_ext) => {
                             return Err(TimeseriesError::TimeseriesUnsupportedFileFormat {
                                 provider: "polars".to_string(),
-- 
2.43.0


From a7174d605ae8f213ec4787f2644505bb30d740af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 18/66] fix: refuse to resample timeseries to timesteps of
 varying duration

---
 pywr-schema/src/timeseries/align_and_resample.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index c92a0f4..c9e7314 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -51,8 +51,10 @@ pub fn align_and_resample(
         None => return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string())),
     };
 
-    // Use the first timestep of the domain to determine if the timeseries needs to be upsampled or downsampled.
-    let model_duration = domain.first_timestep().duration;
+    // Use the duration of the model's timesteps to determine if the timeseries needs to be upsampled or downsampled.
+    let model_duration = domain
+        .fixed_step_duration()
+        .ok_or_else(|| TimeseriesError::ModelTimestepsNonUniform(name.to_string()))?;
     let model_duration_string = model_duration.duration_string();
 
     let df = match model_duration.milliseconds().cmp(&timeseries_duration) {
-- 
2.43.0


From 57b35ef886933aafbc72da7c37896aad0b063ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 19/66] fix: keep every value when upsampling timeseries to a
 step that does not divide its own

---
 pywr-schema/src/timeseries/align_and_resample.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index c9e7314..3588a3f 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -80,9 +80,20 @@ pub fn align_and_resample(
             // Upsample
             // TODO: this does not extend the dataframe beyond its original end date. Should it do when using a forward fill strategy?
             // The df could be extend by the length of the duration it is being resampled to.
+            // The timeseries duration might not be a multiple of the model's duration. Upsample to their greatest
+            // common divisor, so that every row is kept, before taking the rows at the model's timesteps.
+            let model_milliseconds = model_duration.milliseconds();
+            let common_milliseconds = num::integer::gcd(model_milliseconds, timeseries_duration);
+            let every = Duration::parse(format!("{common_milliseconds}ms").as_str());
+
             df.clone()
-                .upsample::<[String; 0]>([], time_col, Duration::parse(model_duration_string.as_str()))?
+                .upsample::<[String; 0]>([], time_col, every)?
                 .fill_null(FillNullStrategy::Forward(None))?
+                .lazy()
+                .select([all()
+                    .as_expr()
+                    .gather_every((model_milliseconds / common_milliseconds) as usize, 0)])
+                .collect()?
         }
         Ordering::Equal => df,
     };
-- 
2.43.0


From 00007a58fc6c5d58f506aab5a0138618c30ce74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 20/66] fix: give the parameters of a timeseries names that can
 not be mistaken

---
 pywr-schema/src/timeseries/mod.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 56ac3d3..f5027e1 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -159,6 +159,18 @@ impl TryFrom<LoadTimeseriesError> for PyErr {
     }
 }
 
+// Sub-names for the parameters that are created from a timeseries. These ensure that the same column loaded as
+// different types, a scenario group with the same name as a column, or the local parameter of a node
+// with the same name as the timeseries are not mistaken for each other.
+#[cfg(feature = "core")]
+const TIMESERIES_F64: &str = "timeseries-f64";
+#[cfg(feature = "core")]
+const TIMESERIES_U64: &str = "timeseries-u64";
+#[cfg(feature = "core")]
+const TIMESERIES_SCENARIO_F64: &str = "timeseries-scenario-f64";
+#[cfg(feature = "core")]
+const TIMESERIES_SCENARIO_U64: &str = "timeseries-scenario-u64";
+
 #[derive(Default)]
 #[cfg(feature = "core")]
 pub struct LoadedTimeseriesCollection {
@@ -203,7 +215,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = ParameterName::new_with_subname(col, Some(TIMESERIES_F64), Some(name));
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -226,7 +238,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = ParameterName::new_with_subname(col, Some(TIMESERIES_U64), Some(name));
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -260,7 +272,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = ParameterName::new_with_subname(col, Some(TIMESERIES_F64), Some(name));
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -294,7 +306,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = ParameterName::new_with_subname(col, Some(TIMESERIES_U64), Some(name));
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -319,7 +331,7 @@ impl LoadedTimeseriesCollection {
         // Original array as loaded from the timeseries
         let array: Array2<f64> = df.to_ndarray::<Float64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = ParameterName::new_with_subname(scenario, Some(TIMESERIES_SCENARIO_F64), Some(name));
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
             network.parameters().f64(Box::new(p));
@@ -343,7 +355,7 @@ impl LoadedTimeseriesCollection {
 
         let array: Array2<u64> = df.to_ndarray::<UInt64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = ParameterName::new_with_subname(scenario, Some(TIMESERIES_SCENARIO_U64), Some(name));
 
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
-- 
2.43.0


From 5c0ffb3183c50d5dc566cc921b54c6d739cd6fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 21/66] fix: return an error when a scenario subset is not in
 the columns of an array

---
 pywr-core/src/parameters/array.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pywr-core/src/parameters/array.rs b/pywr-core/src/parameters/array.rs
index 0c3339c..92d016f 100644
--- a/pywr-core/src/parameters/array.rs
+++ b/pywr-core/src/parameters/array.rs
@@ -353,6 +353,15 @@ fn subset_array2<T>(array: &Array2<T>, subset: &[usize]) -> Result<Array2<T>, Pa
 where
     T: Copy,
 {
+    // Every index must be one of the array's columns
+    if subset.iter().any(|c| *c >= array.ncols()) {
+        return Err(ParameterBuildError::ArraySubSetError {
+            array_shape: array.shape().to_vec(),
+            subset: subset.to_vec(),
+            source: ndarray::ShapeError::from_kind(ndarray::ErrorKind::OutOfBounds),
+        });
+    }
+
     // Slice the array to only include the columns that are used in the scenario
     let slices = subset.iter().map(|c| array.slice(s![.., *c])).collect::<Vec<_>>();
     // Stack the slices to create a new array; this should be infallible because
-- 
2.43.0


From 51c9847c8fba5a105093090229d833356a922f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 22/66] fix: report invalid factors of an aggregated node
 instead of ignoring them

---
 pywr-core/src/aggregated_node.rs | 13 ++++++++-----
 pywr-core/src/solvers/builder.rs | 22 +++++++++++++++++-----
 pywr-core/src/solvers/mod.rs     | 14 ++++++++++++++
 3 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 7beecb0..89d6c7a 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -744,7 +744,7 @@ fn get_norm_proportional_factor_pairs<'a>(
         .iter()
         .map(|f| {
             let v = f.get_value(model, state)?;
-            if v < 0.0 {
+            if v.is_nan() || v <= 0.0 {
                 Err(ProportionalFactorError::NegativeOrZeroFactor { value: v })
             } else {
                 Ok(v)
@@ -810,7 +810,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
         .map(|f| {
             let v = f.try_get_constant_value(values)?;
             if let Some(v) = v {
-                if v < 0.0 {
+                if v.is_nan() || v <= 0.0 {
                     Err(ConstantProportionalFactorError::NegativeOrZeroFactor { value: v })
                 } else {
                     Ok(Some(v))
@@ -902,7 +902,7 @@ fn get_norm_ratio_factor_pairs<'a>(
 
     let n0 = nodes[0].as_slice();
     let f0 = factors[0].get_value(model, state)?;
-    if f0 < 0.0 {
+    if f0.is_nan() || f0 < 0.0 {
         return Err(RatioFactorError::NegativeOrZeroFactor { value: f0 });
     }
 
@@ -912,6 +912,9 @@ fn get_norm_ratio_factor_pairs<'a>(
         .skip(1)
         .map(|(n1, f1)| {
             let v1 = f1.get_value(model, state)?;
+            if v1.is_nan() || v1 <= 0.0 {
+                return Err(RatioFactorError::NegativeOrZeroFactor { value: v1 });
+            }
 
             Ok(NodeFactorPair::new(
                 NodeFactor::new(n0, 1.0),
@@ -958,7 +961,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
     let f0 = factors[0].try_get_constant_value(values)?;
 
     if let Some(v0) = f0 {
-        if v0 < 0.0 {
+        if v0.is_nan() || v0 < 0.0 {
             return Err(ConstantRatioFactorError::NegativeOrZeroFactor { value: v0 });
         }
     }
@@ -971,7 +974,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
             let v1 = f1.try_get_constant_value(values)?;
 
             if let Some(v) = v1 {
-                if v < 0.0 {
+                if v.is_nan() || v <= 0.0 {
                     return Err(ConstantRatioFactorError::NegativeOrZeroFactor { value: v });
                 }
             }
diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 7950d71..6b99d90 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -556,7 +556,13 @@ where
                 .ok_or(SolverSolveError::AggregatedNodeIndexNotFound(agg_node_row.agg_node_idx))?;
 
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_norm_factor_pairs(network, state) {
+            if let Some(node_pairs) = agg_node.get_norm_factor_pairs(network, state) {
+                let node_pairs = node_pairs.map_err(|source| SolverSolveError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
+
                 assert_eq!(
                     agg_node_row.row_indices.len(),
                     node_pairs.len(),
@@ -690,7 +696,7 @@ where
         // Create the aggregated node constraints
         let agg_node_constraint_row_ids = self.create_aggregated_node_constraints(network);
         // Create the aggregated node factor constraints
-        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values);
+        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values)?;
         // Create virtual storage constraints
         let virtual_storage_constraint_row_ids = self.create_virtual_storage_constraints(network);
         // Create mutual exclusivity constraints
@@ -970,12 +976,18 @@ where
         &mut self,
         network: &Network,
         values: &ConstParameterValues,
-    ) -> Vec<AggNodeFactorRow<I>> {
+    ) -> Result<Vec<AggNodeFactorRow<I>>, SolverSetupError> {
         let mut row_ids = Vec::new();
 
         for agg_node in network.aggregated_nodes() {
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_const_norm_factor_pairs(values) {
+            if let Some(node_pairs) = agg_node.get_const_norm_factor_pairs(values) {
+                let node_pairs = node_pairs.map_err(|source| SolverSetupError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
+
                 let mut row_indices_for_agg_node = Vec::with_capacity(node_pairs.len());
 
                 for node_pair in node_pairs {
@@ -1025,7 +1037,7 @@ where
             }
         }
 
-        row_ids
+        Ok(row_ids)
     }
 
     /// Create aggregated node constraints
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index 82792e7..9fb622e 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -119,6 +119,13 @@ pub enum SolverSetupError {
     NoEdgesDefined,
     #[error("Node index not found: {0}")]
     NodeIndexNotFound(NodeIndex),
+    #[error("Aggregated node `{name}` and sub-name `{}` error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::ConstantFactorError,
+    },
     #[cfg(feature = "highs")]
     #[error("Highs error: {0}")]
     HighsError(#[from] highs::HighsStatusError),
@@ -150,6 +157,13 @@ pub enum SolverSolveError {
         #[source]
         source: crate::aggregated_node::AggregatedNodeError,
     },
+    #[error("Aggregated node `{name}` and sub-name `{}` error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::FactorError,
+    },
     #[error("Virtual storage error: {0}")]
     VirtualStorageError(#[from] crate::virtual_storage::VirtualStorageError),
     #[error("Node index not found: {0}")]
-- 
2.43.0


From 4dc51da2c7227e02d5dcf0192f0645f866a38471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 23/66] fix: leave the fields of the memory recorder's result
 as they were

The name of the metric set is kept beside the result.
---
 pywr-core/src/recorders/memory.rs | 35 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index fb49a22..362f377 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -164,7 +164,6 @@ struct LongFmtRecord {
 pub struct MemoryRecorderResult {
     meta: RecorderMeta,
     scenario_indices: Vec<ScenarioIndex>,
-    metric_set_name: String,
     metric_names: Vec<String>,
     metric_attrs: Vec<String>,
     data: Vec<Vec<PeriodValue<Vec<f64>>>>,
@@ -221,12 +220,12 @@ impl MemoryRecorderResult {
         self.aggregation.apply_scenario_func(&scenario_data)
     }
 
-    fn iter_long_fmt_records(&self) -> impl Iterator<Item = LongFmtRecord> {
+    fn iter_long_fmt_records<'a>(&'a self, metric_set_name: &'a str) -> impl Iterator<Item = LongFmtRecord> + 'a {
         self.scenario_indices
             .iter()
             .zip(self.data.iter())
-            .flat_map(|(scenario_index, scenario_data)| {
-                scenario_data.iter().flat_map(|pv| {
+            .flat_map(move |(scenario_index, scenario_data)| {
+                scenario_data.iter().flat_map(move |pv| {
                     pv.value
                         .iter()
                         .zip(self.metric_names.iter())
@@ -236,7 +235,7 @@ impl MemoryRecorderResult {
                             time_end: pv.end(),
                             simulation_id: scenario_index.simulation_id(),
                             label: scenario_index.label(),
-                            metric_set: self.metric_set_name.clone(),
+                            metric_set: metric_set_name.to_string(),
                             name: name.clone(),
                             attribute: attr.clone(),
                             value: *v,
@@ -246,24 +245,30 @@ impl MemoryRecorderResult {
     }
 }
 
-impl RecorderFinalResult for MemoryRecorderResult {
+/// The final results of the memory recorder along with the name of the metric set they are from.
+struct MetricSetMemoryRecorderResult {
+    metric_set_name: String,
+    result: MemoryRecorderResult,
+}
+
+impl RecorderFinalResult for MetricSetMemoryRecorderResult {
     /// Aggregate the saved data to a single value using the provided aggregation functions.
     ///
     /// This method will first aggregation over the metrics, then over time, and finally over the scenarios.
     fn aggregated_value(&self) -> Result<f64, RecorderAggregationError> {
-        let agg_value = match self.order {
-            AggregationOrder::MetricTimeScenario => self.aggregate_metric_time_scenario(),
-            AggregationOrder::TimeMetricScenario => self.aggregate_time_metric_scenario(),
+        let agg_value = match self.result.order {
+            AggregationOrder::MetricTimeScenario => self.result.aggregate_metric_time_scenario(),
+            AggregationOrder::TimeMetricScenario => self.result.aggregate_time_metric_scenario(),
         };
 
         agg_value.map_err(|source| RecorderAggregationError::AggregationError {
-            name: self.meta.name.clone(),
+            name: self.result.meta.name.clone(),
             source,
         })
     }
 
     fn to_dataframe(&self) -> Result<DataFrame, RecorderDataFrameError> {
-        let records: Vec<LongFmtRecord> = self.iter_long_fmt_records().collect();
+        let records: Vec<LongFmtRecord> = self.result.iter_long_fmt_records(&self.metric_set_name).collect();
 
         df!(
             "time_start" => records.iter().map(|r| r.time_start.to_string()).collect::<Vec<_>>(),
@@ -276,7 +281,7 @@ impl RecorderFinalResult for MemoryRecorderResult {
             "value" => records.iter().map(|r| r.value).collect::<Vec<_>>(),
         )
         .map_err(|source| RecorderDataFrameError::PolarsError {
-            name: self.meta.name.clone(),
+            name: self.result.meta.name.clone(),
             source,
         })
     }
@@ -379,7 +384,6 @@ impl Recorder for MemoryRecorder {
         let result = MemoryRecorderResult {
             meta: self.meta.clone(),
             scenario_indices: scenario_indices.to_vec(),
-            metric_set_name: metric_set.name().to_string(),
             metric_names: metric_set.iter_metrics().map(|m| m.name().to_string()).collect(),
             metric_attrs: metric_set.iter_metrics().map(|m| m.attribute().to_string()).collect(),
             data: internal_state.data,
@@ -387,7 +391,10 @@ impl Recorder for MemoryRecorder {
             order: self.order,
         };
 
-        Ok(Some(Box::new(result)))
+        Ok(Some(Box::new(MetricSetMemoryRecorderResult {
+            metric_set_name: metric_set.name().to_string(),
+            result,
+        })))
     }
 }
 
-- 
2.43.0


From d7c6d3bbe11e636121fd2c93947ee39c307e7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 24/66] fix: return an error for a volume out of its bounds
 instead of panicking

---
 pywr-core/src/state/mod.rs     | 43 ++++++++++++++++++++++++----------
 pywr-core/src/state/storage.rs | 41 ++++++++++++++++++++++----------
 2 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 7ea58c0..57d8fa2 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -23,7 +23,7 @@ use std::collections::{HashMap, VecDeque};
 use std::fmt::Display;
 use std::num::NonZeroUsize;
 use std::ops::Deref;
-use storage::StorageState;
+use storage::{StorageState, StorageVolumeError};
 use thiserror::Error;
 
 #[derive(Clone, Copy, Debug)]
@@ -76,9 +76,10 @@ impl NodeState {
         };
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) {
-        if let Self::Storage(s) = self {
-            s.finalise(min_volume, max_volume)
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) -> Result<(), StorageVolumeError> {
+        match self {
+            Self::Flow(_) => Ok(()),
+            Self::Storage(s) => s.finalise(min_volume, max_volume),
         }
     }
 }
@@ -169,7 +170,7 @@ impl VirtualStorageState {
         }
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) {
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) -> Result<(), StorageVolumeError> {
         self.storage.finalise(min_volume, max_volume)
     }
 }
@@ -458,6 +459,18 @@ pub enum NetworkStateError {
     VirtualStorageIndexNotFound(VirtualStorageIndex),
     #[error("Node has no volume: {0}")]
     NodeHasNoVolume(NodeIndex),
+    #[error("Invalid volume for node `{index}`: {source}")]
+    NodeVolume {
+        index: NodeIndex,
+        #[source]
+        source: StorageVolumeError,
+    },
+    #[error("Invalid volume for virtual storage `{index}`: {source}")]
+    VirtualStorageVolume {
+        index: VirtualStorageIndex,
+        #[source]
+        source: StorageVolumeError,
+    },
 }
 
 // State of the nodes and edges
@@ -574,10 +587,12 @@ impl NetworkState {
         max_volume: f64,
     ) -> Result<(), NetworkStateError> {
         match self.node_states.get_mut(*node_index.deref()) {
-            Some(s) => {
-                s.finalise_volume(min_volume, max_volume);
-                Ok(())
-            }
+            Some(s) => s
+                .finalise_volume(min_volume, max_volume)
+                .map_err(|source| NetworkStateError::NodeVolume {
+                    index: *node_index,
+                    source,
+                }),
             None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
         }
     }
@@ -590,10 +605,12 @@ impl NetworkState {
         max_volume: f64,
     ) -> Result<(), NetworkStateError> {
         match self.virtual_storage_states.get_mut(*node_index.deref()) {
-            Some(s) => {
-                s.finalise_volume(min_volume, max_volume);
-                Ok(())
-            }
+            Some(s) => s
+                .finalise_volume(min_volume, max_volume)
+                .map_err(|source| NetworkStateError::VirtualStorageVolume {
+                    index: *node_index,
+                    source,
+                }),
             None => Err(NetworkStateError::VirtualStorageIndexNotFound(*node_index)),
         }
     }
diff --git a/pywr-core/src/state/storage.rs b/pywr-core/src/state/storage.rs
index 91ff129..7ec42be 100644
--- a/pywr-core/src/state/storage.rs
+++ b/pywr-core/src/state/storage.rs
@@ -2,6 +2,18 @@ use crate::STORAGE_MASS_BALANCE_TOLERANCE;
 use crate::state::FlowState;
 use crate::timestep::Timestep;
 use num::Zero;
+use thiserror::Error;
+
+/// Errors found when the volume of a storage is finalised at the end of a time-step.
+#[derive(Debug, Error)]
+pub enum StorageVolumeError {
+    #[error("Mass-balance error detected. Volume ({volume}) is smaller than minimum volume ({min_volume}).")]
+    BelowMinimum { volume: f64, min_volume: f64 },
+    #[error("Mass-balance error detected. Volume ({volume}) is greater than maximum volume ({max_volume}).")]
+    AboveMaximum { volume: f64, max_volume: f64 },
+    #[error("Minimum volume ({min_volume}) is not less than or equal to the maximum volume ({max_volume}).")]
+    InvalidBounds { min_volume: f64, max_volume: f64 },
+}
 
 /// The state of a storage node in the network.
 ///
@@ -76,27 +88,32 @@ impl StorageState {
     /// Finalise the storage state at the end of the time-step.
     ///
     /// This will clamp the volume to the min and max volume range and update the proportional volume.
-    pub fn finalise(&mut self, min_volume: f64, max_volume: f64) {
-        self.clamp(min_volume, max_volume);
+    pub fn finalise(&mut self, min_volume: f64, max_volume: f64) -> Result<(), StorageVolumeError> {
+        self.clamp(min_volume, max_volume)?;
         self.max_volume = max_volume;
+        Ok(())
     }
 
     /// Ensure the volume is within the min and max volume range (inclusive). If the volume
-    /// is more than 1E6 outside the min or max volume then this function will panic,
+    /// is more than 1E6 outside the min or max volume then this function will return an error,
     /// reporting a mass-balance message.
-    fn clamp(&mut self, min_volume: f64, max_volume: f64) {
+    fn clamp(&mut self, min_volume: f64, max_volume: f64) -> Result<(), StorageVolumeError> {
         if (self.volume - min_volume) < -STORAGE_MASS_BALANCE_TOLERANCE {
-            panic!(
-                "Mass-balance error detected. Volume ({}) is smaller than minimum volume ({}).",
-                self.volume, min_volume
-            );
+            return Err(StorageVolumeError::BelowMinimum {
+                volume: self.volume,
+                min_volume,
+            });
         }
         if (self.volume - max_volume) > STORAGE_MASS_BALANCE_TOLERANCE {
-            panic!(
-                "Mass-balance error detected. Volume ({}) is greater than maximum volume ({}).",
-                self.volume, max_volume,
-            );
+            return Err(StorageVolumeError::AboveMaximum {
+                volume: self.volume,
+                max_volume,
+            });
+        }
+        if min_volume.is_nan() || max_volume.is_nan() || min_volume > max_volume {
+            return Err(StorageVolumeError::InvalidBounds { min_volume, max_volume });
         }
         self.volume = self.volume.clamp(min_volume, max_volume);
+        Ok(())
     }
 }
-- 
2.43.0


From 299468a32010270ecb3a39a5c1763593ad5a559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 25/66] fix: return an error for RBF profiles that can not be
 interpolated instead of panicking

---
 pywr-core/src/parameters/errors.rs       |  2 +
 pywr-core/src/parameters/mod.rs          |  2 +
 pywr-core/src/parameters/profiles/rbf.rs | 69 +++++++++++++++++-------
 3 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/pywr-core/src/parameters/errors.rs b/pywr-core/src/parameters/errors.rs
index 85dca64..49503f3 100644
--- a/pywr-core/src/parameters/errors.rs
+++ b/pywr-core/src/parameters/errors.rs
@@ -17,6 +17,8 @@ pub enum ParameterSetupError {
         #[source]
         py_error: Box<pyo3::PyErr>,
     },
+    #[error("The points of the RBF profile parameter `{name}` can not be interpolated.")]
+    InvalidRbfProfile { name: String },
     #[cfg(test)]
     #[error("Test error: {0}")]
     TestError(String),
diff --git a/pywr-core/src/parameters/mod.rs b/pywr-core/src/parameters/mod.rs
index 53d0a86..fde6e31 100644
--- a/pywr-core/src/parameters/mod.rs
+++ b/pywr-core/src/parameters/mod.rs
@@ -1312,6 +1312,8 @@ impl From<ParameterIndex<MultiValue>> for ParameterType {
 pub enum VariableParameterError {
     #[error("Incorrect number of values provided for parameter. Expected {expected}, received {received}")]
     IncorrectNumberOfValues { expected: usize, received: usize },
+    #[error("Invalid values provided for parameter: {0}")]
+    InvalidValues(String),
 }
 
 /// A parameter that can be optimised.
diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 21c484d..69525fb 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -60,14 +60,15 @@ struct RbfProfileInternalState {
 }
 
 impl RbfProfileInternalState {
-    fn new(points: &[(u32, f64)], function: &RadialBasisFunction) -> Self {
-        let profile = interpolate_rbf_profile(points, function);
+    /// Create the state for the given points. Returns `None` if the points can not be interpolated.
+    fn new(points: &[(u32, f64)], function: &RadialBasisFunction) -> Option<Self> {
+        let profile = try_interpolate_rbf_profile(points, function)?;
 
-        Self {
+        Some(Self {
             profile,
             points_x: None,
             points_y: None,
-        }
+        })
     }
 
     /// Update the x values of the points.
@@ -86,7 +87,11 @@ impl RbfProfileInternalState {
 
     /// Update the profile with the given points used as default. Any locally stored x and y values are
     /// used in preference to the default points when interpolating the profile.
-    fn update_profile(&mut self, points: &[(u32, f64)], function: &RadialBasisFunction) {
+    fn update_profile(
+        &mut self,
+        points: &[(u32, f64)],
+        function: &RadialBasisFunction,
+    ) -> Result<(), VariableParameterError> {
         let points: Vec<_> = match (&self.points_x, &self.points_y) {
             (Some(x), Some(y)) => x.iter().zip(y.iter()).map(|(x, y)| (*x, *y)).collect(),
             (Some(x), None) => x
@@ -98,7 +103,11 @@ impl RbfProfileInternalState {
             (None, None) => points.to_vec(),
         };
 
-        self.profile = interpolate_rbf_profile(&points, function);
+        self.profile = try_interpolate_rbf_profile(&points, function).ok_or_else(|| {
+            VariableParameterError::InvalidValues("the points of the RBF profile can not be interpolated".to_string())
+        })?;
+
+        Ok(())
     }
 }
 
@@ -112,7 +121,11 @@ impl Parameter for RbfProfileParameter {
         _timesteps: &[Timestep],
         _scenario_index: &ScenarioIndex,
     ) -> Result<Option<Box<dyn ParameterState>>, ParameterSetupError> {
-        let internal_state = RbfProfileInternalState::new(&self.points, &self.function);
+        let internal_state = RbfProfileInternalState::new(&self.points, &self.function).ok_or_else(|| {
+            ParameterSetupError::InvalidRbfProfile {
+                name: self.meta.name.to_string(),
+            }
+        })?;
         Ok(Some(Box::new(internal_state)))
     }
     fn as_f64_variable(&self) -> Option<&dyn VariableParameter<f64>> {
@@ -181,7 +194,7 @@ impl VariableParameter<f64> for RbfProfileParameter {
             let value = downcast_internal_state_mut::<RbfProfileInternalState>(internal_state);
 
             value.update_y(values.to_vec());
-            value.update_profile(&self.points, &self.function);
+            value.update_profile(&self.points, &self.function)?;
 
             Ok(())
         } else {
@@ -235,7 +248,7 @@ impl VariableParameter<u32> for RbfProfileParameter {
             let value = downcast_internal_state_mut::<RbfProfileInternalState>(internal_state);
 
             value.update_x(values.to_vec());
-            value.update_profile(&self.points, &self.function);
+            value.update_profile(&self.points, &self.function)?;
 
             Ok(())
         } else {
@@ -318,9 +331,20 @@ impl RadialBasisFunction {
 /// Perform radial-basis function interpolation from the given points.
 ///
 /// The provided points are a tuple of observed (x, y) values.
-fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasisFunction, x: &[f64; N]) -> [f64; N] {
+///
+/// Returns `None` if there are no points, or if there is no (unique) set of weights that reproduces
+/// them (e.g. two points have the same x value).
+fn try_interpolate_rbf<const N: usize>(
+    points: &[(f64, f64)],
+    function: &RadialBasisFunction,
+    x: &[f64; N],
+) -> Option<[f64; N]> {
     let n = points.len();
 
+    if n == 0 {
+        return None;
+    }
+
     let matrix = DMatrix::from_fn(n, n, |r, c| {
         let r = (points[c].0 - points[r].0).abs();
         function.compute(r)
@@ -328,10 +352,7 @@ fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasis
 
     let b = DMatrix::from_fn(n, 1, |r, _| points[r].1);
 
-    let weights = matrix
-        .lu()
-        .solve(&b)
-        .expect("Failed to solve RBF system for interpolation weights.");
+    let weights = matrix.lu().solve(&b)?;
 
     let mut profile = [f64::default(); N];
 
@@ -347,7 +368,12 @@ fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasis
             .sum();
     }
 
-    profile
+    Some(profile)
+}
+
+#[cfg(test)]
+fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasisFunction, x: &[f64; N]) -> [f64; N] {
+    try_interpolate_rbf(points, function, x).expect("Failed to solve RBF system for interpolation weights.")
 }
 
 /// Calculate the interpolation weights for the given points.
@@ -355,7 +381,9 @@ fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasis
 /// This method repeats the point 365 days before and after the user provided points. This
 /// helps create a cyclic interpolation suitable for a annual profile. It then repeats the
 /// value for the 58th day to create a daily profile 366 days long.
-fn interpolate_rbf_profile(points: &[(u32, f64)], function: &RadialBasisFunction) -> [f64; 366] {
+///
+/// Returns `None` if the points can not be interpolated.
+fn try_interpolate_rbf_profile(points: &[(u32, f64)], function: &RadialBasisFunction) -> Option<[f64; 366]> {
     // Replicate the points in the year before and after.
     let year_before = points.iter().map(|p| (p.0 as f64 - 365.0, p.1));
     let year_after = points.iter().map(|p| (p.0 as f64 + 365.0, p.1));
@@ -368,13 +396,18 @@ fn interpolate_rbf_profile(points: &[(u32, f64)], function: &RadialBasisFunction
     for (i, v) in x_out.iter_mut().enumerate() {
         *v = i as f64;
     }
-    let short_profile = interpolate_rbf(&points, function, &x_out);
+    let short_profile = try_interpolate_rbf(&points, function, &x_out)?;
 
     let (start, end) = short_profile.split_at(58);
 
     let profile = [start, &[end[0]], end].concat();
 
-    profile.try_into().unwrap()
+    Some(profile.try_into().unwrap())
+}
+
+#[cfg(test)]
+fn interpolate_rbf_profile(points: &[(u32, f64)], function: &RadialBasisFunction) -> [f64; 366] {
+    try_interpolate_rbf_profile(points, function).expect("Failed to interpolate the RBF profile.")
 }
 
 #[derive(Debug)]
-- 
2.43.0


From ba1996f406daf7477b1f4413546483f6f2b8d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 26/66] fix: formatting of the error for a volume out of its
 bounds

---
 pywr-core/src/state/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 57d8fa2..ee7ec74 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -605,12 +605,13 @@ impl NetworkState {
         max_volume: f64,
     ) -> Result<(), NetworkStateError> {
         match self.virtual_storage_states.get_mut(*node_index.deref()) {
-            Some(s) => s
-                .finalise_volume(min_volume, max_volume)
-                .map_err(|source| NetworkStateError::VirtualStorageVolume {
-                    index: *node_index,
-                    source,
-                }),
+            Some(s) => {
+                s.finalise_volume(min_volume, max_volume)
+                    .map_err(|source| NetworkStateError::VirtualStorageVolume {
+                        index: *node_index,
+                        source,
+                    })
+            }
             None => Err(NetworkStateError::VirtualStorageIndexNotFound(*node_index)),
         }
     }
-- 
2.43.0


From 52a453efaafe9c353ab6bc31887b50c679d894f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 27/66] fix: return an error for index metrics of nodes and
 transfers instead of panicking

---
 pywr-core/src/metric.rs   |  7 ++++++-
 pywr-schema/src/error.rs  |  2 ++
 pywr-schema/src/metric.rs | 10 ++++++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/metric.rs b/pywr-core/src/metric.rs
index f099220..3c2eb35 100644
--- a/pywr-core/src/metric.rs
+++ b/pywr-core/src/metric.rs
@@ -1338,6 +1338,8 @@ pub enum MetricU64Error {
     CannotSimplifyMetric,
     #[error("General parameter with has no key: {key}")]
     GeneralMultiValueParameterKeyNotFound { key: String },
+    #[error("Inter-network transfer {index:?} can not be used as an index (integer) metric")]
+    InterNetworkTransferNotSupported { index: MultiNetworkTransferIndex },
 }
 
 #[derive(Clone, Debug, PartialEq)]
@@ -1376,7 +1378,10 @@ impl MetricU64 {
                 Ok(*value)
             }
             Self::Simple(s) => Ok(s.get_value(&state.get_simple_parameter_values())?),
-            Self::InterNetworkTransfer(_idx) => todo!("Support usize for inter-network transfers"),
+            // TODO support usize for inter-network transfers
+            Self::InterNetworkTransfer(index) => {
+                Err(MetricU64Error::InterNetworkTransferNotSupported { index: *index })
+            }
         }
     }
 }
diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index 32770d9..fbdd787 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -60,6 +60,8 @@ pub enum SchemaError {
     CoreNodeNotFound { name: String, sub_name: Option<String> },
     #[error("Attribute `{attr}` not supported.")]
     NodeAttributeNotSupported { attr: NodeAttribute },
+    #[error("Node `{name}` can not be used as an index (integer) metric.")]
+    NodeIndexMetricNotSupported { name: String },
     #[error("Component `{attr}` not supported.")]
     NodeComponentNotSupported { attr: NodeComponent },
     #[error("Input slot `{slot}` not supported.")]
diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index 0ac0e21..ff1ef8f 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -327,7 +327,10 @@ impl NodeAttrReference {
                 name: self.name.clone(),
             })?;
 
-        todo!("Support usize attributes on nodes.")
+        // TODO support usize attributes on nodes.
+        Err(SchemaError::NodeIndexMetricNotSupported {
+            name: self.name.clone(),
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
@@ -427,7 +430,10 @@ impl VirtualNodeAttrReference {
                     name: self.name.clone(),
                 })?;
 
-        todo!("Support usize attributes on nodes.")
+        // TODO support usize attributes on nodes.
+        Err(SchemaError::NodeIndexMetricNotSupported {
+            name: self.name.clone(),
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
-- 
2.43.0


From 6346457c30c991fbcd6bccc37814e0d5cda16b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 28/66] fix: return an error for aggregation periods that can
 not be used instead of panicking

---
 pywr-core/src/recorders/aggregator/mod.rs | 41 ++++++++++-------------
 pywr-schema/src/error.rs                  |  2 ++
 pywr-schema/src/metric_sets/mod.rs        | 17 ++++++----
 3 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index 375d0bf..0a4998f 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -1,7 +1,7 @@
 use crate::agg_funcs::AggFuncF64;
 use crate::timestep::PywrDuration;
-use jiff::ToSpan;
 use jiff::civil::DateTime;
+use jiff::{Span, ToSpan};
 use std::num::NonZeroI64;
 
 #[derive(Clone, Debug)]
@@ -16,33 +16,26 @@ impl AggregationFrequency {
         match self {
             Self::Monthly => (period_start.year() == date.year()) && (period_start.month() == date.month()),
             Self::Annual => period_start.year() == date.year(),
-            Self::Days(days) => {
-                let period_end = period_start
-                    .checked_add(days.get().days())
-                    .expect("Date overflowed when calculating period end.");
-                (period_start <= date) && (date < &period_end)
-            }
+            Self::Days(_) => (period_start <= date) && (date < &self.start_of_next_period(period_start)),
         }
     }
 
+    /// The start of the period after the one containing `current_date` (or the last representable date if the next
+    /// period would start after that).
     fn start_of_next_period(&self, current_date: &DateTime) -> DateTime {
-        match self {
-            Self::Monthly => {
-                let next_month = current_date
-                    .checked_add(1.months())
-                    .expect("Date overflowed when calculating next month.");
-                next_month.first_of_month().start_of_day()
-            }
-            Self::Annual => {
-                let next_year = current_date
-                    .checked_add(1.years())
-                    .expect("Date overflowed when calculating next year.");
-                next_year.first_of_year().start_of_day()
-            }
-            Self::Days(days) => current_date
-                .checked_add(days.get().days())
-                .expect("Date overflowed when calculating next period."),
-        }
+        let next = match self {
+            Self::Monthly => current_date
+                .checked_add(1.months())
+                .map(|next_month| next_month.first_of_month().start_of_day()),
+            Self::Annual => current_date
+                .checked_add(1.years())
+                .map(|next_year| next_year.first_of_year().start_of_day()),
+            Self::Days(days) => Span::new()
+                .try_days(days.get())
+                .and_then(|days| current_date.checked_add(days)),
+        };
+
+        next.unwrap_or(DateTime::MAX)
     }
 
     /// Split the value representing a period into multiple ['PeriodValue'] that do not cross the
diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index fbdd787..0937be4 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -126,6 +126,8 @@ pub enum SchemaError {
     LiteralConstantOutputNotSupported,
     #[error("Chrono out of range error: {0}")]
     OutOfRange(#[from] chrono::OutOfRange),
+    #[error("The number of days of an aggregation frequency must be positive; found: {days}")]
+    InvalidAggregationFrequency { days: i64 },
     #[error("The metric set with name '{0}' contains no metrics")]
     EmptyMetricSet(String),
     #[error("Missing the following attribute {attr:?} on node {name:?}.")]
diff --git a/pywr-schema/src/metric_sets/mod.rs b/pywr-schema/src/metric_sets/mod.rs
index 099908a..f48b5ec 100644
--- a/pywr-schema/src/metric_sets/mod.rs
+++ b/pywr-schema/src/metric_sets/mod.rs
@@ -29,12 +29,17 @@ pub enum MetricAggFrequency {
 }
 
 #[cfg(feature = "core")]
-impl From<MetricAggFrequency> for pywr_core::recorders::AggregationFrequency {
-    fn from(value: MetricAggFrequency) -> Self {
+impl TryFrom<MetricAggFrequency> for pywr_core::recorders::AggregationFrequency {
+    type Error = SchemaError;
+
+    fn try_from(value: MetricAggFrequency) -> Result<Self, Self::Error> {
         match value {
-            MetricAggFrequency::Monthly => pywr_core::recorders::AggregationFrequency::Monthly,
-            MetricAggFrequency::Annual => pywr_core::recorders::AggregationFrequency::Annual,
-            MetricAggFrequency::Days { days } => pywr_core::recorders::AggregationFrequency::Days(days),
+            MetricAggFrequency::Monthly => Ok(pywr_core::recorders::AggregationFrequency::Monthly),
+            MetricAggFrequency::Annual => Ok(pywr_core::recorders::AggregationFrequency::Annual),
+            MetricAggFrequency::Days { days } if days.get() < 1 => {
+                Err(SchemaError::InvalidAggregationFrequency { days: days.get() })
+            }
+            MetricAggFrequency::Days { days } => Ok(pywr_core::recorders::AggregationFrequency::Days(days)),
         }
     }
 }
@@ -65,7 +70,7 @@ impl MetricAggregator {
         let child = self.child.as_ref().map(|a| a.load(data_path)).transpose()?;
 
         Ok(pywr_core::recorders::Aggregator::new(
-            self.freq.map(|p| p.into()),
+            self.freq.map(|p| p.try_into()).transpose()?,
             self.func.load(data_path)?,
             child,
         ))
-- 
2.43.0


From b16dee03f33623c4938c9be49db4bad031ef85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 29/66] fix: return an error for interpolated control curves
 without enough values instead of panicking

---
 .../parameters/control_curves/interpolated.rs | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/parameters/control_curves/interpolated.rs b/pywr-core/src/parameters/control_curves/interpolated.rs
index f3ee208..b0b63fd 100644
--- a/pywr-core/src/parameters/control_curves/interpolated.rs
+++ b/pywr-core/src/parameters/control_curves/interpolated.rs
@@ -23,6 +23,19 @@ impl Parameter for ControlCurveInterpolatedParameter {
     }
 }
 
+impl ControlCurveInterpolatedParameter {
+    /// The value at the given index.
+    fn value(&self, index: usize) -> Result<&MetricF64, GeneralCalculationError> {
+        self.values
+            .get(index)
+            .ok_or_else(|| GeneralCalculationError::OutOfBoundsError {
+                axis: 0,
+                index,
+                length: self.values.len(),
+            })
+    }
+}
+
 impl GeneralParameter for ControlCurveInterpolatedParameter {
     fn as_parameter(&self) -> &dyn Parameter
     where
@@ -46,8 +59,8 @@ impl GeneralBeforeParameter<f64> for ControlCurveInterpolatedParameter {
             let cc_value = control_curve.get_value(ctx.network, ctx.state)?;
 
             if x >= cc_value {
-                let lower_value = self.values[idx + 1].get_value(ctx.network, ctx.state)?;
-                let upper_value = self.values[idx].get_value(ctx.network, ctx.state)?;
+                let lower_value = self.value(idx + 1)?.get_value(ctx.network, ctx.state)?;
+                let upper_value = self.value(idx)?.get_value(ctx.network, ctx.state)?;
 
                 return Ok(interpolate(x, cc_value, cc_prev, lower_value, upper_value));
             }
@@ -58,8 +71,9 @@ impl GeneralBeforeParameter<f64> for ControlCurveInterpolatedParameter {
         let cc_value = 0.0;
         let n = self.values.len();
 
-        let lower_value = self.values[n - 1].get_value(ctx.network, ctx.state)?;
-        let upper_value = self.values[n - 2].get_value(ctx.network, ctx.state)?;
+        // There must be at least two values, otherwise the second of them is reported as missing.
+        let lower_value = self.value(n.max(2) - 1)?.get_value(ctx.network, ctx.state)?;
+        let upper_value = self.value(n.max(2) - 2)?.get_value(ctx.network, ctx.state)?;
 
         Ok(interpolate(x, cc_value, cc_prev, lower_value, upper_value))
     }
-- 
2.43.0


From 28c07859ddb82a9aa2648b1c4750f9e8f92341c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 30/66] fix: compute discount factors for any base year without
 overflow

---
 pywr-core/src/parameters/discount_factor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/parameters/discount_factor.rs b/pywr-core/src/parameters/discount_factor.rs
index 952c447..b0cec51 100644
--- a/pywr-core/src/parameters/discount_factor.rs
+++ b/pywr-core/src/parameters/discount_factor.rs
@@ -35,10 +35,10 @@ impl GeneralBeforeParameter<f64> for DiscountFactorParameter {
         ctx: GeneralParameterContext<'_>,
         _internal_state: &mut Option<Box<dyn ParameterState>>,
     ) -> Result<f64, GeneralCalculationError> {
-        let year = ctx.timestep.date.year() - self.base_year;
+        let year = ctx.timestep.date.year() as i32 - self.base_year as i32;
         let rate = self.discount_rate.get_value(ctx.network, ctx.state)?;
 
-        let factor = 1.0 / (1.0 + rate).powi(year as i32);
+        let factor = 1.0 / (1.0 + rate).powi(year);
         Ok(factor)
     }
 }
-- 
2.43.0


From c6171a4b127a277355c3b35025e94df7d110634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 31/66] fix: take reservoir evaporation out of the storage
 through an output node

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 2be9ad6..a5568de 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -459,7 +459,7 @@ impl ReservoirNode {
 
             // add evaporation node and edge
             if let Some(evaporation) = &self.evaporation {
-                let mut evaporation_output = pywr_core::NodeBuilder::input(self.evaporation_node_sub_name());
+                let mut evaporation_output = pywr_core::NodeBuilder::output(self.evaporation_node_sub_name());
 
                 let use_max_area = evaporation.use_max_area.unwrap_or(false);
                 let evaporation_area_metric =
-- 
2.43.0


From c947011e30941fb4c4ae6ce91cd8fd07b13b6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 32/66] fix: report the rainfall and evaporation of a reservoir
 from their own nodes

---
 pywr-schema/src/nodes/reservoir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index a5568de..b199a7a 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -606,13 +606,13 @@ impl ReservoirNode {
                     }
                     ReservoirNodeAttribute::Rainfall => {
                         if self.rainfall.is_some() && self.surface_area.is_some() {
-                            UnresolvedMetricF64::NodeInFlow(self.rainfall_node_sub_name())
+                            UnresolvedMetricF64::NodeOutFlow(self.rainfall_node_sub_name())
                         } else {
                             0.0.into()
                         }
                     }
                     ReservoirNodeAttribute::Evaporation => {
-                        if self.rainfall.is_some() && self.surface_area.is_some() {
+                        if self.evaporation.is_some() && self.surface_area.is_some() {
                             UnresolvedMetricF64::NodeInFlow(self.evaporation_node_sub_name())
                         } else {
                             0.0.into()
-- 
2.43.0


From 513eb848003c6f5a94ca00227454e0fce898fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 33/66] fix: apply the bypass cost of a river gauge as the cost
 of its bypass

---
 pywr-schema/src/nodes/river_gauge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/river_gauge.rs b/pywr-schema/src/nodes/river_gauge.rs
index 7917fa8..7428d48 100644
--- a/pywr-schema/src/nodes/river_gauge.rs
+++ b/pywr-schema/src/nodes/river_gauge.rs
@@ -117,7 +117,7 @@ impl RiverGaugeNode {
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
         let mut mrf_node = pywr_core::node::NodeBuilder::link(self.mrf_sub_name());
-        let bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
+        let mut bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
 
         // MRF applies as a maximum on the MRF node.
         if let Some(cost) = &self.mrf_cost {
@@ -132,7 +132,7 @@ impl RiverGaugeNode {
 
         if let Some(cost) = &self.bypass_cost {
             let value = cost.load(network, args, Some(&self.meta.name))?;
-            mrf_node.min_flow(value);
+            bypass_node.cost(value);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From 172bf4342ecd407a11de4dab744781981ab4b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 34/66] fix: apply the soft maximum of a link with both soft
 limits to the flow below it

---
 pywr-schema/src/nodes/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/core.rs b/pywr-schema/src/nodes/core.rs
index a148426..a331d98 100644
--- a/pywr-schema/src/nodes/core.rs
+++ b/pywr-schema/src/nodes/core.rs
@@ -540,7 +540,7 @@ impl LinkNode {
                 // add constraints on node aggregating `[name]` and `[name].soft_min`
                 if let Some(soft_max_flow) = &soft_max.flow {
                     let value = soft_max_flow.load(network, args, Some(&self.meta.name))?;
-                    agg_node.max_flow(value);
+                    agg_node_l_l.max_flow(value);
                 }
 
                 network.node(link);
-- 
2.43.0


From 61be6354fe2aa90400d5f72ea1e6074b4851c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 35/66] fix: use the flow after losses as the outflow of a
 river with routing and losses

---
 pywr-schema/src/nodes/river.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pywr-schema/src/nodes/river.rs b/pywr-schema/src/nodes/river.rs
index 3b514b0..efb8e56 100644
--- a/pywr-schema/src/nodes/river.rs
+++ b/pywr-schema/src/nodes/river.rs
@@ -221,15 +221,15 @@ impl RiverNode {
                 }
             }
             RiverNodeComponent::Outflow => {
-                match self.routing_method.is_some() {
-                    false => {
-                        // Simple link node
-                        vec![self.net_sub_name()]
-                    }
-                    true => {
-                        // Routing
+                match (self.loss_factor.is_some(), self.routing_method.is_some()) {
+                    (false, true) => {
+                        // Routing, but no loss
                         vec![self.input_sub_name()]
                     }
+                    _ => {
+                        // The net flow, after any loss
+                        vec![self.net_sub_name()]
+                    }
                 }
             }
             RiverNodeComponent::Loss => {
-- 
2.43.0


From 978325ec75ddc5133494c713a95b09fdfd4713d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 36/66] fix: share the flow of a river split with gauge between
 all of its splits together

---
 .../doc_diagrams/river-split-with-gauge.mmd   |  5 ++--
 .../src/nodes/river_split_with_gauge.rs       | 30 +++++++++----------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd b/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd
index 045e97b..846a446 100644
--- a/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd
+++ b/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd
@@ -1,9 +1,10 @@
 graph LR
     subgraph ThisNode["RiverSplitWithGauge"]
 
-        subgraph AG0["Aggregated node 0"]
+        subgraph AG0["Aggregated node"]
             L_bypass("[name].bypass")
             L_split_0("[name].split-0")
+            L_split_i("[name].split-i")
         end
 
 
@@ -18,7 +19,7 @@ graph LR
         s_in --> L_split_0 --> s_out
         L_split_0 --> s_out_0
 
-        s_in -.-> L_split_i("[name].split-i") -.-> s_out
+        s_in -.-> L_split_i -.-> s_out
         L_split_i -.->s_out_i
     end
 
diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index 5b5ed5d..eeaa5b1 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -136,8 +136,8 @@ impl RiverSplitWithGaugeNode {
         UnresolvedNode::new(&self.meta.name, Some(&format!("split-{i}")))
     }
 
-    fn split_agg_sub_name(&self, i: usize) -> UnresolvedNode {
-        UnresolvedNode::new(&self.meta.name, Some(&format!("split-agg-{i}")))
+    fn split_agg_sub_name(&self) -> UnresolvedNode {
+        UnresolvedNode::new(&self.meta.name, Some("split-agg"))
     }
 
     /// These connectors are used for both incoming and Output edges on the default slot.
@@ -233,23 +233,23 @@ impl RiverSplitWithGaugeNode {
             mrf_node.max_flow(value);
         }
 
-        for (i, split) in self.splits.iter().enumerate() {
-            // Each split has a link node and an aggregated node to enforce the factors
-            let split_node = pywr_core::node::NodeBuilder::link(self.split_sub_name(i));
+        if !self.splits.is_empty() {
+            // The factors are proportions of the total flow along the bypass and all of the splits. They are
+            // enforced together by a single aggregated node.
+            let mut relationship = ProportionalFactorsBuilder::default();
+            let mut agg_node = pywr_core::AggregatedNodeBuilder::new(self.split_agg_sub_name());
+            agg_node.nodes(vec![self.bypass_sub_name()]);
 
-            // Set the factors for each split
-            let mut r = ProportionalFactorsBuilder::default();
-            r.factor(split.factor.load(network, args, Some(&self.meta.name))?);
+            for (i, split) in self.splits.iter().enumerate() {
+                // Each split has a link node, and a factor in the aggregated node
+                network.node(pywr_core::node::NodeBuilder::link(self.split_sub_name(i)));
 
-            // The factors will be set during the `set_constraints` method
-            let mut agg_node = pywr_core::AggregatedNodeBuilder::new(self.split_agg_sub_name(i));
-            agg_node
-                .nodes(vec![self.bypass_sub_name()])
-                .nodes(vec![self.split_sub_name(i)])
-                .relationship(Box::new(r));
+                relationship.factor(split.factor.load(network, args, Some(&self.meta.name))?);
+                agg_node.nodes(vec![self.split_sub_name(i)]);
+            }
 
+            agg_node.relationship(Box::new(relationship));
             network.agg_node(agg_node);
-            network.node(split_node);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From 462defbea87eee1123ed2d6a90fc485999eb9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 37/66] fix: apply virtual storage factors to all internal
 nodes of the referenced node

---
 .../nodes/virtual_nodes/virtual_storage.rs    | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index aafc2b7..db1535b 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -218,9 +218,9 @@ impl VirtualStorageNode {
     ///
     /// Note that this is a private function, as it is not supported using this node itself
     /// inside a flow constraint.
-    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<UnresolvedNode>, SchemaError> {
-        let nodes = self
-            .nodes
+    /// There is one item per referenced node. Each may be made of several nodes in the network.
+    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<Vec<UnresolvedNode>>, SchemaError> {
+        self.nodes
             .iter()
             .map(|node_ref| {
                 args.schema
@@ -230,18 +230,15 @@ impl VirtualStorageNode {
                     })?
                     .nodes_for_flow_constraints(node_ref.component)
             })
-            .collect::<Result<Vec<_>, _>>()?
-            .into_iter()
-            .flatten()
-            .collect();
-        Ok(nodes)
+            .collect()
     }
     pub fn add_to_network(
         &self,
         network: &mut pywr_core::network::NetworkBuilder,
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
-        let nodes = self.nodes_for_flow_constraints(args)?;
+        let node_groups = self.nodes_for_flow_constraints(args)?;
+        let nodes: Vec<UnresolvedNode> = node_groups.iter().flatten().cloned().collect();
 
         let mut builder = VirtualStorageNodeBuilder::new(self.meta.name.as_str(), &nodes);
 
@@ -293,7 +290,13 @@ impl VirtualStorageNode {
         }
 
         if let Some(factors) = &self.factors {
-            builder.factors(factors);
+            // A factor applies to all of the nodes that make up the referenced node.
+            let factors: Vec<f64> = factors
+                .iter()
+                .zip(&node_groups)
+                .flat_map(|(factor, group)| std::iter::repeat_n(*factor, group.len()))
+                .collect();
+            builder.factors(&factors);
         }
 
         network.virtual_storage_node(builder);
-- 
2.43.0


From 844c8a2728c80d6110dcf48c967700934a7c6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 38/66] fix: add the local parameters of virtual nodes to the
 network

---
 pywr-schema/src/network.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index d02e976..b14b144 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -614,6 +614,20 @@ impl NetworkSchema {
                 }
             }
         }
+        // And from the virtual nodes
+        for node in self.virtual_nodes.iter().flatten() {
+            if let Some(local_parameters) = node.local_parameters() {
+                for parameter in local_parameters {
+                    parameter
+                        .add_to_network(network_builder, &args, Some(node.name()))
+                        .map_err(|source| NetworkSchemaBuildError::AddLocalParameterError {
+                            parent: node.name().to_string(),
+                            name: parameter.name().to_string(),
+                            source: Box::new(source),
+                        })?;
+                }
+            }
+        }
         // Add any global parameters
         if let Some(parameters) = self.parameters.as_deref() {
             for parameter in parameters {
-- 
2.43.0


From 55ce7f9d258d0ce6d3d4cc89f8b54de3aca68e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 39/66] fix: local parameters can refer to local parameters of
 their node

---
 pywr-schema/src/parameters/asymmetric_switch.rs |  4 ++--
 pywr-schema/src/parameters/control_curves.rs    |  8 ++++----
 pywr-schema/src/parameters/core.rs              | 14 +++++++-------
 pywr-schema/src/parameters/delay.rs             |  4 ++--
 pywr-schema/src/parameters/discount_factor.rs   |  2 +-
 pywr-schema/src/parameters/hydropower.rs        | 10 +++++-----
 pywr-schema/src/parameters/indexed_array.rs     |  2 +-
 pywr-schema/src/parameters/interpolated.rs      |  6 +++---
 pywr-schema/src/parameters/offset.rs            |  2 +-
 pywr-schema/src/parameters/polynomial.rs        |  2 +-
 pywr-schema/src/parameters/python.rs            |  4 ++--
 pywr-schema/src/parameters/rolling.rs           |  4 ++--
 pywr-schema/src/parameters/thresholds.rs        | 10 +++++-----
 13 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/pywr-schema/src/parameters/asymmetric_switch.rs b/pywr-schema/src/parameters/asymmetric_switch.rs
index 135d786..5557523 100644
--- a/pywr-schema/src/parameters/asymmetric_switch.rs
+++ b/pywr-schema/src/parameters/asymmetric_switch.rs
@@ -29,8 +29,8 @@ impl AsymmetricSwitchIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let on_index_parameter = self.on_index_parameter.load(network, args, None)?;
-        let off_index_parameter = self.off_index_parameter.load(network, args, None)?;
+        let on_index_parameter = self.on_index_parameter.load(network, args, parent)?;
+        let off_index_parameter = self.off_index_parameter.load(network, args, parent)?;
 
         let p = pywr_core::parameters::AsymmetricSwitchIndexParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 5ac028f..a4c53c0 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -36,18 +36,18 @@ impl ControlCurveInterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         let control_curves = self
             .control_curves
             .iter()
-            .map(|cc| cc.load(network, args, None))
+            .map(|cc| cc.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let values = self
             .values
             .iter()
-            .map(|val| val.load(network, args, None))
+            .map(|val| val.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let mut p = pywr_core::parameters::ControlCurveInterpolatedParameterBuilder::before(
@@ -273,7 +273,7 @@ impl ControlCurveParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::ControlCurveParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 660ead6..9efa6d4 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -289,7 +289,7 @@ impl MaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let idx = self.parameter.load(network, args, None)?;
+        let idx = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MaxParameterBuilder::new(
@@ -355,8 +355,8 @@ impl DivisionParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let n = self.numerator.load(network, args, None)?;
-        let d = self.denominator.load(network, args, None)?;
+        let n = self.numerator.load(network, args, parent)?;
+        let d = self.denominator.load(network, args, parent)?;
 
         let name = ParameterName::new(&self.meta.name, parent);
 
@@ -425,7 +425,7 @@ impl MinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MinParameterBuilder::new(
@@ -476,7 +476,7 @@ impl NegativeParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
 
         let p =
             pywr_core::parameters::NegativeParameterBuilder::new(ParameterName::new(&self.meta.name, parent), metric);
@@ -536,7 +536,7 @@ impl NegativeMaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMaxParameterBuilder::new(
@@ -604,7 +604,7 @@ impl NegativeMinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMinParameterBuilder::new(
diff --git a/pywr-schema/src/parameters/delay.rs b/pywr-schema/src/parameters/delay.rs
index 7278898..5a01833 100644
--- a/pywr-schema/src/parameters/delay.rs
+++ b/pywr-schema/src/parameters/delay.rs
@@ -27,7 +27,7 @@ impl DelayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -59,7 +59,7 @@ impl DelayIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/discount_factor.rs b/pywr-schema/src/parameters/discount_factor.rs
index 85ddb85..50cff4f 100644
--- a/pywr-schema/src/parameters/discount_factor.rs
+++ b/pywr-schema/src/parameters/discount_factor.rs
@@ -29,7 +29,7 @@ impl DiscountFactorParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let discount_rate = self.discount_rate.load(network, args, None)?;
+        let discount_rate = self.discount_rate.load(network, args, parent)?;
         let p = pywr_core::parameters::DiscountFactorParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             discount_rate,
diff --git a/pywr-schema/src/parameters/hydropower.rs b/pywr-schema/src/parameters/hydropower.rs
index 9d7d1a9..5e0c798 100644
--- a/pywr-schema/src/parameters/hydropower.rs
+++ b/pywr-schema/src/parameters/hydropower.rs
@@ -90,26 +90,26 @@ impl HydropowerTargetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let target = self.target.as_ref().map(|t| t.load(network, args, None)).transpose()?;
+        let target = self.target.as_ref().map(|t| t.load(network, args, parent)).transpose()?;
         let water_elevation = self
             .water_elevation
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let max_flow = self
             .max_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let min_flow = self
             .min_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let actual_flow = self
             .actual_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
 
         let turbine_data = HydropowerTargetData {
diff --git a/pywr-schema/src/parameters/indexed_array.rs b/pywr-schema/src/parameters/indexed_array.rs
index 0e064a5..bba1a79 100644
--- a/pywr-schema/src/parameters/indexed_array.rs
+++ b/pywr-schema/src/parameters/indexed_array.rs
@@ -29,7 +29,7 @@ impl IndexedArrayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let index_parameter = self.index_parameter.load(network, args, None)?;
+        let index_parameter = self.index_parameter.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::IndexedArrayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 0893c94..2951c96 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -40,7 +40,7 @@ impl InterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let x = self.x.load(network, args, None)?;
+        let x = self.x.load(network, args, parent)?;
 
         // Sense check the points
         if self.xp.len() != self.fp.len() {
@@ -53,12 +53,12 @@ impl InterpolatedParameter {
         let xp = self
             .xp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
         let fp = self
             .fp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let points = xp.into_iter().zip(fp).collect::<Vec<_>>();
diff --git a/pywr-schema/src/parameters/offset.rs b/pywr-schema/src/parameters/offset.rs
index 06c0474..d2262f8 100644
--- a/pywr-schema/src/parameters/offset.rs
+++ b/pywr-schema/src/parameters/offset.rs
@@ -49,7 +49,7 @@ impl OffsetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let p = pywr_core::parameters::OffsetParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index e7d8ee7..acc9f1b 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -32,7 +32,7 @@ impl Polynomial1DParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::Polynomial1DParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/python.rs b/pywr-schema/src/parameters/python.rs
index 1f45a3d..d2948c4 100644
--- a/pywr-schema/src/parameters/python.rs
+++ b/pywr-schema/src/parameters/python.rs
@@ -236,7 +236,7 @@ impl PythonParameter {
         let metrics = match &self.metrics {
             Some(metrics) => metrics
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
@@ -244,7 +244,7 @@ impl PythonParameter {
         let indices = match &self.indices {
             Some(indices) => indices
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 7f7927c..04e025d 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -40,7 +40,7 @@ impl RollingParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -83,7 +83,7 @@ impl RollingIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 52fdf90..38079f7 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -111,8 +111,8 @@ impl ThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
-        let threshold = self.threshold.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
+        let threshold = self.threshold.load(network, args, parent)?;
 
         // If the parameter has returned metrics, we need to create a sub-name for the threshold parameter
         // so that it can be distinguished from the indexed array parameter.
@@ -144,7 +144,7 @@ impl ThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
             network.parameters().f64(Box::new(values_builder));
         }
@@ -335,7 +335,7 @@ impl MultiThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let name = if self.returned_metrics.is_some() {
             ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
@@ -363,7 +363,7 @@ impl MultiThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
 
             network.parameters().f64(Box::new(values_builder));
-- 
2.43.0


From 3eff561635ab15537e9ebe072e4c6529dcaa8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 40/66] fix: local threshold parameters are added under the
 name of their node

---
 pywr-schema/src/parameters/thresholds.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 38079f7..3137fa4 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -119,7 +119,7 @@ impl ThresholdParameter {
         // If it does not have returned metrics, we can just use the parameter name as the
         // name for the threshold parameter.
         let name = if self.returned_metrics.is_some() {
-            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
+            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), parent)
         } else {
             ParameterName::new(&self.meta.name, parent)
         };
@@ -338,9 +338,9 @@ impl MultiThresholdParameter {
         let metric = self.metric.load(network, args, parent)?;
 
         let name = if self.returned_metrics.is_some() {
-            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
+            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), parent)
         } else {
-            self.meta.name.as_str().into()
+            ParameterName::new(&self.meta.name, parent)
         };
 
         let mut builder =
-- 
2.43.0


From 5f25523a1c23266b6c7ec30e2e00350aed8d8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 41/66] fix: Python files of the same name in different folders
 are separate modules

---
 pywr-schema/src/py_utils.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/py_utils.rs b/pywr-schema/src/py_utils.rs
index e35d7e6..c61e729 100644
--- a/pywr-schema/src/py_utils.rs
+++ b/pywr-schema/src/py_utils.rs
@@ -53,7 +53,16 @@ impl PythonSource {
                 .unwrap();
 
                 let file_name = CString::new(path.file_name().unwrap().to_str().unwrap()).unwrap();
-                let module_name = CString::new(path.file_stem().unwrap().to_str().unwrap()).unwrap();
+                // The module is registered under this name. The name includes the folder, because files of the
+                // same name in different folders are different modules (with their own globals), and because
+                // the file must not replace an unrelated module of the same name.
+                let module_path = std::path::absolute(path)
+                    .map_err(|error| SchemaError::IO {
+                        path: path.to_path_buf(),
+                        error,
+                    })?
+                    .with_extension("");
+                let module_name = CString::new(module_path.to_str().unwrap()).unwrap();
                 PyModule::from_code(py, &code, &file_name, &module_name)
             }
         }?;
-- 
2.43.0


From 60402104da0035065c851c826304bc5cfe62dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 42/66] fix: convert unsupported v1 nodes and parameters to
 errors instead of panicking

---
 pywr-schema/src/nodes/mod.rs      | 20 ++++++++++++++++++--
 pywr-schema/src/parameters/mod.rs | 30 +++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/pywr-schema/src/nodes/mod.rs b/pywr-schema/src/nodes/mod.rs
index 26d6c03..d9a1a86 100644
--- a/pywr-schema/src/nodes/mod.rs
+++ b/pywr-schema/src/nodes/mod.rs
@@ -700,10 +700,26 @@ impl TryFromV1<Box<CoreNodeV1>> for NodeOrVirtualNode {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
             CoreNodeV1::PiecewiseLink(n) => Node::PiecewiseLink(n.try_into_v2(parent_node, conversion_data)?).into(),
-            CoreNodeV1::MultiSplitLink(_) => todo!(),
+            CoreNodeV1::MultiSplitLink(n) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: n.meta.name,
+                    attr: "".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "`MultiSplitLink` nodes are not supported.".to_string(),
+                    },
+                }));
+            }
             CoreNodeV1::BreakLink(n) => Node::Link(n.try_into_v2(parent_node, conversion_data)?).into(),
             CoreNodeV1::Delay(n) => Node::Delay(n.try_into()?).into(),
-            CoreNodeV1::RiverSplit(_) => todo!("Conversion of RiverSplit nodes"),
+            CoreNodeV1::RiverSplit(n) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: n.meta.name,
+                    attr: "".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "`RiverSplit` nodes are not supported.".to_string(),
+                    },
+                }));
+            }
             CoreNodeV1::MonthlyVirtualStorage(n) => {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 067ccb1..5da2917 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -658,8 +658,24 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::MultipleThresholdParameterIndex(p) => {
                     Parameter::MultiThreshold(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::CurrentYearThreshold(_) => todo!(),
-                CoreParameter::CurrentOrdinalDayThreshold(_) => todo!(),
+                CoreParameter::CurrentYearThreshold(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "`CurrentYearThresholdParameter` is not supported.".to_string(),
+                        },
+                    }));
+                }
+                CoreParameter::CurrentOrdinalDayThreshold(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "`CurrentOrdinalDayThresholdParameter` is not supported.".to_string(),
+                        },
+                    }));
+                }
                 CoreParameter::TablesArray(p) => {
                     Parameter::TablesArray(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
@@ -711,7 +727,15 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::RollingMeanFlowNode(p) => {
                     Parameter::Rolling(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ScenarioWrapper(_) => todo!("Implement ScenarioWrapperParameter"),
+                CoreParameter::ScenarioWrapper(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "`ScenarioWrapperParameter` is not supported.".to_string(),
+                        },
+                    }));
+                }
                 CoreParameter::Flow(p) => {
                     return Err(Box::new(ComponentConversionError::Parameter {
                         name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
-- 
2.43.0


From c35010fb528ede24ad394794e2618907e12b1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 43/66] fix: report a v1 timestep of zero days instead of
 panicking

---
 pywr-schema/src/error.rs  |  2 ++
 pywr-schema/src/metric.rs |  2 ++
 pywr-schema/src/model.rs  | 37 ++++++++++++++++++++++++++-----------
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index 0937be4..048897f 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -183,6 +183,8 @@ pub enum ComponentConversionError {
         name: String,
         error: ConversionError,
     },
+    #[error("Failed to convert timestepper: {error}")]
+    Time { error: ConversionError },
     #[error("Failed to convert scenario: {error}")]
     Scenarios { error: ConversionError },
     #[error("Failed to convert table: {error}")]
diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index ff1ef8f..114f626 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -255,6 +255,7 @@ impl TryFromV1<ParameterValueV1> for Metric {
                     |e: Box<ComponentConversionError>| match *e {
                         ComponentConversionError::Parameter { error, .. } => error,
                         ComponentConversionError::Node { error, .. } => error,
+                        ComponentConversionError::Time { error } => error,
                         ComponentConversionError::Scenarios { error } => error,
                         ComponentConversionError::Table { error, .. } => error,
                         ComponentConversionError::Edge { error, .. } => error,
@@ -801,6 +802,7 @@ impl TryFromV1<ParameterValueV1> for IndexMetric {
                     |e: Box<ComponentConversionError>| match *e {
                         ComponentConversionError::Parameter { error, .. } => error,
                         ComponentConversionError::Node { error, .. } => error,
+                        ComponentConversionError::Time { error } => error,
                         ComponentConversionError::Scenarios { error } => error,
                         ComponentConversionError::Table { error, .. } => error,
                         ComponentConversionError::Edge { error, .. } => error,
diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index b69a7d8..e73d9ba 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -84,13 +84,18 @@ pub enum Timestep {
     Frequency { freq: String },
 }
 
-impl From<pywr_v1_schema::model::Timestep> for Timestep {
-    fn from(v1: pywr_v1_schema::model::Timestep) -> Self {
+impl TryFrom<pywr_v1_schema::model::Timestep> for Timestep {
+    type Error = ConversionError;
+
+    fn try_from(v1: pywr_v1_schema::model::Timestep) -> Result<Self, Self::Error> {
         match v1 {
-            pywr_v1_schema::model::Timestep::Days(d) => Self::Days {
-                days: NonZeroU64::new(d).expect("days must be non-zero"),
+            pywr_v1_schema::model::Timestep::Days(d) => match NonZeroU64::new(d) {
+                Some(days) => Ok(Self::Days { days }),
+                None => Err(ConversionError::UnsupportedFeature {
+                    feature: "A timestep of zero days".to_string(),
+                }),
             },
-            pywr_v1_schema::model::Timestep::Frequency(freq) => Self::Frequency { freq },
+            pywr_v1_schema::model::Timestep::Frequency(freq) => Ok(Self::Frequency { freq }),
         }
     }
 }
@@ -120,13 +125,15 @@ impl Default for TimeDomain {
     }
 }
 
-impl From<pywr_v1_schema::model::Timestepper> for TimeDomain {
-    fn from(v1: pywr_v1_schema::model::Timestepper) -> Self {
-        Self {
+impl TryFrom<pywr_v1_schema::model::Timestepper> for TimeDomain {
+    type Error = ConversionError;
+
+    fn try_from(v1: pywr_v1_schema::model::Timestepper) -> Result<Self, Self::Error> {
+        Ok(Self {
             start: v1.start,
             end: v1.end,
-            timestep: v1.timestep.into(),
-        }
+            timestep: v1.timestep.try_into()?,
+        })
     }
 }
 
@@ -556,7 +563,15 @@ impl ModelSchema {
         let mut errors = Vec::new();
 
         let metadata = v1.metadata.into();
-        let time = v1.timestepper.into();
+        let (start, end) = (v1.timestepper.start, v1.timestepper.end);
+        let time = v1.timestepper.try_into().unwrap_or_else(|error| {
+            errors.push(ComponentConversionError::Time { error });
+            TimeDomain {
+                start,
+                end,
+                timestep: Timestep::default(),
+            }
+        });
         let mut scenarios: Option<ScenarioDomain> = match v1.scenarios.map(|s| s.try_into()) {
             Some(Ok(scenarios)) => Some(scenarios),
             Some(Err(err)) => {
-- 
2.43.0


From bdb387f0851a9eb97af6f8f3da2246861b31f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 44/66] fix: convert v1 scenario slices with the meaning they
 have in v1

---
 pywr-schema/src/model.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index e73d9ba..de823b5 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -231,26 +231,24 @@ impl TryFrom<pywr_v1_schema::model::Scenario> for ScenarioGroup {
         let subset = v1
             .slice
             .map(|s| match s.len() {
+                // A single value is the (exclusive) end of the slice.
                 1 => {
                     let start = 0;
-                    let end = v1.size;
+                    let end = s[0].unwrap_or(v1.size).min(v1.size);
                     Ok(ScenarioGroupSubset::Slice(ScenarioGroupSlice { start, end }))
                 }
                 2 => {
                     let start = s[0].unwrap_or_default();
-                    let end = match s[1] {
-                        Some(v) => v,
-                        None => v1.size,
-                    };
+                    let end = s[1].unwrap_or(v1.size).min(v1.size);
                     Ok(ScenarioGroupSubset::Slice(ScenarioGroupSlice { start, end }))
                 }
                 3 => {
                     let start = s[0].unwrap_or_default();
-                    let end = match s[1] {
-                        Some(v) => v,
-                        None => v1.size,
-                    };
+                    let end = s[1].unwrap_or(v1.size).min(v1.size);
                     match s[2] {
+                        Some(0) => Err(ConversionError::UnsupportedFeature {
+                            feature: "A scenario slice with a step of zero".to_string(),
+                        }),
                         Some(step) => {
                             let indices = (start..end).step_by(step).collect();
                             Ok(ScenarioGroupSubset::Indices(ScenarioGroupIndices { indices }))
-- 
2.43.0


From 7a71452a67ba1ae212c57e8cc07599ca6168cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 45/66] fix: converted v1 parameters refer to virtual nodes as
 such

---
 pywr-schema/src/parameters/control_curves.rs | 13 +++++++------
 pywr-schema/src/parameters/interpolated.rs   | 16 ++++------------
 pywr-schema/src/parameters/polynomial.rs     |  9 +++------
 pywr-schema/src/parameters/rolling.rs        | 10 +++-------
 pywr-schema/src/parameters/thresholds.rs     | 10 +++++-----
 pywr-schema/src/v1.rs                        | 17 +++++++++++++++--
 6 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index a4c53c0..2f39481 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -6,7 +6,7 @@ use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
 use crate::network::LoadArgs;
 use crate::nodes::NodeAttribute;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2, try_convert_control_curves, try_convert_parameter_attr};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference, try_convert_control_curves, try_convert_parameter_attr};
 
 #[cfg(feature = "core")]
 use pywr_core::parameters::{ParameterName, PiecewiseInterpolatedParameterBuilder};
@@ -242,15 +242,16 @@ impl TryFromV1<ControlCurveParameterV1> for ControlCurveIndexParameter {
         };
 
         // v1 uses proportional volume for control curves
-        let storage_node = NodeAttrReference {
-            name: v1.storage_node,
-            attribute: Some(NodeAttribute::ProportionalVolume),
-        };
+        let storage_metric = convert_node_reference(
+            v1.storage_node,
+            Some(NodeAttribute::ProportionalVolume),
+            conversion_data,
+        );
 
         let p = Self {
             meta,
             control_curves,
-            storage_metric: storage_node.into(),
+            storage_metric,
         };
         Ok(p)
     }
diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 2951c96..35146c4 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -2,11 +2,11 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_attr};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference, try_convert_parameter_attr};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -88,12 +88,8 @@ impl TryFromV1<InterpolatedFlowParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to v2's default metric
-        let x = Metric::Node(node_ref);
+        let x = convert_node_reference(v1.node, None, conversion_data);
 
         let xp = v1
             .flows
@@ -154,12 +150,8 @@ impl TryFromV1<InterpolatedVolumeParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to the node's inflow; not sure if we can do better than that.
-        let x = Metric::Node(node_ref);
+        let x = convert_node_reference(v1.node, None, conversion_data);
 
         let xp = v1
             .volumes
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index acc9f1b..df13fa8 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -1,12 +1,12 @@
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::nodes::NodeAttribute;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -63,10 +63,7 @@ impl TryFromV1<Polynomial1DParameterV1> for Polynomial1DParameter {
             false => Some(NodeAttribute::Volume),
         };
 
-        let metric = Metric::Node(NodeAttrReference {
-            name: v1.storage_node,
-            attribute,
-        });
+        let metric = convert_node_reference(v1.storage_node, attribute, conversion_data);
 
         Ok(Self {
             meta: v1.meta.try_into_v2(parent_node, conversion_data)?,
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 04e025d..670412b 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -1,11 +1,11 @@
 use crate::agg_funcs::{AggFunc, IndexAggFunc};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{IndexMetric, Metric, NodeAttrReference};
+use crate::metric::{IndexMetric, Metric};
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::ParameterMeta;
-use crate::v1::TryIntoV2;
+use crate::v1::{TryIntoV2, convert_node_reference};
 use crate::{ComponentConversionError, ConversionData, ConversionError, TryFromV1};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
@@ -140,11 +140,7 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         };
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
-        let metric = Metric::Node(node_ref);
+        let metric = convert_node_reference(v1.node, None, conversion_data);
 
         // pywr 1 does not support interpolation
         let p = Self {
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 3137fa4..30296ec 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -2,11 +2,11 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_attr};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference, try_convert_parameter_attr};
 #[cfg(feature = "core")]
 use pywr_core::{metric::UnresolvedMetricU64, parameters::ParameterName};
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -209,7 +209,7 @@ impl TryFromV1<NodeThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = convert_node_reference(v1.node, None, conversion_data);
 
         let threshold =
             try_convert_parameter_attr(&meta.name, "threshold", v1.threshold, parent_node, conversion_data)?;
@@ -256,7 +256,7 @@ impl TryFromV1<StorageThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.storage_node, None));
+        let metric = convert_node_reference(v1.storage_node, None, conversion_data);
 
         let returned_metrics: Option<[Metric; 2]> = match v1.values {
             Some(v) => {
@@ -383,7 +383,7 @@ impl TryFromV1<MultiThresholdIndexParameterV1> for MultiThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = convert_node_reference(v1.node, None, conversion_data);
 
         let thresholds = v1
             .thresholds
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 65e5b19..99f07b2 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -14,8 +14,8 @@ use std::collections::HashMap;
 
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
-use crate::metric::Metric;
-use crate::nodes::{NodeMeta, StorageInitialVolume};
+use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
+use crate::nodes::{NodeAttribute, NodeMeta, StorageInitialVolume};
 use crate::parameters::{ConstantFloatVec, Parameter, ParameterMeta};
 use crate::timeseries::Timeseries;
 use pywr_v1_schema::nodes::NodeMeta as NodeMetaV1;
@@ -238,6 +238,19 @@ pub fn try_convert_initial_storage(
     Ok(initial_volume)
 }
 
+/// Helper function to convert a reference to a node, which may be a virtual node, to a metric.
+pub fn convert_node_reference(
+    name: String,
+    attribute: Option<NodeAttribute>,
+    conversion_data: &ConversionData,
+) -> Metric {
+    if conversion_data.virtual_nodes.contains(&name) {
+        VirtualNodeAttrReference { name, attribute }.into()
+    } else {
+        NodeAttrReference { name, attribute }.into()
+    }
+}
+
 pub fn try_convert_values(
     name: &str,
     v1_values: Option<Vec<f64>>,
-- 
2.43.0


From d377949822945c346f1224065ee844b2e347c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 46/66] fix: virtual nodes and arrays of metrics of converted
 v1 models refer to their timeseries

---
 pywr-schema/src/network.rs |  1 +
 pywr-schema/src/visit.rs   | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index b14b144..c1a493e 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -420,6 +420,7 @@ impl NetworkSchema {
         };
 
         nodes.visit_metrics_mut(update_to_ts_ref);
+        virtual_nodes.visit_metrics_mut(update_to_ts_ref);
         parameters.visit_metrics_mut(update_to_ts_ref);
 
         for table in v1.tables.into_iter().flatten() {
diff --git a/pywr-schema/src/visit.rs b/pywr-schema/src/visit.rs
index 7740809..8bfa1cb 100644
--- a/pywr-schema/src/visit.rs
+++ b/pywr-schema/src/visit.rs
@@ -113,7 +113,19 @@ impl VisitMetrics for i32 {}
 impl VisitMetrics for f32 {}
 impl VisitMetrics for f64 {}
 impl<const N: usize> VisitMetrics for [f64; N] {}
-impl<const N: usize> VisitMetrics for [Metric; N] {}
+impl<const N: usize> VisitMetrics for [Metric; N] {
+    fn visit_metrics<F: FnMut(&Metric)>(&self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics(visitor);
+        }
+    }
+
+    fn visit_metrics_mut<F: FnMut(&mut Metric)>(&mut self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics_mut(visitor);
+        }
+    }
+}
 impl VisitMetrics for bool {}
 impl VisitMetrics for u64 {}
 impl VisitMetrics for String {}
-- 
2.43.0


From a40ec6eec8b13c5fc979c07ba938bbe7dade5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 47/66] fix: convert a v1 control curve once, whether it is an
 index or not

---
 pywr-schema/src/parameters/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 5da2917..17d0a76 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -622,9 +622,10 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::ControlCurveIndex(p) => {
                     Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ControlCurve(p) => match p.clone().try_into_v2(parent_node, conversion_data) {
-                    Ok(p) => Parameter::ControlCurve(p).into(),
-                    Err(_) => Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into(),
+                // A v1 control curve without any values is an index parameter
+                CoreParameter::ControlCurve(p) => match p.values.is_some() || p.parameters.is_some() {
+                    true => Parameter::ControlCurve(p.try_into_v2(parent_node, conversion_data)?).into(),
+                    false => Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into(),
                 },
                 CoreParameter::DailyProfile(p) => {
                     Parameter::DailyProfile(p.try_into_v2(parent_node, conversion_data)?).into()
-- 
2.43.0


From 4a7fb1dd22d3d02f21ee34d30a3fdb0c951382e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 48/66] fix: edges of converted v1 models use the slots their
 nodes define

---
 pywr-schema/src/edge.rs                       | 27 ++++++++++++++++---
 pywr-schema/src/network.rs                    |  9 ++++++-
 .../src/nodes/river_split_with_gauge.rs       |  4 +++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/edge.rs b/pywr-schema/src/edge.rs
index 9778cda..686fd84 100644
--- a/pywr-schema/src/edge.rs
+++ b/pywr-schema/src/edge.rs
@@ -23,9 +23,30 @@ pub struct Edge {
 impl TryFrom<pywr_v1_schema::edge::Edge> for Edge {
     type Error = ConversionError;
     fn try_from(v1: pywr_v1_schema::edge::Edge) -> Result<Self, Self::Error> {
-        let from_slot = match v1.from_slot.flatten() {
-            Some(s) => Some(NodeSlot::try_from_v1_str(&s)?),
-            None => None,
+        Self::try_from_v1(v1, None)
+    }
+}
+
+impl Edge {
+    /// Convert a v1 edge to a v2 edge.
+    ///
+    /// Some v1 nodes name their own output slots, beginning with the one that continues the river. These
+    /// names should be provided as `from_slot_names` if the edge is from such a node.
+    pub(crate) fn try_from_v1(
+        v1: pywr_v1_schema::edge::Edge,
+        from_slot_names: Option<&[String]>,
+    ) -> Result<Self, ConversionError> {
+        let from_slot = match (v1.from_slot.flatten(), from_slot_names) {
+            (Some(s), Some(names)) => match names.iter().position(|name| name == &s) {
+                Some(0) => Some(NodeSlot::River),
+                Some(_) => match NodeSlot::try_from_v1_str(&s) {
+                    Ok(NodeSlot::Abstraction) => Some(NodeSlot::Abstraction),
+                    _ => Some(NodeSlot::User { name: s }),
+                },
+                None => return Err(ConversionError::InvalidSlot { slot: s }),
+            },
+            (Some(s), None) => Some(NodeSlot::try_from_v1_str(&s)?),
+            (None, _) => None,
         };
 
         let to_slot = match v1.to_slot.flatten() {
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index c1a493e..31c8879 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -328,6 +328,9 @@ impl NetworkSchema {
         let mut parameters = Vec::new();
         let mut timeseries = Vec::new();
 
+        // The names of the slots of the v1 nodes that define their own
+        let mut river_split_slots: HashMap<String, Vec<String>> = HashMap::new();
+
         // Extract nodes and any timeseries data from the v1 nodes
         if let Some(v1_nodes) = v1.nodes {
             // First find any virtual nodes so these can be used to determine metric conversion types
@@ -343,6 +346,9 @@ impl NetworkSchema {
                         | CoreNodeV1::RollingVirtualStorage(_) => {
                             conversion_data.virtual_nodes.push(n.name().to_string());
                         }
+                        CoreNodeV1::RiverSplitWithGauge(n) => {
+                            river_split_slots.insert(n.meta.name.clone(), n.slot_names.clone());
+                        }
                         _ => continue,
                     },
                     _ => continue,
@@ -369,7 +375,8 @@ impl NetworkSchema {
             Some(v1_edges) => {
                 let mut edges = Vec::with_capacity(v1_edges.len());
                 for v1_edge in v1_edges.into_iter() {
-                    match v1_edge.clone().try_into() {
+                    let split_slots = river_split_slots.get(&v1_edge.from_node).map(|s| s.as_slice());
+                    match Edge::try_from_v1(v1_edge.clone(), split_slots) {
                         Ok(e) => edges.push(e),
                         Err(error) => {
                             errors.push(ComponentConversionError::Edge {
diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index eeaa5b1..2390cbb 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -66,6 +66,10 @@ impl TryFrom<NodeSlot> for RiverSplitWithGaugeOutputNodeSlot {
             NodeSlot::River => Ok(RiverSplitWithGaugeOutputNodeSlot::River),
             NodeSlot::Split { position } => Ok(RiverSplitWithGaugeOutputNodeSlot::Split { position }),
             NodeSlot::User { name } => Ok(RiverSplitWithGaugeOutputNodeSlot::User { name }),
+            // The usual name of the split of a v1 model
+            NodeSlot::Abstraction => Ok(RiverSplitWithGaugeOutputNodeSlot::User {
+                name: "abstraction".to_string(),
+            }),
             _ => Err(SchemaError::OutputNodeSlotNotSupported { slot }),
         }
     }
-- 
2.43.0


From 2c45cf77eeba3817e49b5f64670c0758587423f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 49/66] fix: names given to unnamed v1 parameters are unique

---
 pywr-schema/src/network.rs |  5 +++++
 pywr-schema/src/v1.rs      | 43 +++++++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 31c8879..11309f0 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -328,6 +328,11 @@ impl NetworkSchema {
         let mut parameters = Vec::new();
         let mut timeseries = Vec::new();
 
+        // The names of parameters extracted from the nodes must not clash with those of the model
+        for name in v1.parameters.iter().flat_map(|ps| ps.iter()).filter_map(|p| p.name()) {
+            conversion_data.reserve_name(name);
+        }
+
         // The names of the slots of the v1 nodes that define their own
         let mut river_split_slots: HashMap<String, Vec<String>> = HashMap::new();
 
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 99f07b2..0d8cea2 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -10,7 +10,7 @@
 //! It also tracks a count of unnamed parameters and timeseries. This is used during conversion
 //! of meta-data to provide a unique name for unnamed parameters and timeseries.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
@@ -27,6 +27,7 @@ use pywr_v1_schema::parameters::{
 #[derive(Default)]
 pub struct ConversionData {
     unnamed_count: usize,
+    used_names: HashSet<String>,
     pub virtual_nodes: Vec<String>,
     pub parameters: Vec<Parameter>,
     pub timeseries: Vec<Timeseries>,
@@ -36,6 +37,22 @@ impl ConversionData {
     pub fn reset_count(&mut self) {
         self.unnamed_count = 0;
     }
+
+    /// Reserve a name that should not be used for an unnamed component.
+    pub fn reserve_name(&mut self, name: &str) {
+        self.used_names.insert(name.to_string());
+    }
+
+    /// Create a name, which is not used by any other component, for an unnamed component.
+    fn unnamed(&mut self, prefix: &str) -> String {
+        loop {
+            let name = format!("{prefix}{}", self.unnamed_count);
+            self.unnamed_count += 1;
+            if self.used_names.insert(name.clone()) {
+                return name;
+            }
+        }
+    }
 }
 
 pub trait TryFromV1<T>: Sized {
@@ -108,13 +125,9 @@ impl TryFromV1<ParameterMetaV1> for ParameterMeta {
         parent_node: Option<&str>,
         conversion_data: &mut ConversionData,
     ) -> Result<Self, Self::Error> {
-        let name = v1.name.unwrap_or_else(|| {
-            let pname = match parent_node {
-                Some(pn) => format!("{pn}-p{}", conversion_data.unnamed_count),
-                None => format!("unnamed-{}", conversion_data.unnamed_count),
-            };
-            conversion_data.unnamed_count += 1;
-            pname
+        let name = v1.name.unwrap_or_else(|| match parent_node {
+            Some(pn) => conversion_data.unnamed(&format!("{pn}-p")),
+            None => conversion_data.unnamed("unnamed-"),
         });
 
         let tags = convert_tags(v1.tags).map_err(|error| {
@@ -143,15 +156,11 @@ impl TryFromV1<Option<ParameterMetaV1>> for ParameterMeta {
     ) -> Result<Self, Self::Error> {
         match v1 {
             Some(meta) => meta.try_into_v2(parent_node, conversion_data),
-            None => {
-                let meta = Self {
-                    name: format!("unnamed-{}", conversion_data.unnamed_count),
-                    comment: None,
-                    tags: HashMap::new(),
-                };
-                conversion_data.unnamed_count += 1;
-                Ok(meta)
-            }
+            None => Ok(Self {
+                name: conversion_data.unnamed("unnamed-"),
+                comment: None,
+                tags: HashMap::new(),
+            }),
         }
     }
 }
-- 
2.43.0


From db8fb0b3b29ccffc99e4b8c41c5e7e985968fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 50/66] fix: report v1 attributes that cannot be converted
 instead of dropping them

---
 .../src/nodes/river_split_with_gauge.rs       | 10 +++++++
 .../src/nodes/virtual_nodes/aggregated.rs     | 12 ++++++++-
 pywr-schema/src/parameters/core.rs            | 11 +++++++-
 pywr-schema/src/parameters/profiles.rs        | 16 ++++++++++++
 pywr-schema/src/timeseries/mod.rs             | 26 ++++++++++++++-----
 5 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index 2390cbb..e032895 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -299,6 +299,16 @@ impl TryFromV1<RiverSplitWithGaugeNodeV1> for RiverSplitWithGaugeNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.cost.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                name: meta.name,
+                attr: "cost".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["cost".to_string()],
+                },
+            }));
+        }
+
         let mrf = try_convert_node_attr(&meta.name, "mrf", v1.mrf, parent_node, conversion_data)?;
         let mrf_cost = try_convert_node_attr(&meta.name, "mrf_cost", v1.mrf_cost, parent_node, conversion_data)?;
 
diff --git a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
index 1f29cd8..07bdb40 100644
--- a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::{Metric, NodeComponentReference};
 use crate::node_attribute_subset_enum;
 use crate::nodes::NodeMeta;
@@ -240,6 +240,16 @@ impl TryFromV1<AggregatedNodeV1> for AggregatedNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.flow_weights.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                name: meta.name,
+                attr: "flow_weights".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["flow_weights".to_string()],
+                },
+            }));
+        }
+
         let relationship = match v1.factors {
             Some(f) => Some(Relationship::Ratio {
                 factors: f
diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 9efa6d4..06e611d 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -1,6 +1,6 @@
-use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
@@ -202,6 +202,15 @@ impl TryFromV1<ConstantParameterV1> for ConstantParameter {
                 attr: "table".to_string(),
                 error,
             })?)
+        } else if v1.external.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "url".to_string(),
+                error: ConversionError::UnsupportedFeature {
+                    feature: "External data references are not supported in Pywr v2. Please use a table instead."
+                        .to_string(),
+                },
+            }));
         } else {
             0.0.into()
         };
diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index 0b91798..51299c9 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -409,6 +409,22 @@ impl TryFromV1<RbfProfileParameterV1> for RbfProfileParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
+        let unsupported: Vec<String> = [
+            ("min_value", v1.min_value.is_some()),
+            ("max_value", v1.max_value.is_some()),
+        ]
+        .into_iter()
+        .filter_map(|(attr, is_used)| is_used.then(|| attr.to_string()))
+        .collect();
+
+        if !unsupported.is_empty() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: unsupported[0].clone(),
+                error: ConversionError::UnsupportedAttribute { attrs: unsupported },
+            }));
+        }
+
         let points = v1.days_of_year.into_iter().zip(v1.values).collect();
 
         if v1.rbf_kwargs.contains_key("smooth") {
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index f5027e1..0a22b21 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -4,10 +4,9 @@ mod pandas;
 mod polars_dataset;
 
 use crate::ConversionError;
-use crate::digest::Checksum;
 use crate::error::ComponentConversionError;
 use crate::parameters::ParameterMeta;
-use crate::v1::{ConversionData, TryFromV1, TryIntoV2};
+use crate::v1::{ConversionData, TryFromV1, TryIntoV2, try_convert_parameter_attr};
 use crate::visit::VisitPaths;
 #[cfg(feature = "core")]
 use ndarray::{Array2, ShapeError};
@@ -491,6 +490,23 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
         let mut ts_name = meta.name.clone();
 
+        let unsupported: Vec<String> = [
+            ("timestep_offset", v1.timestep_offset.is_some_and(|offset| offset != 0)),
+            ("index", v1.index.is_some()),
+            ("indexes", v1.indexes.is_some()),
+        ]
+        .into_iter()
+        .filter_map(|(attr, is_used)| is_used.then(|| attr.to_string()))
+        .collect();
+
+        if !unsupported.is_empty() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: unsupported[0].clone(),
+                error: ConversionError::UnsupportedAttribute { attrs: unsupported },
+            }));
+        }
+
         if let Some(url) = v1.url {
             // If there is a URL then this entry must be converted into a timeseries
             let mut pandas_kwargs = v1.pandas_kwargs;
@@ -507,10 +523,8 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
                 }
             }
 
-            let checksum = match v1.checksum {
-                Some(c) => Checksum::try_from_v1(c, parent_node, conversion_data).ok(),
-                None => None,
-            };
+            let checksum =
+                try_convert_parameter_attr(&meta.name, "checksum", v1.checksum, parent_node, conversion_data)?;
 
             let timeseries = PandasTimeseries {
                 meta: meta.clone(),
-- 
2.43.0


From 7cd13ad8bb114fdbd730c90567d2b478de8d6117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 51/66] fix: report v1 lists of mismatched lengths instead of
 truncating them

---
 pywr-schema/src/nodes/piecewise_link.rs         | 15 ++++++++++++++-
 pywr-schema/src/nodes/river_split_with_gauge.rs | 11 +++++++++++
 pywr-schema/src/parameters/profiles.rs          | 11 +++++++++++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/piecewise_link.rs b/pywr-schema/src/nodes/piecewise_link.rs
index 96127b2..a1eb13d 100644
--- a/pywr-schema/src/nodes/piecewise_link.rs
+++ b/pywr-schema/src/nodes/piecewise_link.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::Metric;
 use crate::nodes::NodeMeta;
 use crate::parameters::Parameter;
@@ -225,6 +225,19 @@ impl TryFromV1<PiecewiseLinkNodeV1> for PiecewiseLinkNode {
                 .collect::<Result<Vec<_>, _>>()?,
         };
 
+        for (attr, found) in [("costs", costs.len()), ("max_flows", max_flows.len())] {
+            if found != v1.nsteps {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: meta.name,
+                    attr: attr.to_string(),
+                    error: ConversionError::IncorrectNumberOfValues {
+                        expected: v1.nsteps,
+                        found,
+                    },
+                }));
+            }
+        }
+
         let steps = costs
             .into_iter()
             .zip(max_flows)
diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index e032895..9574b48 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -312,6 +312,17 @@ impl TryFromV1<RiverSplitWithGaugeNodeV1> for RiverSplitWithGaugeNode {
         let mrf = try_convert_node_attr(&meta.name, "mrf", v1.mrf, parent_node, conversion_data)?;
         let mrf_cost = try_convert_node_attr(&meta.name, "mrf_cost", v1.mrf_cost, parent_node, conversion_data)?;
 
+        if v1.slot_names.len() != v1.factors.len() {
+            return Err(Box::new(ComponentConversionError::Node {
+                name: meta.name,
+                attr: "slot_names".to_string(),
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: v1.factors.len(),
+                    found: v1.slot_names.len(),
+                },
+            }));
+        }
+
         let factors = convert_factors(v1.factors, parent_node, conversion_data).map_err(|error| {
             ComponentConversionError::Node {
                 attr: "factors".to_string(),
diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index 51299c9..b629a0b 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -425,6 +425,17 @@ impl TryFromV1<RbfProfileParameterV1> for RbfProfileParameter {
             }));
         }
 
+        if v1.values.len() != v1.days_of_year.len() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "values".to_string(),
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: v1.days_of_year.len(),
+                    found: v1.values.len(),
+                },
+            }));
+        }
+
         let points = v1.days_of_year.into_iter().zip(v1.values).collect();
 
         if v1.rbf_kwargs.contains_key("smooth") {
-- 
2.43.0


From dfc319c925243de014d0997872763c4c0ed601d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 52/66] fix: report v1 integers that are out of range instead
 of wrapping them

---
 .../nodes/virtual_nodes/virtual_storage.rs    | 42 +++++++++++++------
 pywr-schema/src/parameters/discount_factor.rs |  9 +++-
 pywr-schema/src/parameters/rolling.rs         | 10 ++++-
 pywr-schema/src/v1.rs                         | 11 +++++
 4 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index db1535b..8368274 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -8,7 +8,10 @@ use crate::nodes::NodeAttribute;
 use crate::nodes::NodeMeta;
 use crate::nodes::core::StorageInitialVolume;
 use crate::parameters::Parameter;
-use crate::v1::{ConversionData, TryFromV1, try_convert_initial_storage, try_convert_node_attr, try_convert_node_meta};
+use crate::v1::{
+    ConversionData, TryFromV1, try_convert_initial_storage, try_convert_integer, try_convert_node_attr,
+    try_convert_node_meta,
+};
 use crate::{ConversionError, node_attribute_subset_enum};
 #[cfg(feature = "core")]
 use pywr_core::{
@@ -359,6 +362,17 @@ impl TryFromV1<VirtualStorageNodeV1> for VirtualStorageNode {
     }
 }
 
+/// Convert part of the date that a v1 virtual storage is reset on.
+fn convert_reset_value(name: &str, attr: &str, value: u32) -> Result<i8, Box<ComponentConversionError>> {
+    try_convert_integer(value).map_err(|error| {
+        Box::new(ComponentConversionError::Node {
+            name: name.to_string(),
+            attr: attr.to_string(),
+            error,
+        })
+    })
+}
+
 impl TryFromV1<AnnualVirtualStorageNodeV1> for VirtualStorageNode {
     type Error = Box<ComponentConversionError>;
 
@@ -384,6 +398,11 @@ impl TryFromV1<AnnualVirtualStorageNodeV1> for VirtualStorageNode {
             Some(VirtualStorageResetVolume::Max)
         };
 
+        let reset = VirtualStorageReset::Annual(AnnualReset {
+            day: convert_reset_value(&meta.name, "reset_day", v1.reset_day)?,
+            month: convert_reset_value(&meta.name, "reset_month", v1.reset_month)?,
+        });
+
         let n = Self {
             meta,
             parameters: None,
@@ -393,10 +412,7 @@ impl TryFromV1<AnnualVirtualStorageNodeV1> for VirtualStorageNode {
             min_volume,
             cost,
             initial_volume,
-            reset: Some(VirtualStorageReset::Annual(AnnualReset {
-                day: v1.reset_day as i8,
-                month: v1.reset_month as i8,
-            })),
+            reset: Some(reset),
             reset_volume,
             window: None,
         };
@@ -464,26 +480,26 @@ impl TryFromV1<RollingVirtualStorageNodeV1> for VirtualStorageNode {
             try_convert_initial_storage(&meta.name, "initial_volume", v1.initial_volume, v1.initial_volume_pc)?;
 
         let window = if let Some(days) = v1.days {
-            if let Some(days) = NonZeroUsize::new(days as usize) {
+            if let Some(days) = usize::try_from(days).ok().and_then(NonZeroUsize::new) {
                 RollingWindow::Days { days }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
                     name: meta.name.clone(),
                     attr: "window".to_string(),
                     error: ConversionError::UnsupportedFeature {
-                        feature: "Rolling window with zero `days` is not supported".to_string(),
+                        feature: "Rolling window with zero or negative `days` is not supported".to_string(),
                     },
                 }));
             }
         } else if let Some(timesteps) = v1.timesteps {
-            if let Some(timesteps) = NonZeroUsize::new(timesteps as usize) {
+            if let Some(timesteps) = usize::try_from(timesteps).ok().and_then(NonZeroUsize::new) {
                 RollingWindow::Timesteps { timesteps }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
                     name: meta.name.clone(),
                     attr: "window".to_string(),
                     error: ConversionError::UnsupportedFeature {
-                        feature: "Rolling window with zero `timesteps` is not supported".to_string(),
+                        feature: "Rolling window with zero or negative `timesteps` is not supported".to_string(),
                     },
                 }));
             }
@@ -542,10 +558,10 @@ impl TryFromV1<SeasonalVirtualStorageNodeV1> for VirtualStorageNode {
         };
 
         let reset = VirtualStorageReset::Seasonal(SeasonalReset {
-            start_day: v1.reset_day as i8,
-            start_month: v1.reset_month as i8,
-            end_day: v1.end_day as i8,
-            end_month: v1.end_month as i8,
+            start_day: convert_reset_value(&meta.name, "reset_day", v1.reset_day)?,
+            start_month: convert_reset_value(&meta.name, "reset_month", v1.reset_month)?,
+            end_day: convert_reset_value(&meta.name, "end_day", v1.end_day)?,
+            end_month: convert_reset_value(&meta.name, "end_month", v1.end_month)?,
         });
 
         let n = Self {
diff --git a/pywr-schema/src/parameters/discount_factor.rs b/pywr-schema/src/parameters/discount_factor.rs
index 50cff4f..28c3cc9 100644
--- a/pywr-schema/src/parameters/discount_factor.rs
+++ b/pywr-schema/src/parameters/discount_factor.rs
@@ -5,7 +5,7 @@ use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2};
+use crate::v1::{TryFromV1, TryIntoV2, try_convert_integer};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
 use pywr_schema_macros::PywrVisitAll;
@@ -52,10 +52,15 @@ impl TryFromV1<DiscountFactorParameterV1> for DiscountFactorParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
         let discount_rate = Metric::from(v1.rate);
+        let base_year = try_convert_integer(v1.base_year).map_err(|error| ComponentConversionError::Parameter {
+            name: meta.name.clone(),
+            attr: "base_year".to_string(),
+            error,
+        })?;
         Ok(Self {
             meta,
             discount_rate,
-            base_year: v1.base_year as i16,
+            base_year,
         })
     }
 }
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 670412b..fa5e9e1 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -5,7 +5,7 @@ use crate::metric::{IndexMetric, Metric};
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::ParameterMeta;
-use crate::v1::{TryIntoV2, convert_node_reference};
+use crate::v1::{TryIntoV2, convert_node_reference, try_convert_integer};
 use crate::{ComponentConversionError, ConversionData, ConversionError, TryFromV1};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
@@ -109,7 +109,13 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         let window_size = match (v1.timesteps, v1.days) {
-            (Some(timesteps), None) => timesteps as u64,
+            (Some(timesteps), None) => {
+                try_convert_integer(timesteps).map_err(|error| ComponentConversionError::Parameter {
+                    name: meta.name.clone(),
+                    attr: "timesteps".to_string(),
+                    error,
+                })?
+            }
             (None, Some(_)) => {
                 return Err(Box::new(ComponentConversionError::Parameter {
                         attr: "days".to_string(),
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 0d8cea2..bd16895 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -247,6 +247,17 @@ pub fn try_convert_initial_storage(
     Ok(initial_volume)
 }
 
+/// Helper function to convert an integer from v1 to v2, which is an error if it is out of range.
+pub fn try_convert_integer<V1, V2>(value: V1) -> Result<V2, ConversionError>
+where
+    V1: std::fmt::Display + Copy,
+    V2: TryFrom<V1>,
+{
+    value.try_into().map_err(|_| ConversionError::UnsupportedFeature {
+        feature: format!("The value `{value}` is out of range"),
+    })
+}
+
 /// Helper function to convert a reference to a node, which may be a virtual node, to a metric.
 pub fn convert_node_reference(
     name: String,
-- 
2.43.0


From c429ff9dbc38897dae98c96a0dce72a1ea341730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 53/66] fix: convert the delay of a v1 node from days to
 time-steps of the model

---
 pywr-schema/src/model.rs       |  4 +-
 pywr-schema/src/network.rs     | 12 ++++++
 pywr-schema/src/nodes/delay.rs | 74 +++++++++++++++++++++++++---------
 pywr-schema/src/nodes/mod.rs   |  2 +-
 pywr-schema/src/v1.rs          |  3 ++
 5 files changed, 73 insertions(+), 22 deletions(-)

diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index de823b5..2bbce0e 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -562,7 +562,7 @@ impl ModelSchema {
 
         let metadata = v1.metadata.into();
         let (start, end) = (v1.timestepper.start, v1.timestepper.end);
-        let time = v1.timestepper.try_into().unwrap_or_else(|error| {
+        let time: TimeDomain = v1.timestepper.try_into().unwrap_or_else(|error| {
             errors.push(ComponentConversionError::Time { error });
             TimeDomain {
                 start,
@@ -594,7 +594,7 @@ impl ModelSchema {
             }
         }
 
-        let (network, network_errors) = NetworkSchema::from_v1(v1.network);
+        let (network, network_errors) = NetworkSchema::from_v1_with_timestep(v1.network, Some(time.timestep.clone()));
         errors.extend(network_errors);
 
         (
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 11309f0..44dd850 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -12,6 +12,7 @@ use crate::metric::Metric;
 use crate::metric_sets::MetricSet;
 #[cfg(feature = "core")]
 use crate::model::MultiNetworkTransfer;
+use crate::model::Timestep;
 use crate::outputs::Output;
 use crate::timeseries::Timeseries;
 #[cfg(feature = "core")]
@@ -318,10 +319,21 @@ impl NetworkSchema {
     /// alongside the (partially) converted model. This may result in a model that will not
     /// function as expected. The user should check the errors and the converted model to ensure
     /// that the conversion has been successful.
+    ///
+    /// The time-step of the model is assumed to be daily where this makes a difference.
     pub fn from_v1(v1: pywr_v1_schema::PywrNetwork) -> (Self, Vec<ComponentConversionError>) {
+        Self::from_v1_with_timestep(v1, None)
+    }
+
+    /// Convert a v1 network, of a model with the given time-step, to a v2 network.
+    pub(crate) fn from_v1_with_timestep(
+        v1: pywr_v1_schema::PywrNetwork,
+        timestep: Option<Timestep>,
+    ) -> (Self, Vec<ComponentConversionError>) {
         let mut errors = Vec::new();
         // We will use this to store any timeseries or parameters that are extracted from the v1 nodes
         let mut conversion_data = ConversionData::default();
+        conversion_data.timestep = timestep;
 
         let mut nodes = Vec::with_capacity(v1.nodes.as_ref().map(|n| n.len()).unwrap_or_default());
         let mut virtual_nodes = Vec::with_capacity(v1.nodes.as_ref().map(|n| n.len()).unwrap_or_default());
diff --git a/pywr-schema/src/nodes/delay.rs b/pywr-schema/src/nodes/delay.rs
index b5820eb..186a1bb 100644
--- a/pywr-schema/src/nodes/delay.rs
+++ b/pywr-schema/src/nodes/delay.rs
@@ -1,7 +1,8 @@
 use crate::error::{ComponentConversionError, ConversionError};
+use crate::model::Timestep;
 use crate::nodes::NodeMeta;
 use crate::parameters::{ConstantValue, Parameter};
-use crate::v1::try_convert_node_meta;
+use crate::v1::{ConversionData, TryFromV1, try_convert_integer, try_convert_node_meta};
 #[cfg(feature = "core")]
 use crate::{
     error::SchemaError,
@@ -163,28 +164,63 @@ impl DelayNode {
     }
 }
 
-impl TryFrom<DelayNodeV1> for DelayNode {
+/// Convert a delay in days to a number of time-steps of the model.
+fn delay_in_timesteps(days: u64, conversion_data: &ConversionData) -> Result<u64, ConversionError> {
+    let timestep_days = match &conversion_data.timestep {
+        // Assume a daily model if the time-step is not known
+        None => 1,
+        Some(Timestep::Days { days }) => days.get(),
+        Some(Timestep::Frequency { freq }) if matches!(freq.to_lowercase().as_str(), "d" | "1d") => 1,
+        Some(timestep) => {
+            return Err(ConversionError::UnsupportedFeature {
+                feature: format!("A delay in `days` with a time-step of {timestep:?}"),
+            });
+        }
+    };
+
+    if days % timestep_days != 0 {
+        return Err(ConversionError::UnsupportedFeature {
+            feature: format!("A delay of {days} days with a time-step of {timestep_days} days"),
+        });
+    }
+
+    Ok(days / timestep_days)
+}
+
+impl TryFromV1<DelayNodeV1> for DelayNode {
     type Error = Box<ComponentConversionError>;
 
-    fn try_from(v1: DelayNodeV1) -> Result<Self, Self::Error> {
+    fn try_from_v1(
+        v1: DelayNodeV1,
+        _parent_node: Option<&str>,
+        conversion_data: &mut ConversionData,
+    ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
-        // TODO convert days & timesteps to a usize as we don;t support non-daily timesteps at the moment
-        let delay = match v1.days {
-            Some(days) => days,
-            None => match v1.timesteps {
-                Some(ts) => ts,
-                None => {
-                    return Err(Box::new(ComponentConversionError::Node {
-                        name: meta.name,
-                        attr: "delay".to_string(),
-                        error: ConversionError::MissingAttribute {
-                            attrs: vec!["days".to_string(), "timesteps".to_string()],
-                        },
-                    }));
-                }
-            },
-        } as u64;
+        let (attr, delay) = match (v1.days, v1.timesteps) {
+            (Some(days), _) => (
+                "days",
+                try_convert_integer(days).and_then(|days| delay_in_timesteps(days, conversion_data)),
+            ),
+            (None, Some(timesteps)) => ("timesteps", try_convert_integer(timesteps)),
+            (None, None) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: meta.name,
+                    attr: "delay".to_string(),
+                    error: ConversionError::MissingAttribute {
+                        attrs: vec!["days".to_string(), "timesteps".to_string()],
+                    },
+                }));
+            }
+        };
+
+        let delay: u64 = delay.map_err(|error| {
+            Box::new(ComponentConversionError::Node {
+                name: meta.name.clone(),
+                attr: attr.to_string(),
+                error,
+            })
+        })?;
 
         let initial_value = v1.initial_flow.unwrap_or_default().into();
 
diff --git a/pywr-schema/src/nodes/mod.rs b/pywr-schema/src/nodes/mod.rs
index d9a1a86..9b0a6b8 100644
--- a/pywr-schema/src/nodes/mod.rs
+++ b/pywr-schema/src/nodes/mod.rs
@@ -710,7 +710,7 @@ impl TryFromV1<Box<CoreNodeV1>> for NodeOrVirtualNode {
                 }));
             }
             CoreNodeV1::BreakLink(n) => Node::Link(n.try_into_v2(parent_node, conversion_data)?).into(),
-            CoreNodeV1::Delay(n) => Node::Delay(n.try_into()?).into(),
+            CoreNodeV1::Delay(n) => Node::Delay(n.try_into_v2(parent_node, conversion_data)?).into(),
             CoreNodeV1::RiverSplit(n) => {
                 return Err(Box::new(ComponentConversionError::Node {
                     name: n.meta.name,
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index bd16895..e7c574b 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -15,6 +15,7 @@ use std::collections::{HashMap, HashSet};
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
 use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
+use crate::model::Timestep;
 use crate::nodes::{NodeAttribute, NodeMeta, StorageInitialVolume};
 use crate::parameters::{ConstantFloatVec, Parameter, ParameterMeta};
 use crate::timeseries::Timeseries;
@@ -28,6 +29,8 @@ use pywr_v1_schema::parameters::{
 pub struct ConversionData {
     unnamed_count: usize,
     used_names: HashSet<String>,
+    /// The time-step of the model, if it is known.
+    pub timestep: Option<Timestep>,
     pub virtual_nodes: Vec<String>,
     pub parameters: Vec<Parameter>,
     pub timeseries: Vec<Timeseries>,
-- 
2.43.0


From 7e6f349dc8ca8dd2d4e52e17139365b97045f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 54/66] fix: convert v1 timestep frequencies of a number of
 days

---
 pywr-schema/src/model.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index 2bbce0e..33595de 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -95,7 +95,17 @@ impl TryFrom<pywr_v1_schema::model::Timestep> for Timestep {
                     feature: "A timestep of zero days".to_string(),
                 }),
             },
-            pywr_v1_schema::model::Timestep::Frequency(freq) => Ok(Self::Frequency { freq }),
+            pywr_v1_schema::model::Timestep::Frequency(freq) => {
+                // Pywr v1 uses the frequency strings of Pandas (e.g. "D" and "7D")
+                match freq.strip_suffix(['D', 'd']) {
+                    Some("") => Self::try_from(pywr_v1_schema::model::Timestep::Days(1)),
+                    Some(days) if days.bytes().all(|b| b.is_ascii_digit()) => match days.parse() {
+                        Ok(days) => Self::try_from(pywr_v1_schema::model::Timestep::Days(days)),
+                        Err(_) => Ok(Self::Frequency { freq }),
+                    },
+                    _ => Ok(Self::Frequency { freq }),
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 370df27c843fbc75ddfc0c682cd785e3789e2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 55/66] fix: rolling means of converted v1 models use the flows
 recorded so far

---
 pywr-schema/src/parameters/rolling.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index fa5e9e1..df9aad9 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -154,7 +154,8 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
             metric,
             window_size,
             initial_value: v1.initial_flow.unwrap_or_default(),
-            min_values: None,
+            // pywr 1 only used the initial flow until the first flow was recorded
+            min_values: Some(1),
             agg_func: AggFunc::Mean,
         };
         Ok(p)
-- 
2.43.0


From e549c5ab6e7b34e06743f65107085c7fd45ba4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 56/66] fix: name the aggregated node in errors about its v1
 factors

---
 pywr-schema/src/nodes/virtual_nodes/aggregated.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
index 07bdb40..cdffd0f 100644
--- a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
@@ -3,7 +3,7 @@ use crate::metric::{Metric, NodeComponentReference};
 use crate::node_attribute_subset_enum;
 use crate::nodes::NodeMeta;
 use crate::parameters::Parameter;
-use crate::v1::{ConversionData, TryFromV1, try_convert_node_attr, try_convert_node_meta, try_convert_parameter_attr};
+use crate::v1::{ConversionData, TryFromV1, try_convert_node_attr, try_convert_node_meta};
 #[cfg(feature = "core")]
 use crate::{error::SchemaError, network::LoadArgs, nodes::NodeAttribute};
 #[cfg(feature = "core")]
@@ -254,15 +254,7 @@ impl TryFromV1<AggregatedNodeV1> for AggregatedNode {
             Some(f) => Some(Relationship::Ratio {
                 factors: f
                     .into_iter()
-                    .map(|v| {
-                        try_convert_parameter_attr(
-                            &meta.name,
-                            "factors",
-                            v,
-                            parent_node.or(Some(&meta.name)),
-                            conversion_data,
-                        )
-                    })
+                    .map(|v| try_convert_node_attr(&meta.name, "factors", v, parent_node, conversion_data))
                     .collect::<Result<_, _>>()?,
             }),
             None => None,
-- 
2.43.0


From c4c12a34cede7d22491b314b9d73c2c23c8a6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 57/66] fix: visit the paths of virtual nodes

---
 pywr-schema/src/network.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 44dd850..1d663d3 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -176,6 +176,10 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref().into_iter().flatten() {
+            virtual_node.visit_paths(visitor);
+        }
+
         for parameter in self.parameters.as_deref().into_iter().flatten() {
             parameter.visit_paths(visitor);
         }
@@ -193,6 +197,10 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths_mut(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref_mut().into_iter().flatten() {
+            virtual_node.visit_paths_mut(visitor);
+        }
+
         for parameter in self.parameters.as_deref_mut().into_iter().flatten() {
             parameter.visit_paths_mut(visitor);
         }
-- 
2.43.0


From 46f1af2419ffa2dcd9068e1f0d42a5d053560a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 58/66] fix: visit the paths of data tables

---
 pywr-schema/src/data_tables/mod.rs | 25 +++++++++++++++++++++++++
 pywr-schema/src/network.rs         |  8 ++++++++
 2 files changed, 33 insertions(+)

diff --git a/pywr-schema/src/data_tables/mod.rs b/pywr-schema/src/data_tables/mod.rs
index c022c0a..5ad55be 100644
--- a/pywr-schema/src/data_tables/mod.rs
+++ b/pywr-schema/src/data_tables/mod.rs
@@ -21,6 +21,7 @@ mod vec;
 use crate::ConversionError;
 use crate::digest::{Checksum, ChecksumError};
 use crate::parameters::TableIndex;
+use crate::visit::VisitPaths;
 #[cfg(feature = "pyo3")]
 use pyo3::pyclass;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -78,6 +79,20 @@ impl DataTable {
     }
 }
 
+impl VisitPaths for DataTable {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => tbl.visit_paths(visitor),
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => tbl.visit_paths_mut(visitor),
+        }
+    }
+}
+
 #[derive(serde::Deserialize, serde::Serialize, Debug, Clone, JsonSchema, Display, EnumDiscriminants)]
 #[serde(tag = "type", deny_unknown_fields)]
 #[strum_discriminants(derive(Display, IntoStaticStr, EnumString, EnumIter))]
@@ -99,6 +114,16 @@ pub struct CsvDataTable {
     pub checksum: Option<Checksum>,
 }
 
+impl VisitPaths for CsvDataTable {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        visitor(&self.url);
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        visitor(&mut self.url);
+    }
+}
+
 #[cfg(feature = "core")]
 impl CsvDataTable {
     fn load_f64(&self, data_path: Option<&Path>) -> Result<LoadedTable, TableError> {
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 1d663d3..ed3ace8 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -184,6 +184,10 @@ impl VisitPaths for NetworkSchema {
             parameter.visit_paths(visitor);
         }
 
+        for table in self.tables.as_deref().into_iter().flatten() {
+            table.visit_paths(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref().into_iter().flatten() {
             timeseries.visit_paths(visitor);
         }
@@ -205,6 +209,10 @@ impl VisitPaths for NetworkSchema {
             parameter.visit_paths_mut(visitor);
         }
 
+        for table in self.tables.as_deref_mut().into_iter().flatten() {
+            table.visit_paths_mut(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref_mut().into_iter().flatten() {
             timeseries.visit_paths_mut(visitor);
         }
-- 
2.43.0


From bcecc51a8d1640d768179b1ae6983dd959a714d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 59/66] fix: visit the paths of the aggregators of metric sets

---
 pywr-schema/src/metric_sets/mod.rs | 32 ++++++++++++++++++++++++++++--
 pywr-schema/src/network.rs         |  8 ++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/metric_sets/mod.rs b/pywr-schema/src/metric_sets/mod.rs
index f48b5ec..da2f62c 100644
--- a/pywr-schema/src/metric_sets/mod.rs
+++ b/pywr-schema/src/metric_sets/mod.rs
@@ -8,14 +8,14 @@ use crate::metric::{EdgeReference, ParameterReferenceBuilder, ParameterReturnVal
 use crate::network::LoadArgs;
 #[cfg(feature = "core")]
 use crate::parameters::{Parameter, ParameterPhase, PythonReturnType};
+use crate::visit::VisitPaths;
 #[cfg(feature = "core")]
 use pywr_core::recorders::UnresolvedOutputMetric;
 use pywr_schema_macros::skip_serializing_none;
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 use std::num::NonZeroI64;
-#[cfg(feature = "core")]
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use strum_macros::{Display, EnumDiscriminants, EnumIter, EnumString, IntoStaticStr};
 
 #[derive(serde::Deserialize, serde::Serialize, Debug, Copy, Clone, JsonSchema, Display, EnumDiscriminants)]
@@ -64,6 +64,24 @@ pub struct MetricAggregator {
     pub child: Option<Box<MetricAggregator>>,
 }
 
+impl VisitPaths for MetricAggregator {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        self.func.visit_paths(visitor);
+
+        if let Some(child) = self.child.as_deref() {
+            child.visit_paths(visitor);
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        self.func.visit_paths_mut(visitor);
+
+        if let Some(child) = self.child.as_deref_mut() {
+            child.visit_paths_mut(visitor);
+        }
+    }
+}
+
 #[cfg(feature = "core")]
 impl MetricAggregator {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregator, SchemaError> {
@@ -181,6 +199,16 @@ pub struct MetricSet {
     pub filters: MetricSetFilters,
 }
 
+impl VisitPaths for MetricSet {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        self.aggregator.visit_paths(visitor);
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        self.aggregator.visit_paths_mut(visitor);
+    }
+}
+
 impl MetricSet {
     #[cfg(feature = "core")]
     pub fn add_to_network(
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index ed3ace8..65c993f 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -192,6 +192,10 @@ impl VisitPaths for NetworkSchema {
             timeseries.visit_paths(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref().into_iter().flatten() {
+            metric_set.visit_paths(visitor);
+        }
+
         for outputs in self.outputs.as_deref().into_iter().flatten() {
             outputs.visit_paths(visitor);
         }
@@ -217,6 +221,10 @@ impl VisitPaths for NetworkSchema {
             timeseries.visit_paths_mut(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref_mut().into_iter().flatten() {
+            metric_set.visit_paths_mut(visitor);
+        }
+
         for outputs in self.outputs.as_deref_mut().into_iter().flatten() {
             outputs.visit_paths_mut(visitor);
         }
-- 
2.43.0


From 9a5a09bbd3fefc6f3f182659d9492974643d3c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 60/66] fix: keep the points of an RBF profile when new ones
 can not be interpolated

---
 pywr-core/src/parameters/profiles/rbf.rs | 40 ++++++++++++++----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 69525fb..1889cc4 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -71,18 +71,32 @@ impl RbfProfileInternalState {
         })
     }
 
-    /// Update the x values of the points.
+    /// Update the x values of the points, and the profile with the given points used as default.
     ///
-    /// This does not update the profile.
-    fn update_x(&mut self, x: Vec<u32>) {
-        self.points_x = Some(x);
+    /// The current x values are kept if the profile can not be interpolated with the new ones.
+    fn update_x(
+        &mut self,
+        x: Vec<u32>,
+        points: &[(u32, f64)],
+        function: &RadialBasisFunction,
+    ) -> Result<(), VariableParameterError> {
+        let previous = self.points_x.replace(x);
+        self.update_profile(points, function)
+            .inspect_err(|_| self.points_x = previous)
     }
 
-    /// Update the y values of the points.
+    /// Update the y values of the points, and the profile with the given points used as default.
     ///
-    /// This does not update the profile.
-    fn update_y(&mut self, y: Vec<f64>) {
-        self.points_y = Some(y);
+    /// The current y values are kept if the profile can not be interpolated with the new ones.
+    fn update_y(
+        &mut self,
+        y: Vec<f64>,
+        points: &[(u32, f64)],
+        function: &RadialBasisFunction,
+    ) -> Result<(), VariableParameterError> {
+        let previous = self.points_y.replace(y);
+        self.update_profile(points, function)
+            .inspect_err(|_| self.points_y = previous)
     }
 
     /// Update the profile with the given points used as default. Any locally stored x and y values are
@@ -193,10 +207,7 @@ impl VariableParameter<f64> for RbfProfileParameter {
         if values.len() == self.points.len() {
             let value = downcast_internal_state_mut::<RbfProfileInternalState>(internal_state);
 
-            value.update_y(values.to_vec());
-            value.update_profile(&self.points, &self.function)?;
-
-            Ok(())
+            value.update_y(values.to_vec(), &self.points, &self.function)
         } else {
             Err(VariableParameterError::IncorrectNumberOfValues {
                 expected: self.points.len(),
@@ -247,10 +258,7 @@ impl VariableParameter<u32> for RbfProfileParameter {
         if values.len() == self.points.len() {
             let value = downcast_internal_state_mut::<RbfProfileInternalState>(internal_state);
 
-            value.update_x(values.to_vec());
-            value.update_profile(&self.points, &self.function)?;
-
-            Ok(())
+            value.update_x(values.to_vec(), &self.points, &self.function)
         } else {
             Err(VariableParameterError::IncorrectNumberOfValues {
                 expected: self.points.len(),
-- 
2.43.0


From 83b6d544a7784c05dc975e0a7a692476109ed537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 61/66] fix: reject RBF profiles with several points on the
 same day

---
 pywr-core/src/parameters/profiles/rbf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 1889cc4..0e60d7f 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -353,6 +353,11 @@ fn try_interpolate_rbf<const N: usize>(
         return None;
     }
 
+    // The decomposition below does not reliably detect this because of rounding
+    if points.iter().enumerate().any(|(i, p)| points[..i].iter().any(|q| q.0 == p.0)) {
+        return None;
+    }
+
     let matrix = DMatrix::from_fn(n, n, |r, c| {
         let r = (points[c].0 - points[r].0).abs();
         function.compute(r)
-- 
2.43.0


From 8fc57c701827186cecc92e8c10ad620a16d4ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 62/66] fix: update the maximum volumes after solving with the
 ipm-simd solver

---
 pywr-core/src/solvers/ipm_simd/mod.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/solvers/ipm_simd/mod.rs b/pywr-core/src/solvers/ipm_simd/mod.rs
index a2e28ad..09d4d83 100644
--- a/pywr-core/src/solvers/ipm_simd/mod.rs
+++ b/pywr-core/src/solvers/ipm_simd/mod.rs
@@ -665,10 +665,10 @@ impl MultiStateSolver for SimdIpmF64Solver {
             .par_chunks_mut(4)
             .zip(&mut self.built)
             .zip(&mut self.ipm)
-            .for_each(|((chunk_states, built), ipm)| {
+            .try_for_each(|((chunk_states, built), ipm)| {
                 let mut timings = SolverTimings::default();
 
-                built.update(network, timestep, chunk_states, &mut timings).unwrap();
+                built.update(network, timestep, chunk_states, &mut timings)?;
 
                 let now = Instant::now();
 
@@ -696,12 +696,30 @@ impl MultiStateSolver for SimdIpmF64Solver {
                         if !flow.is_finite() {
                             panic!("Non-finite flow encountered from solver. Edge: {edge:#?}, value: {flow}")
                         }
-                        state.get_mut_network_state().add_flow(edge, timestep, *flow).unwrap();
+                        state.get_mut_network_state().add_flow(edge, timestep, *flow)?;
+                    }
+                }
+
+                // Update the maximum volumes used for proportional volumes. The volumes themselves are not
+                // finalised here because this solver's tolerance is relative to the size of its solution.
+                for node in network.nodes().iter().filter(|n| matches!(n, Node::Storage(_))) {
+                    for state in chunk_states.iter_mut() {
+                        let max_volume = node
+                            .get_max_volume(state)
+                            .map_err(|source| SolverSolveError::NodeError {
+                                name: node.name().to_string(),
+                                sub_name: node.sub_name().map(|s| s.to_string()),
+                                source,
+                            })?;
+                        let volume = state.get_network_state().get_node_volume(&node.index())?;
+                        state.set_node_volume(&node.index(), volume, max_volume)?;
                     }
                 }
 
                 timings.save_solution += start_save_solution.elapsed();
-            });
+
+                Ok::<_, SolverSolveError>(())
+            })?;
 
         Ok(timings)
     }
-- 
2.43.0


From 79ef041d188c1e3c9cc94cbba147c463de6a8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 63/66] fix: leave lanes that have converged unchanged in the
 ipm-simd solver

---
 ipm-simd/src/common.rs                |  6 +++---
 ipm-simd/src/path_following_direct.rs | 13 ++++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/ipm-simd/src/common.rs b/ipm-simd/src/common.rs
index 335dd19..9c9cc72 100644
--- a/ipm-simd/src/common.rs
+++ b/ipm-simd/src/common.rs
@@ -45,10 +45,10 @@ pub fn dot_product(x: &[f64x4], y: &[f64x4]) -> f64x4 {
     x.iter().zip(y.iter()).map(|(&a, &b)| a * b).sum()
 }
 
-/// `x = x*xscale + y*yscale`
-pub fn vector_update(x: &mut [f64x4], y: &[f64x4], xscale: f64x4, yscale: f64x4) {
+/// `x = x + y*yscale` for the lanes where `skip` is false; the other lanes of `x` are unchanged.
+pub fn vector_update(x: &mut [f64x4], y: &[f64x4], yscale: f64x4, skip: f64x4) {
     for i in 0..x.len() {
-        x[i] = xscale * x[i] + yscale * y[i];
+        x[i] = skip.blend(x[i], x[i] + yscale * y[i]);
     }
 }
 
diff --git a/ipm-simd/src/path_following_direct.rs b/ipm-simd/src/path_following_direct.rs
index 1347df9..81f1b3b 100644
--- a/ipm-simd/src/path_following_direct.rs
+++ b/ipm-simd/src/path_following_direct.rs
@@ -249,13 +249,12 @@ pub fn normal_eqn_step(
     // }
 
     // println!("Theta: {:?}", theta);
-    // Set theta to zero for lanes that have completed (status == True)
-    theta = status.blend(f64x4::splat(0.0), theta);
-
-    vector_update(x, dx, f64x4::splat(1.0), theta);
-    vector_update(z, dz, f64x4::splat(1.0), theta);
-    vector_update(y, dy, f64x4::splat(1.0), theta);
-    vector_update(w, dw, f64x4::splat(1.0), theta);
+    // Lanes that have completed (status == True) are left as they are. Their step can not be computed reliably
+    // this close to the optimum (it might not even be finite).
+    vector_update(x, dx, theta, status);
+    vector_update(z, dz, theta, status);
+    vector_update(y, dy, theta, status);
+    vector_update(w, dw, theta, status);
 
     status
 }
-- 
2.43.0


From 743f9e932b0b4a3055b01ad8aaf10b0f6eeb20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:22 +0000
Subject: [PATCH 64/66] fix: the time and scenario aggregation of memory
 outputs were swapped

---
 pywr-schema/src/outputs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/outputs/memory.rs b/pywr-schema/src/outputs/memory.rs
index afe76a5..5f27c45 100644
--- a/pywr-schema/src/outputs/memory.rs
+++ b/pywr-schema/src/outputs/memory.rs
@@ -21,8 +21,8 @@ pub struct MemoryAggregation {
 impl MemoryAggregation {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregation, SchemaError> {
         Ok(pywr_core::recorders::Aggregation::new(
-            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.scenario.as_ref().map(|f| f.load(data_path)).transpose()?,
+            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.metric.as_ref().map(|f| f.load(data_path)).transpose()?,
         ))
     }
-- 
2.43.0


From 2d466807c6aa75cd04f1f99cbf11f2e43a99b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:22 +0000
Subject: [PATCH 65/66] fix: a hydropower target with only an actual flow has
 no value before the solve

---
 pywr-schema/src/parameters/hydropower.rs | 14 +++++++++++++-
 pywr-schema/src/parameters/mod.rs        |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/parameters/hydropower.rs b/pywr-schema/src/parameters/hydropower.rs
index 5e0c798..cfb70eb 100644
--- a/pywr-schema/src/parameters/hydropower.rs
+++ b/pywr-schema/src/parameters/hydropower.rs
@@ -4,7 +4,7 @@ use crate::error::ComponentConversionError;
 use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
-use crate::parameters::{ConversionData, ParameterMeta};
+use crate::parameters::{ConversionData, ParameterMeta, ParameterPhase};
 use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_attr};
 #[cfg(feature = "core")]
 use pywr_core::parameters::{HydropowerTargetData, ParameterName};
@@ -82,6 +82,18 @@ pub struct HydropowerTargetParameter {
     pub energy_unit_conversion: Option<f64>,
 }
 
+impl HydropowerTargetParameter {
+    /// The phase(s) this parameter produces a value in: a `target` gives one before, and an
+    /// `actual_flow` one after the solve.
+    pub fn phase(&self) -> ParameterPhase {
+        match (&self.target, &self.actual_flow) {
+            (Some(_), Some(_)) => ParameterPhase::Both,
+            (None, Some(_)) => ParameterPhase::After,
+            (_, None) => ParameterPhase::Before,
+        }
+    }
+}
+
 #[cfg(feature = "core")]
 impl HydropowerTargetParameter {
     pub fn add_to_network(
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 17d0a76..2b4975c 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -258,7 +258,7 @@ impl Parameter {
             Self::Offset(_) => ParameterPhase::Before,
             Self::DiscountFactor(_) => ParameterPhase::Before,
             Self::Interpolated(_) => ParameterPhase::Before,
-            Self::HydropowerTarget(_) => ParameterPhase::Before,
+            Self::HydropowerTarget(p) => p.phase(),
             Self::RbfProfile(_) => ParameterPhase::Before,
             Self::NegativeMax(_) => ParameterPhase::Before,
             Self::NegativeMin(_) => ParameterPhase::Before,
-- 
2.43.0


From f2a0986ef075a704534c5aeb365202b5612d7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 66/66] fix: a run emptied the dictionary of solver settings it
 was given in Python

---
 pywr-core/src/solvers/cbc/settings.rs      | 3 +++
 pywr-core/src/solvers/clp/settings.rs      | 3 +++
 pywr-core/src/solvers/highs/settings.rs    | 3 +++
 pywr-core/src/solvers/ipm_simd/settings.rs | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pywr-core/src/solvers/cbc/settings.rs b/pywr-core/src/solvers/cbc/settings.rs
index d8c7c36..276bd71 100644
--- a/pywr-core/src/solvers/cbc/settings.rs
+++ b/pywr-core/src/solvers/cbc/settings.rs
@@ -95,6 +95,9 @@ pub fn build_cbc_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResult<Cbc
     let mut builder = CbcSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The dictionary of the caller is left as it is.
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
             kwargs.del_item("threads")?;
diff --git a/pywr-core/src/solvers/clp/settings.rs b/pywr-core/src/solvers/clp/settings.rs
index 936a9b5..d6e9726 100644
--- a/pywr-core/src/solvers/clp/settings.rs
+++ b/pywr-core/src/solvers/clp/settings.rs
@@ -95,6 +95,9 @@ pub fn build_clp_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResult<Clp
     let mut builder = ClpSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The dictionary of the caller is left as it is.
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
             kwargs.del_item("threads")?;
diff --git a/pywr-core/src/solvers/highs/settings.rs b/pywr-core/src/solvers/highs/settings.rs
index f98a9ba..12fd148 100644
--- a/pywr-core/src/solvers/highs/settings.rs
+++ b/pywr-core/src/solvers/highs/settings.rs
@@ -93,6 +93,9 @@ pub fn build_highs_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResult<H
     let mut builder = HighsSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The dictionary of the caller is left as it is.
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
 
diff --git a/pywr-core/src/solvers/ipm_simd/settings.rs b/pywr-core/src/solvers/ipm_simd/settings.rs
index 2c49437..b573935 100644
--- a/pywr-core/src/solvers/ipm_simd/settings.rs
+++ b/pywr-core/src/solvers/ipm_simd/settings.rs
@@ -147,6 +147,9 @@ pub fn build_ipm_simd_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResul
     let mut builder = SimdIpmSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The dictionary of the caller is left as it is.
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
 
-- 
2.43.0

