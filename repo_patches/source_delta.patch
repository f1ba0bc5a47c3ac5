From a5ad93b14c65e5d18e6a8c48e2b436d604fa67fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 01/55] fix: prune only the lifelines outside of the co-region
 when affected lifelines are collected

---
 src/core/execution/semantics/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index ef4547e..f87b703 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -337,7 +337,7 @@ fn execute_interaction_right(my_int : &Interaction,
                 let got_i1;
                 let mut aff1;
                 if lfs_to_prune.len() > 0 {
-                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&tar_lf_ids);
+                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&lfs_to_prune);
                     got_i1 = Agot_i1;
                     aff1 = Aaff1;
                 } else {
-- 
2.43.0


From 27a3f00e30d1556e481b8d88bad645107a7b0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 02/55] fix: do not unnest loops when the result would lose
 behaviors of an outer head-first loop

---
 src/core/transformation/transfofunc/loop_simpl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/transformation/transfofunc/loop_simpl.rs b/src/core/transformation/transfofunc/loop_simpl.rs
index 47c463e..32e4f3e 100644
--- a/src/core/transformation/transfofunc/loop_simpl.rs
+++ b/src/core/transformation/transfofunc/loop_simpl.rs
@@ -16,7 +16,7 @@ limitations under the License.
 
 
 
-use crate::core::language::syntax::interaction::{Interaction};
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 
 pub fn transfo_loop_empty_simpl(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
@@ -39,6 +39,11 @@ pub fn transfo_loop_unnest(interaction : &Interaction) -> Vec<Interaction> {
         &Interaction::Loop(ref lkA, ref i1) => {
             match **i1 {
                 Interaction::Loop(ref lkB, ref i11) => {
+                    // iterating head-first over whole sequences of iterations is not head-first iteration:
+                    // the actions of a sequence that follow its first iteration may be delayed
+                    if *lkA == LoopKind::HHeadFirstWS && *lkB >= LoopKind::HHeadFirstWS {
+                        return vec![];
+                    }
                     return vec![Interaction::Loop((lkA.min(lkB)).clone(), i11.clone())];
                 },
                 _ => {}
-- 
2.43.0


From 34433b17e57cfb0c43df70136d51cb244b520bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 03/55] fix: do not unfold synchronous communications into
 asynchronous ones

---
 src/core/transformation/transfofunc/action.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/transformation/transfofunc/action.rs b/src/core/transformation/transfofunc/action.rs
index 47090c2..d8676d8 100644
--- a/src/core/transformation/transfofunc/action.rs
+++ b/src/core/transformation/transfofunc/action.rs
@@ -49,7 +49,7 @@ pub fn transfo_sort_action_content(interaction : &Interaction) -> Vec<Interactio
 pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
         &Interaction::Emission(ref em_act) => {
-            if em_act.targets.len() == 0 {
+            if em_act.targets.len() == 0 || em_act.synchronicity == CommunicationSynchronicity::Synchronous {
                 // nothing to transform
                 return vec![];
             } else {
@@ -89,6 +89,10 @@ pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
             }
         },
         &Interaction::Reception(ref rc_act) => {
+            if rc_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                // nothing to transform
+                return vec![];
+            }
             match rc_act.recipients.len() {
                 0 => {
                     panic!("malformed interaction : reception action with 0 recipients")
-- 
2.43.0


From d68d36bd192dd6ab487c162cb0a168ad16472f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 04/55] fix: strict to weak sequencing must consider the
 receptions that end an asynchronous message passing

---
 src/core/language/syntax/interaction.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index d17ade9..db7c824 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -18,7 +18,7 @@ limitations under the License.
 use std::collections::HashSet;
 use std::hash::Hash;
 use crate::core::execution::trace::trace::TraceAction;
-use crate::core::language::syntax::action::{EmissionAction, ReceptionAction};
+use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
 
 
 #[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
@@ -53,7 +53,22 @@ impl Interaction {
                 Interaction::Empty
             },
             Interaction::Emission(ref em_act) => {
-                Interaction::Emission(em_act.clone())
+                // an asynchronous message passing ends with the receptions of its targets
+                let (lf_targets,other_targets) : (Vec<EmissionTargetRef>,Vec<EmissionTargetRef>) =
+                    em_act.targets.iter().cloned().partition(|tar_ref| matches!(tar_ref,EmissionTargetRef::Lifeline(_)));
+                if em_act.synchronicity == CommunicationSynchronicity::Synchronous || lf_targets.is_empty() {
+                    Interaction::Emission(em_act.clone())
+                } else {
+                    let recipients = lf_targets.into_iter().filter_map(|tar_ref|
+                        match tar_ref {
+                            EmissionTargetRef::Lifeline(lf_id) => Some(lf_id),
+                            EmissionTargetRef::Gate(_) => None
+                        }).collect();
+                    let reception = ReceptionAction::new(None,em_act.ms_id,em_act.synchronicity.clone(),recipients);
+                    let emission = EmissionAction::new(em_act.origin_lf_id,em_act.ms_id,em_act.synchronicity.clone(),other_targets);
+                    Interaction::Strict(Box::new(Interaction::Reception(reception)),
+                                        Box::new(Interaction::Emission(emission)))
+                }
             },
             Interaction::Reception(ref rc_act) => {
                 Interaction::Reception(rc_act.clone())
-- 
2.43.0


From 558c25fa9e7f4dcb40af85319972c76fd0ebb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 05/55] fix: executing a synchronization prunes in each operand
 only the lifelines of its own actions

---
 src/core/execution/semantics/execute.rs | 47 +++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index f87b703..875ee3b 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -404,6 +404,47 @@ fn execute_interaction_right(my_int : &Interaction,
     }
 }
 
+/// the lifelines on which the actions designated by 'my_pos' in 'my_int' occur
+fn get_target_lf_ids_at_position(my_int : &Interaction, my_pos : &Position) -> BTreeSet<usize> {
+    match (my_int,my_pos) {
+        (Interaction::Emission(em_act),_) => {
+            match em_act.synchronicity {
+                CommunicationSynchronicity::Synchronous => em_act.involved_lifelines(),
+                CommunicationSynchronicity::Asynchronous => btreeset!{em_act.origin_lf_id}
+            }
+        },
+        (Interaction::Reception(rc_act),Position::Epsilon(Some(sub_pos_idx))) => {
+            rc_act.recipients.get(*sub_pos_idx).into_iter().cloned().collect()
+        },
+        (Interaction::Reception(rc_act),_) => {
+            rc_act.involved_lifelines()
+        },
+        (Interaction::Loop(_,i1),Position::Left(p1)) => {
+            get_target_lf_ids_at_position(i1,p1)
+        },
+        (Interaction::Strict(i1,i2),_) |
+        (Interaction::Seq(i1,i2),_) |
+        (Interaction::CoReg(_,i1,i2),_) |
+        (Interaction::Alt(i1,i2),_) |
+        (Interaction::Par(i1,i2),_) |
+        (Interaction::Sync(_,i1,i2),_) => {
+            match my_pos {
+                Position::Left(p1) => get_target_lf_ids_at_position(i1,p1),
+                Position::Right(p2) => get_target_lf_ids_at_position(i2,p2),
+                Position::Both(p1,p2) => {
+                    let mut lf_ids = get_target_lf_ids_at_position(i1,p1);
+                    lf_ids.extend(get_target_lf_ids_at_position(i2,p2));
+                    lf_ids
+                },
+                Position::Epsilon(_) => panic!("trying to execute an operator : {:?}", my_int)
+            }
+        },
+        _ => {
+            panic!("trying to execute at position {:?} on {:?}", my_pos, my_int);
+        }
+    }
+}
+
 fn execute_interaction_both(my_int : &Interaction,
                             sub_p1 : &Position,
                             sub_p2 : &Position,
@@ -426,8 +467,10 @@ fn execute_interaction_both(my_int : &Interaction,
             }
         },
         Interaction::Sync(sync_acts, i1, i2) => {
-            let exres1 = execute_interaction(i1,sub_p1, tar_lf_ids,get_affected);
-            let exres2 = execute_interaction(i2,sub_p2, tar_lf_ids,get_affected);
+            // each operand executes its own part of the synchronized actions
+            // hence only the lifelines of that part are to be pruned in it
+            let exres1 = execute_interaction(i1,sub_p1,&get_target_lf_ids_at_position(i1,sub_p1),get_affected);
+            let exres2 = execute_interaction(i2,sub_p2,&get_target_lf_ids_at_position(i2,sub_p2),get_affected);
             // ***
             let acts1 = exres1.interaction.get_all_trace_actions();
             let acts2 = exres2.interaction.get_all_trace_actions();
-- 
2.43.0


From 41d43ade9a93ad12b2fa9bde32c87daa43295628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 06/55] fix: match synchronous communications that span several
 co-localizations in the analysis

---
 src/process/ana/handling/matches.rs | 36 ++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 3a6fb43..8d5f840 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -202,6 +202,17 @@ impl AnalysisParameterization {
         next_steps
     }
 
+    /** what a frontier element does on a given co-localization **/
+    fn get_actions_on_coloc(context : &AnalysisContext,
+                            frt_elt : &FrontierElement,
+                            coloc_id : usize) -> BTreeSet<TraceAction> {
+        let coloc_lfs = context.co_localizations.get_coloc_lfs_ids(coloc_id);
+        frt_elt.target_actions.iter()
+            .filter(|tract| coloc_lfs.contains(&tract.lf_id))
+            .cloned()
+            .collect()
+    }
+
     pub fn is_action_univocal_in_analysis(context : &AnalysisContext,
                                           interaction : &Interaction,
                                           coloc_id : usize,
@@ -229,13 +240,6 @@ impl AnalysisParameterization {
                                           context : &AnalysisContext,
                                           interaction : &Interaction,
                                           flags : &MultiTraceAnalysisFlags) -> Vec<AnalysisStepKind> {
-        /**
-         TODO: this new way of computing matches has allowed partial order readuction but it has broken
-         TODO: matching for synchronous communications (e.g., the <synch> keyword)
-         TODO: indeed, we match each individual head action to a frontier element
-         TODO: but with synchronous comm several distinct head actions can be matched together with a single frontier element
-         TODO: a quick fix is easy to do but still needs to be done
-         **/
         // ***
         let mut coloc_ids_to_frontier_elts : HashMap<usize,Vec<FrontierElement>> = hashmap!{};
         let matching_heads : Vec<(usize,&BTreeSet<TraceAction>)> = {
@@ -252,14 +256,20 @@ impl AnalysisParameterization {
 
             // iter head actions
             for frt_elt in global_frontier(interaction,true) {
-                // iter head actions to look for a match
-                'iter_head : for (coloc_id,head) in head_actions.iter() {
-                    // if there is a match keeps track of frt_elt
-                    if frt_elt.target_actions == **head {
-                        coloc_ids_to_frontier_elts.entry(*coloc_id)
+                // the frontier element matches if, on every co-localization it involves,
+                // the head action is exactly what the frontier element does there
+                // (a synchronous communication may involve several co-localizations)
+                let involved = context.co_localizations.get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids);
+                let is_match = involved.iter().all(|involved_id| {
+                    let expected = Self::get_actions_on_coloc(context, &frt_elt, *involved_id);
+                    head_actions.iter().any(|(coloc_id,head)| coloc_id == involved_id && **head == expected)
+                });
+                // if there is a match keeps track of frt_elt
+                if is_match {
+                    if let Some(coloc_id) = involved.into_iter().min() {
+                        coloc_ids_to_frontier_elts.entry(coloc_id)
                             .or_insert_with(Vec::new)
                             .push(frt_elt);
-                        break 'iter_head;
                     }
                 }
             }
-- 
2.43.0


From d3d031e3a2e30b99f471416ee10b506f493c10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:09 +0000
Subject: [PATCH 07/55] fix: simulate or match each co-localization of a
 synchronous communication in simulation analysis

---
 src/process/ana/handling/matches.rs | 70 ++++++++---------------------
 1 file changed, 19 insertions(+), 51 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 8d5f840..c01c676 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -83,67 +83,35 @@ impl AnalysisParameterization {
             let canal_ids_of_targets = context.co_localizations.get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids);
             // ***
             let mut match_on_canal : Vec<usize> = vec!{}; // ids of the canals on which there is a match
-            let mut ok_canals : HashSet<usize> = hashset!{}; // canals in which we already do something match or simu
-            let mut act_left_to_match : HashSet<&TraceAction> = frt_elt.target_actions.iter().collect();
-            for (canal_id, canal_flag) in flags.canals.iter().enumerate() {
-                let canal_trace = context.multi_trace.get(canal_id).unwrap();
-                match canal_trace.get(canal_flag.consumed) {
-                    None => {},
-                    Some( got_multiact ) => {
-                        let mut intersect_with_front_elt = false;
-                        let mut entirely_included_in_front_elt = true;
-                        for got_act in got_multiact {
-                            if act_left_to_match.contains(got_act) {
-                                intersect_with_front_elt = true;
-                            } else {
-                                entirely_included_in_front_elt = false;
-                            }
-                        }
-                        // ***
-                        if intersect_with_front_elt && entirely_included_in_front_elt {
-                            match_on_canal.push(canal_id );
-                            ok_canals.insert(canal_id);
-                            for got_act in got_multiact {
-                                act_left_to_match.remove(got_act);
-                            }
-                        }
+            let mut canals_left_to_match : Vec<usize> = vec!{}; // ids of the canals on which there is no match
+            for canal_id in canal_ids_of_targets.iter().copied().sorted() {
+                let consumed = flags.canals.get(canal_id).unwrap().consumed;
+                let expected = Self::get_actions_on_coloc(context, &frt_elt, canal_id);
+                match context.multi_trace.get(canal_id).unwrap().get(consumed) {
+                    Some( got_multiact ) if *got_multiact == expected => {
+                        match_on_canal.push(canal_id);
+                    },
+                    _ => {
+                        canals_left_to_match.push(canal_id);
                     }
                 }
             }
             // ***
             let mut to_simulate : HashMap<usize,SimulationStepKind> = hashmap!{}; // id of the canal on which the simulation step is done, which kind of simulation step
             let mut ok_to_simulate = true;
-            if act_left_to_match.len() > 0 {
+            if canals_left_to_match.len() > 0 {
                 ok_to_simulate = self.is_ok_to_simulate(&frt_elt,interaction,flags);
             }
             // ***
-            for tract in act_left_to_match {
-                if !ok_to_simulate {
-                    break;
-                }
-                let tract_coloc_id = context.co_localizations.get_lf_coloc_id(tract.lf_id).unwrap();
-                if ok_canals.contains(&tract_coloc_id) {
-                    panic!("an action left to match on a coloc on which we already do some match-execution");
+            for canal_id in canals_left_to_match {
+                let canal_flag : &TraceAnalysisFlags = flags.canals.get(canal_id).unwrap();
+                let canal_trace = context.multi_trace.get(canal_id).unwrap();
+                if canal_flag.consumed == canal_trace.len() {
+                    to_simulate.insert(canal_id,SimulationStepKind::AfterEnd);
+                } else if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
+                    to_simulate.insert(canal_id,SimulationStepKind::BeforeStart);
                 } else {
-                    let mut gotit = false;
-                    let canal_flag : &TraceAnalysisFlags = flags.canals.get(tract_coloc_id).unwrap();
-                    let canal_trace = context.multi_trace.get(tract_coloc_id).unwrap();
-                    // *
-                    if canal_flag.consumed == canal_trace.len() {
-                        to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
-                        gotit = true;
-                        break;
-                    } else {
-                        if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
-                            to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
-                            gotit = true;
-                            break;
-                        }
-                    }
-                    // *
-                    if !gotit {
-                        ok_to_simulate = false;
-                    }
+                    ok_to_simulate = false;
                 }
             }
             // ***
-- 
2.43.0


From 36c4ec7c76c1efbb4815e2f4ca2884ba013657b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:09 +0000
Subject: [PATCH 08/55] fix: no underflow of the simulation counters when their
 criterion is disabled

---
 src/process/ana/node/flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index fd0413b..f758377 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -240,14 +240,14 @@ impl MultiTraceAnalysisFlags {
         // ***
         let rem_loop_in_sim : u32;
         {
-            let removed = self.rem_loop_in_sim - loop_depth;
+            let removed = self.rem_loop_in_sim.saturating_sub(loop_depth);
             let reset = sim_config.get_reset_rem_loop(rem_multitrace_length,new_interaction);
             rem_loop_in_sim = reset.min(removed);
         }
         // ***
         let rem_act_in_sim : u32;
         {
-            let removed = self.rem_act_in_sim - 1;
+            let removed = self.rem_act_in_sim.saturating_sub(1);
             let reset = sim_config.get_reset_rem_act(rem_multitrace_length,new_interaction);
             rem_act_in_sim = reset.min(removed);
         }
-- 
2.43.0


From 7caa12ab71f7002a68e2a10ef0d1817c5566e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 09/55] fix: partial order reduction only favours univocal
 actions that cannot preclude what other components expect

---
 src/process/ana/handling/matches.rs | 65 ++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index c01c676..a00ca91 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -25,7 +25,9 @@ use crate::core::execution::semantics::frontier::{FrontierElement, global_fronti
 use crate::core::execution::trace::multitrace::Trace;
 use crate::core::execution::trace::trace::TraceAction;
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
-use crate::core::language::syntax::interaction::Interaction;
+use crate::core::language::avoid::avoids::AvoidsLifelines;
+use crate::core::language::position::position::Position;
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 use crate::process::ana::context::AnalysisContext;
 use crate::process::ana::node::flags::{MultiTraceAnalysisFlags, TraceAnalysisFlags};
 use crate::process::ana::param::anakind::{AnalysisKind, SimulationActionCriterion, SimulationLoopCriterion};
@@ -202,6 +204,39 @@ impl AnalysisParameterization {
         true
     }
 
+    /** whether or not executing an action at a given position preserves everything
+    that may be executed before it on the lifelines that do not participate in it.
+    This is not the case when a strict sequencing forces to skip what comes before,
+    or when it starts an iteration, before which other iterations could have occurred without it **/
+    fn is_execution_commuting(interaction : &Interaction,
+                              position : &Position,
+                              target_lf_ids : &BTreeSet<usize>) -> bool {
+        match (interaction,position) {
+            (_, Position::Epsilon(_)) => true,
+            (Interaction::Strict(i1,_), Position::Left(p1)) => Self::is_execution_commuting(i1,p1,target_lf_ids),
+            (Interaction::Strict(_,_), _) => false,
+            (Interaction::Seq(i1,_), Position::Left(p1))
+            | (Interaction::CoReg(_,i1,_), Position::Left(p1))
+            | (Interaction::Par(i1,_), Position::Left(p1))
+            | (Interaction::Alt(i1,_), Position::Left(p1)) => Self::is_execution_commuting(i1,p1,target_lf_ids),
+            (Interaction::Seq(_,i2), Position::Right(p2))
+            | (Interaction::CoReg(_,_,i2), Position::Right(p2))
+            | (Interaction::Par(_,i2), Position::Right(p2))
+            | (Interaction::Alt(_,i2), Position::Right(p2)) => Self::is_execution_commuting(i2,p2,target_lf_ids),
+            (Interaction::Alt(i1,i2), Position::Both(p1,p2)) => {
+                Self::is_execution_commuting(i1,p1,target_lf_ids) && Self::is_execution_commuting(i2,p2,target_lf_ids)
+            },
+            (Interaction::Loop(kind,i1), Position::Left(p1)) => {
+                let commutes_with_previous_iterations = match kind {
+                    LoopKind::WWeakSeq | LoopKind::PInterleaving => true,
+                    LoopKind::SStrictSeq | LoopKind::HHeadFirstWS => !i1.avoids_all_of(target_lf_ids)
+                };
+                commutes_with_previous_iterations && Self::is_execution_commuting(i1,p1,target_lf_ids)
+            },
+            _ => false
+        }
+    }
+
     pub fn get_action_matches_in_analysis(&self,
                                           use_partial_order_reduction : bool,
                                           algo_uses_lifeline_removal_steps : bool,
@@ -256,19 +291,29 @@ impl AnalysisParameterization {
                 // chooses only this single head action
                 // as the unique successor
                 // implements linearization/partial order reduction
-                if Self::is_action_univocal_in_analysis(context,
+                if !Self::is_action_univocal_in_analysis(context,
                                                         interaction,
                                                         *coloc_id,
                                                         head) {
+                    continue;
+                }
+                let frt_elts = coloc_ids_to_frontier_elts.get(coloc_id).unwrap();
+                assert_eq!(frt_elts.len(),1);
+                let frt_elt = &frt_elts[0];
+                let canal_ids_of_targets = context.co_localizations.get_coloc_ids_from_lf_ids(
+                    &frt_elt.target_lf_ids
+                );
+                // a communication that involves several co-localizations must be univocal on all of them
+                let univocal_everywhere = canal_ids_of_targets.iter().filter(|other_id| *other_id != coloc_id).all(|other_id| {
+                    Self::is_action_univocal_in_analysis(context,
+                                                         interaction,
+                                                         *other_id,
+                                                         &Self::get_actions_on_coloc(context, frt_elt, *other_id))
+                });
+                // and its execution must leave to the other components all that they could do before it
+                if univocal_everywhere && Self::is_execution_commuting(interaction,&frt_elt.position,&frt_elt.target_lf_ids) {
                     // a univocal dominant head action has been found
-                    let mut frt_elts = coloc_ids_to_frontier_elts.remove(coloc_id).unwrap();
-                    assert_eq!(frt_elts.len(),1);
-                    let unique_frt_elt = frt_elts.pop().unwrap();
-                    //
-                    let canal_ids_of_targets = context.co_localizations.get_coloc_ids_from_lf_ids(
-                        &unique_frt_elt.target_lf_ids
-                    );
-                    let kind = AnalysisStepKind::Execute(unique_frt_elt,
+                    let kind = AnalysisStepKind::Execute(frt_elt.clone(),
                                                          canal_ids_of_targets,
                                                          hashmap!{});
                     return vec![kind];
-- 
2.43.0


From de1a4af2d19e42145a84aaa5666111b01bc29bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 10/55] fix: memoization only identifies analysis nodes that
 are at the same point of the multi-trace

---
 src/process/ana/node/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index f29a02e..c8c4c13 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -49,7 +49,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
             for idx in 0..self.flags.canals.len() {
                 let my_canal : &TraceAnalysisFlags  = self.flags.canals.get(idx).unwrap();
                 let other_canal : &TraceAnalysisFlags = memoized_node.flags.canals.get(idx).unwrap();
-                if my_canal.consumed > other_canal.consumed {
+                if my_canal.consumed != other_canal.consumed {
                     return false;
                 }
                 if my_canal.simulated_after < other_canal.simulated_after {
@@ -58,7 +58,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
                 if my_canal.simulated_before < other_canal.simulated_before {
                     return false;
                 }
-                if my_canal.no_longer_observed && !other_canal.no_longer_observed {
+                if my_canal.no_longer_observed != other_canal.no_longer_observed {
                     return false;
                 }
             }
-- 
2.43.0


From 15eeca18575f0acc7009b262cce365825f34f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:30 +0000
Subject: [PATCH 11/55] fix: actions nested in loops are not counted among
 those outside loops

---
 .../execution/trace/from_model/interaction.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/core/execution/trace/from_model/interaction.rs b/src/core/execution/trace/from_model/interaction.rs
index 422114a..c1aefec 100644
--- a/src/core/execution/trace/from_model/interaction.rs
+++ b/src/core/execution/trace/from_model/interaction.rs
@@ -89,32 +89,32 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Par(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -122,8 +122,8 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return btreeset!{};
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -183,25 +183,25 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions().len();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Par(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Loop(_, i1) => {
                 return 0;
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             _ => {
                 panic!("non-conform interaction");
-- 
2.43.0


From dcb8dd320a9340979bc72825b3bf32f177ddba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 12/55] fix: memoization does not identify simulations with
 different remaining budgets

---
 src/process/ana/node/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index c8c4c13..32f7aea 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -42,7 +42,7 @@ impl AnalysisNodeKind {
 impl AbstractNodeKind for AnalysisNodeKind {
     fn is_included_for_memoization(&self, memoized_node: &Self) -> bool {
         if self.interaction == memoized_node.interaction {
-            if self.flags.rem_loop_in_sim > memoized_node.flags.rem_loop_in_sim || self.flags.rem_act_in_sim > memoized_node.flags.rem_act_in_sim {
+            if self.flags.rem_loop_in_sim != memoized_node.flags.rem_loop_in_sim || self.flags.rem_act_in_sim != memoized_node.flags.rem_act_in_sim {
                 return false;
             }
             // ***
-- 
2.43.0


From e66928d2a9d4b7634dee71dd1b2afb564cca1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 13/55] fix: pruning with affected lifelines supports the
 synchronous operator

---
 src/core/language/prune/interaction.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/language/prune/interaction.rs b/src/core/language/prune/interaction.rs
index 2eb7e7d..77be137 100644
--- a/src/core/language/prune/interaction.rs
+++ b/src/core/language/prune/interaction.rs
@@ -201,6 +201,18 @@ impl LifelinePrunable for Interaction {
                     }
                 }
             },
+            Interaction::Sync(_, i1, i2) => {
+                let pruned = self.prune(lf_ids);
+                // whatever is pruned in one operand may constrain the other
+                let affected = if pruned == *self {
+                    btreeset!{}
+                } else {
+                    let mut aff = i1.involved_lifelines();
+                    aff.extend(i2.involved_lifelines());
+                    aff
+                };
+                return (pruned,affected);
+            },
             Interaction::Strict(i1, i2) => {
                 let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
                 let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
-- 
2.43.0


From 71c75e4accbbd6202bfb6d2dc58674357df5458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:41 +0000
Subject: [PATCH 14/55] fix: a local dead end is inconclusive when other paths
 may lack observations

A path that local analysis rules out after some actions were consumed says
nothing of the paths that could not be explored because a component is no
longer observed.
---
 src/process/ana/handling/handler.rs | 9 +++++++++
 src/process/ana/node/flags.rs       | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/src/process/ana/handling/handler.rs b/src/process/ana/handling/handler.rs
index 42656ec..8c495b7 100644
--- a/src/process/ana/handling/handler.rs
+++ b/src/process/ana/handling/handler.rs
@@ -288,6 +288,12 @@ impl AbstractProcessHandler<AnalysisConfig> for AnalysisProcessHandler {
                                                                             local_flags);
                     if param.ana_kind.has_simulation() {
                         Some( (AnalysisLocalVerdict::OutSim(true),data) )
+                    } else if param.ana_kind == AnalysisKind::Prefix
+                        && node_kind.flags.has_consumed_actions()
+                        && node_kind.flags.is_any_component_empty(&context.multi_trace) {
+                        // this path is a dead end but, as some component is no longer observed,
+                        // other paths might not have been explored for lack of observation
+                        Some( (AnalysisLocalVerdict::Inconc(InconcReason::LackObs),data) )
                     } else {
                         Some( (AnalysisLocalVerdict::Out(true),data) )
                     }
@@ -308,6 +314,9 @@ impl AbstractProcessHandler<AnalysisConfig> for AnalysisProcessHandler {
             AnalysisLocalVerdict::OutSim(_) => {
                 false
             },
+            AnalysisLocalVerdict::Inconc(_) => {
+                false
+            },
             _ => {true}
         }
     }
diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index f758377..4b7b02b 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -86,6 +86,10 @@ impl MultiTraceAnalysisFlags {
         return self.canals.iter().fold(0,|sum,trace_flag| sum + trace_flag.consumed);
     }
 
+    pub fn has_consumed_actions(&self) -> bool {
+        return self.get_number_of_consumed_actions() > 0;
+    }
+
     // ********** ********** ********** ********** ********** ********** **********
     // ********** ********** ********** ********** ********** ********** **********
     // ********** ********** ********** ********** ********** ********** **********
-- 
2.43.0


From fc7be6167e153b2c998976f2e6c8c56b9f27d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 15/55] fix: letters of synchronous communications keep
 distinct indices in NFAs

They were missing from the alphabet of the NFA, could be given the same index
in NFAs composed together, and were mistaken for any unknown letter of an
analyzed trace.
---
 src/nfa_translation/alphabet.rs            | 47 +++++++++++++++++++++-
 src/nfa_translation/compositional.rs       |  3 ++
 src/nfa_translation/get_nfa_from_logger.rs |  8 ++--
 src/ui/commands/cli_nfa_ana.rs             | 15 +++++--
 4 files changed, 66 insertions(+), 7 deletions(-)

diff --git a/src/nfa_translation/alphabet.rs b/src/nfa_translation/alphabet.rs
index 88ba4d4..943f9f9 100644
--- a/src/nfa_translation/alphabet.rs
+++ b/src/nfa_translation/alphabet.rs
@@ -17,7 +17,10 @@ limitations under the License.
 
 use std::collections::BTreeSet;
 use crate::core::general_context::GeneralContext;
+use crate::core::execution::trace::from_model::from_model::PrimitiveInterpretableAsTraceAction;
 use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
+use crate::core::language::syntax::action::CommunicationSynchronicity;
+use crate::core::language::syntax::interaction::Interaction;
 
 pub fn get_alphabet_from_gen_ctx(gen_ctx : &GeneralContext) -> Vec<BTreeSet<TraceAction>> {
     let mut alphabet = vec![];
@@ -28,4 +31,46 @@ pub fn get_alphabet_from_gen_ctx(gen_ctx : &GeneralContext) -> Vec<BTreeSet<Trac
         }
     }
     alphabet
-}
\ No newline at end of file
+}
+
+/// Completes an alphabet with the synchronous communications of an interaction
+/// (of which the letters are sets of several atomic actions), so that each letter keeps the
+/// same index in every NFA that is built from (a sub-term of) that interaction.
+pub fn complete_alphabet_with_interaction(alphabet : &mut Vec<BTreeSet<TraceAction>>,
+                                          interaction : &Interaction) {
+    let letter = match interaction {
+        Interaction::Empty => {
+            return;
+        },
+        Interaction::Emission(em_act) => {
+            match em_act.synchronicity {
+                CommunicationSynchronicity::Synchronous => em_act.get_all_atomic_actions(),
+                CommunicationSynchronicity::Asynchronous => { return; }
+            }
+        },
+        Interaction::Reception(rc_act) => {
+            match rc_act.synchronicity {
+                CommunicationSynchronicity::Synchronous => rc_act.get_all_atomic_actions(),
+                CommunicationSynchronicity::Asynchronous => { return; }
+            }
+        },
+        Interaction::Loop(_,i1) => {
+            complete_alphabet_with_interaction(alphabet,i1);
+            return;
+        },
+        Interaction::Strict(i1,i2)
+        | Interaction::Seq(i1,i2)
+        | Interaction::CoReg(_,i1,i2)
+        | Interaction::Alt(i1,i2)
+        | Interaction::Par(i1,i2)
+        | Interaction::And(i1,i2)
+        | Interaction::Sync(_,i1,i2) => {
+            complete_alphabet_with_interaction(alphabet,i1);
+            complete_alphabet_with_interaction(alphabet,i2);
+            return;
+        }
+    };
+    if !alphabet.contains(&letter) {
+        alphabet.push(letter);
+    }
+}
diff --git a/src/nfa_translation/compositional.rs b/src/nfa_translation/compositional.rs
index 2c3a01e..5f6e825 100644
--- a/src/nfa_translation/compositional.rs
+++ b/src/nfa_translation/compositional.rs
@@ -25,6 +25,7 @@ use autour_core::traits::transform::AutTransformable;
 use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::{Interaction, LoopKind};
+use crate::nfa_translation::alphabet::complete_alphabet_with_interaction;
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
@@ -47,6 +48,8 @@ pub fn interaction_has_only_strict_and_seq(int : &Interaction) -> bool {
 pub fn get_nfa_from_interaction_via_composition(gen_ctx : &GeneralContext,
                                             int : &Interaction,
                                                 base_alphabet : Vec<BTreeSet<TraceAction>>) -> (AutNFA<usize>,Duration) {
+    let mut base_alphabet = base_alphabet;
+    complete_alphabet_with_interaction(&mut base_alphabet,int);
     let now = Instant::now();
     let nfa = get_nfa_from_interaction_via_composition_rec(gen_ctx,int,base_alphabet);
     let elapsed_get_nfa = now.elapsed();
diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 0caa60c..0ec34ca 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -17,7 +17,7 @@ limitations under the License.
 
 
 
-use std::collections::{BTreeSet, HashSet};
+use std::collections::BTreeSet;
 use std::time::{Duration, Instant};
 use autour_core::nfa::nfa::AutNFA;
 use autour_core::traits::translate::AutTranslatable;
@@ -29,6 +29,7 @@ use graph_process_manager_loggers::nfait::logger::GenericNFAITLogger;
 use crate::core::execution::trace::trace::TraceAction;
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::Interaction;
+use crate::nfa_translation::alphabet::complete_alphabet_with_interaction;
 use crate::process::explo::conf::ExplorationConfig;
 use crate::process::explo::context::{ExplorationContext, ExplorationParameterization};
 use crate::process::explo::filter::filter::ExplorationFilter;
@@ -43,7 +44,8 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
                                             base_alphabet : Vec<BTreeSet<TraceAction>>)
             -> (AutNFA<usize>,Duration) {
 
-    let usize_alphabet : HashSet<usize> = (0..base_alphabet.len()).collect();
+    let mut base_alphabet = base_alphabet;
+    complete_alphabet_with_interaction(&mut base_alphabet,int);
     let max_loop_depth = int.total_loop_num()*2;
     let nfa_logger = GenericNFAITLogger::new(
         ActionNFAITPrinter::new(base_alphabet,
@@ -80,7 +82,7 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
     let mut nfa = nfa_logger.get_nfait().to_nfa();
     let printer = nfa_logger.builder_printer.clone();
     // ***
-    nfa.alphabet = usize_alphabet;
+    nfa.alphabet = (0..printer.index_to_action_map.len()).collect();
     // ***
     return (nfa, elapsed_get_nfa);
 }
\ No newline at end of file
diff --git a/src/ui/commands/cli_nfa_ana.rs b/src/ui/commands/cli_nfa_ana.rs
index eb34da5..4644475 100644
--- a/src/ui/commands/cli_nfa_ana.rs
+++ b/src/ui/commands/cli_nfa_ana.rs
@@ -48,7 +48,7 @@ use crate::io::input::hsf::interface::parse_hsf_file;
 use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::input::htf::interface::parse_htf_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
-use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
+use crate::nfa_translation::alphabet::{complete_alphabet_with_interaction, get_alphabet_from_gen_ctx};
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
@@ -83,12 +83,21 @@ pub fn cli_nfa_ana(matches : &ArgMatches) -> (Vec<String>,u32) {
                             }
                             let trace = multi_trace.remove(0);
 
+                            let mut alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+                            complete_alphabet_with_interaction(&mut alphabet,&int);
+                            // letters of the trace that the interaction does not use must not be mistaken for others
+                            for letter in &trace {
+                                if !alphabet.contains(letter) {
+                                    alphabet.push(letter.clone());
+                                }
+                            }
+
                             let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
                                 &gen_ctx,
                                 &int,
-                                get_alphabet_from_gen_ctx(&gen_ctx));
+                                alphabet.clone());
 
-                            let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                            let printer = ActionNFAITPrinter::new(alphabet,gen_ctx);
 
                             if matches.is_present("draw_transformation") {
                                 let int_name = format!("{}_int",file_name);
-- 
2.43.0


From b20f397ea651beeae551bd25b4c496da24e8a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:53 +0000
Subject: [PATCH 16/55] fix: do not bound the iterations of strict loops when
 translating an interaction to a NFA

Finitely many terms are reachable with strict loops only, and the bound on
loop instantiations removed traces from the language of the NFA.
---
 src/nfa_translation/get_nfa_from_logger.rs | 35 +++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 0ec34ca..f310d35 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -23,22 +23,43 @@ use autour_core::nfa::nfa::AutNFA;
 use autour_core::traits::translate::AutTranslatable;
 use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
 use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
+use graph_process_manager_core::handler::filter::AbstractFilter;
 use graph_process_manager_core::manager::manager::GenericProcessManager;
 use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
 use graph_process_manager_loggers::nfait::logger::GenericNFAITLogger;
 use crate::core::execution::trace::trace::TraceAction;
 use crate::core::general_context::GeneralContext;
-use crate::core::language::syntax::interaction::Interaction;
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 use crate::nfa_translation::alphabet::complete_alphabet_with_interaction;
 use crate::process::explo::conf::ExplorationConfig;
 use crate::process::explo::context::{ExplorationContext, ExplorationParameterization};
-use crate::process::explo::filter::filter::ExplorationFilter;
+use crate::process::explo::filter::elim::ExplorationFilterEliminationKind;
+use crate::process::explo::filter::filter::{ExplorationFilter, ExplorationFilterCriterion};
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 use crate::process::explo::node::ExplorationNodeKind;
 use crate::process::explo::priorities::ExplorationPriorities;
 use crate::process::explo::step::ExplorationStepKind;
 
 
+/// with only strictly sequential loops, finitely many terms can be reached
+fn has_only_strict_loops(int : &Interaction) -> bool {
+    match int {
+        Interaction::Empty | Interaction::Emission(_) | Interaction::Reception(_) => true,
+        Interaction::Loop(lk,i1) => {
+            *lk == LoopKind::SStrictSeq && has_only_strict_loops(i1)
+        },
+        Interaction::Strict(i1,i2)
+        | Interaction::Seq(i1,i2)
+        | Interaction::CoReg(_,i1,i2)
+        | Interaction::Alt(i1,i2)
+        | Interaction::Par(i1,i2)
+        | Interaction::And(i1,i2)
+        | Interaction::Sync(_,i1,i2) => {
+            has_only_strict_loops(i1) && has_only_strict_loops(i2)
+        }
+    }
+}
+
 pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
                                             int : &Interaction,
                                             base_alphabet : Vec<BTreeSet<TraceAction>>)
@@ -46,7 +67,13 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
 
     let mut base_alphabet = base_alphabet;
     complete_alphabet_with_interaction(&mut base_alphabet,int);
-    let max_loop_depth = int.total_loop_num()*2;
+    // bounding the loops is only required if the number of reachable terms may be infinite
+    let filters : Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion,ExplorationFilterEliminationKind>>> = if has_only_strict_loops(int) {
+        vec![]
+    } else {
+        let max_loop_depth = int.total_loop_num()*2;
+        vec![Box::new(ExplorationFilter::MaxLoopInstanciation(max_loop_depth))]
+    };
     let nfa_logger = GenericNFAITLogger::new(
         ActionNFAITPrinter::new(base_alphabet,
                                 gen_ctx.clone()),
@@ -62,7 +89,7 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
         GenericProcessManager::new(explo_ctx,
                                    ExplorationParameterization{},
                                    delegate,
-                                   vec![Box::new(ExplorationFilter::MaxLoopInstanciation(max_loop_depth))],
+                                   filters,
                                    vec![Box::new(nfa_logger)],
                                    None,
                                    true);
-- 
2.43.0


From c7b8c168236287cb90ef4cafbb7090dbeeb619e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 17/55] fix: messages and lifelines whose name starts with an
 'o' can be used at the start of an interaction

---
 src/io/input/hif/hif_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hif/hif_syntax.pest b/src/io/input/hif/hif_syntax.pest
index 7050ae4..47cdbac 100644
--- a/src/io/input/hif/hif_syntax.pest
+++ b/src/io/input/hif/hif_syntax.pest
@@ -83,8 +83,8 @@ SD_LOOP = {"loop" ~ (SD_LOOP_KIND_S | SD_LOOP_KIND_H | SD_LOOP_KIND_W | SD_LOOP_
 SD_LOOP_INT = { SD_LOOP ~ "(" ~ SD_INTERACTION ~ ")" }
 
 
-SD_INTERACTION = { SD_EMPTY_INTERACTION
-		| SD_COMMUNICATION_ACTION
+SD_INTERACTION = { SD_COMMUNICATION_ACTION
+        | SD_EMPTY_INTERACTION
         | SD_STRICT_INT
         | SD_SEQ_INT
         | SD_COREG_INT
-- 
2.43.0


From 46d455a06738edbc707b15a767d89d6f2a159859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 18/55] fix: options of which another spelling is a prefix
 could not be parsed

---
 src/io/input/hcf/hcf_syntax.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index a3b57d1..386c2fe 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -42,7 +42,7 @@ GRAPHIC_LOGGER_draw_term_tree = { "draw_tt" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_sub_processes = { "draw_sub_processes" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_legend = { "draw_legend" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 
-GRAPHIC_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+GRAPHIC_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 GRAPHIC_LOGGER_output_file = { ("output"|"name") ~ "=" ~ HIBOU_LABEL }
 
 GRAPHIC_LOGGER_opt = _{ GRAPHIC_LOGGER_format
@@ -71,7 +71,7 @@ TRACEGEN_LOGGER_partition_trivial = { "trivial" }
 TRACEGEN_LOGGER_partition_specific = { "{" ~ HIBOU_LABEL_LIST ~ ("," ~ HIBOU_LABEL_LIST)*  ~ "}" }
 TRACEGEN_LOGGER_partition = _{ "partition" ~ "=" ~ (TRACEGEN_LOGGER_partition_discrete | TRACEGEN_LOGGER_partition_trivial | TRACEGEN_LOGGER_partition_specific) }
 
-TRACEGEN_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+TRACEGEN_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_trace_prefix = { ("name_prefix"|"trace_prefix"|"prefix") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_no_duplicate = { ("avoid_duplicates"|"prevent_duplicates"|"no_duplicates") ~ "=" ~ (HIBOU_true|HIBOU_false) }
 
@@ -84,7 +84,7 @@ TRACEGEN_LOGGER_opt = _{ TRACEGEN_LOGGER_gen_kind
 TRACEGEN_LOGGER_opts = { "[" ~ TRACEGEN_LOGGER_opt ~ ("," ~ TRACEGEN_LOGGER_opt)* ~ (",")? ~ "]" }
 OPTION_TRACEGEN_LOGGER = { "tracegen" ~ TRACEGEN_LOGGER_opts? }
 
-OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
+OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 
 // ***
 
@@ -200,7 +200,7 @@ OPTION_GOAL_KIND = _{ OPTION_GOAL_pass | OPTION_GOAL_weakpass | HIBOU_none }
 OPTION_GOAL_DECL = { "goal" ~ "=" ~ OPTION_GOAL_KIND }
 // ***********************************************
 OPTION_LOCANA_depth = { ("max_look_ahead_depth" | "max"~"depth" | "lookahead" | "lookup") ~ "=" ~ (HIBOU_none | ARITH_INTEGER)}
-OPTION_LOCANA_modulo = { ("modulo" | "modulo_each_X_steps") ~ "=" ~ ARITH_INTEGER}
+OPTION_LOCANA_modulo = { ("modulo_each_X_steps" | "modulo") ~ "=" ~ ARITH_INTEGER}
 OPTION_LOCANA_select_all = { "all" | "All" | "ALL" }
 OPTION_LOCANA_select_dirty = { "dirty" | "Dirty" | "DIRTY" }
 OPTION_LOCANA_select = { "select" ~ "=" ~ (OPTION_LOCANA_select_all|OPTION_LOCANA_select_dirty) }
@@ -227,7 +227,7 @@ ANALYZE_OPTION_SECTION =  { "@analyze_option" ~ "{" ~
 
 OPTION_CANON_searchall_yes = { "search_all" ~ ("=" ~ HIBOU_true)? }
 OPTION_CANON_searchall_no = { "search_all" ~ "=" ~ HIBOU_false }
-OPTION_CANON_searchall = _{ OPTION_CANON_searchall_yes | OPTION_CANON_searchall_no }
+OPTION_CANON_searchall = _{ OPTION_CANON_searchall_no | OPTION_CANON_searchall_yes }
 // ***
 CANONIZE_OPTION_DECL = _{ GENERAL_OPTION_DECL
                             | OPTION_CANON_searchall }
-- 
2.43.0


From 4e3cb1910ddf2786f6c0f7fab08a9c3b838aba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:25 +0000
Subject: [PATCH 19/55] fix: trace generation for partitions that do not
 mention every lifeline

---
 src/io/input/hcf/loggers/tracegen.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 909493e..0644bfc 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -126,6 +126,12 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                             }
                             colocs.push(coloc);
                         }
+                        // lifelines that are not mentioned have a component of their own (as in ".htf" files)
+                        for lf_id in gen_ctx.get_all_lfs_ids() {
+                            if !got_lfs.contains(&lf_id) {
+                                colocs.push(btreeset!{lf_id});
+                            }
+                        }
                         // ***
                         co_localizations = CoLocalizations::new(colocs);
                     },
-- 
2.43.0


From 93386bb7e74ecb380d48fa2c200be3d36fde5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:25 +0000
Subject: [PATCH 20/55] fix: report a trace generation modulo a depth of 0
 instead of dividing by it

---
 src/io/input/hcf/loggers/tracegen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 0644bfc..a8efb7a 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -94,6 +94,9 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
                         let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        if my_val == 0 {
+                            return Err( HibouParsingError::HcfSetupError("trace generation modulo a depth of 0".to_string()) );
+                        }
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
-- 
2.43.0


From 56192c869317a3fe3fde5ea5d978591fc3ce8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:25 +0000
Subject: [PATCH 21/55] fix: report options that canonization does not support
 instead of crashing

---
 src/io/input/hcf/canon/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hcf/canon/options.rs b/src/io/input/hcf/canon/options.rs
index f4fbcda..011e245 100644
--- a/src/io/input/hcf/canon/options.rs
+++ b/src/io/input/hcf/canon/options.rs
@@ -98,13 +98,13 @@ pub fn parse_canonize_options(gen_ctx: &GeneralContext,
                             loggers.push( Box::new(glogger));
                         },
                         _ => {
-                            panic!("what rule then ? : {:?}", logger_kind_pair.as_rule() );
+                            return Err(HibouParsingError::HcfSetupError("only graphic loggers can be used for canonization".to_string()));
                         }
                     }
                 }
             },
             _ => {
-                panic!("what rule then ? : {:?}", option_decl_pair.as_rule() );
+                return Err(HibouParsingError::HcfSetupError("only 'loggers' and 'search_all' can be set for canonization".to_string()));
             }
         }
     }
-- 
2.43.0


From 9a4cc3ca6da13671dce012ecbfe4e1b00a8f4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 22/55] fix: the component of a trace without declared
 lifelines is on the lifelines it mentions

---
 src/io/input/htf/implem.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index e5fca20..b945fe1 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -52,9 +52,10 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                             return Err(e);
                         },
                         Ok( got_trace ) => {
-                            let co_localization = CoLocalizations::get_trivial_partition(lifelines.len());
-                            let multi_trace : MultiTrace = vec![got_trace];
-                            return Ok( (co_localization,multi_trace) );
+                            let mut colocs : Vec<BTreeSet<usize>> = vec![lifelines];
+                            let mut multi_trace : MultiTrace = vec![got_trace];
+                            complete_canals_up_to_defined_lifelines(gen_ctx, &mut colocs, &mut multi_trace );
+                            return Ok( (CoLocalizations::new(colocs),multi_trace) );
                         }
                     }
                 },
-- 
2.43.0


From 83c54b4950e54b5d753af75d1232367a3f687dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 23/55] fix: report trace components declared on a same
 lifeline

---
 src/io/input/htf/multi_trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/htf/multi_trace.rs b/src/io/input/htf/multi_trace.rs
index c501d09..a1354a8 100644
--- a/src/io/input/htf/multi_trace.rs
+++ b/src/io/input/htf/multi_trace.rs
@@ -82,6 +82,9 @@ pub fn trace_canal_from_pair(gen_ctx : &GeneralContext,
                         return Err( HibouParsingError::MissingLifelineDeclarationError(lf_name));
                     },
                     Some( lf_id ) => {
+                        if unavailable_lifelines.contains(&lf_id) {
+                            return Err( HibouParsingError::NonDisjointTraceComponents );
+                        }
                         lifelines.insert(lf_id);
                     }
                 }
-- 
2.43.0


From b063238f615135554bf3c62fcf17d8d32500e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 24/55] fix: accept a single trace component without braces, as
 documented

---
 src/io/input/htf/htf_syntax.pest | 2 +-
 src/io/input/htf/implem.rs       | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/io/input/htf/htf_syntax.pest b/src/io/input/htf/htf_syntax.pest
index 1ccf387..7ce5a40 100644
--- a/src/io/input/htf/htf_syntax.pest
+++ b/src/io/input/htf/htf_syntax.pest
@@ -42,5 +42,5 @@ CANAL_TRACE = { CANAL_LIFELINES ~ TRACE_SEQUENCE }
 
 MULTI_TRACE = { "{" ~ (CANAL_TRACE ~ (";" ~ CANAL_TRACE)* )? ~ (";")? ~ "}" }
 
-HTF_PEST_FILE = { SOI ~ (MULTI_TRACE|TRACE_SEQUENCE) ~ EOI }
+HTF_PEST_FILE = { SOI ~ (MULTI_TRACE|CANAL_TRACE|TRACE_SEQUENCE) ~ EOI }
 
diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index b945fe1..04e8e80 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -59,11 +59,16 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                         }
                     }
                 },
-                Rule::MULTI_TRACE => {
+                Rule::MULTI_TRACE | Rule::CANAL_TRACE => {
+                    let canal_trace_pairs : Vec<Pair<Rule>> = if first_pair.as_rule() == Rule::CANAL_TRACE {
+                        vec![first_pair]
+                    } else {
+                        first_pair.into_inner().collect()
+                    };
                     let mut unavailable_lifelines : BTreeSet<usize> = btreeset!{};
                     let mut multi_trace : MultiTrace = vec![];
                     let mut colocs : Vec<BTreeSet<usize>> = vec![];
-                    for canal_trace_pair in first_pair.into_inner() {
+                    for canal_trace_pair in canal_trace_pairs {
                         match trace_canal_from_pair(gen_ctx,
                                                     canal_trace_pair,
                                                     &mut colocs,
-- 
2.43.0


From 7f9702ef5e6035b2a100ec837b423cd7f6d12dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:25 +0000
Subject: [PATCH 25/55] fix: write interactions with synchronizations and
 conjunctions to files

---
 .../to_hfiles/interaction/interaction.rs      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/io/output/to_hfiles/interaction/interaction.rs b/src/io/output/to_hfiles/interaction/interaction.rs
index 3f5610d..d32e8d1 100644
--- a/src/io/output/to_hfiles/interaction/interaction.rs
+++ b/src/io/output/to_hfiles/interaction/interaction.rs
@@ -15,6 +15,9 @@ limitations under the License.
 */
 
 
+use std::collections::BTreeSet;
+
+use crate::core::execution::trace::trace::TraceAction;
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 use crate::core::language::syntax::util::get_recursive_frag::{
@@ -24,7 +27,8 @@ use crate::core::language::syntax::util::get_recursive_frag::{
     get_recursive_coreg_frags,
     get_recursive_strict_frags};
 use crate::io::output::to_hfiles::interaction::model_action::{emission_as_hif_encoding, reception_as_hif_encoding};
-use crate::io::textual_convention::{SYNTAX_ALT, SYNTAX_COREG, SYNTAX_EMPTY, SYNTAX_LOOP_H, SYNTAX_LOOP_P, SYNTAX_LOOP_S, SYNTAX_LOOP_W, SYNTAX_PAR, SYNTAX_SEQ, SYNTAX_STRICT};
+use crate::io::output::to_hfiles::trace::trace_action::trace_actions_as_htf_encoding;
+use crate::io::textual_convention::{SYNTAX_ALT, SYNTAX_AND, SYNTAX_COREG, SYNTAX_EMPTY, SYNTAX_LOOP_H, SYNTAX_LOOP_P, SYNTAX_LOOP_S, SYNTAX_LOOP_W, SYNTAX_PAR, SYNTAX_SEQ, SYNTAX_STRICT, SYNTAX_SYNC};
 
 
 pub fn interaction_as_hif_encoding(gen_ctx : &GeneralContext,
@@ -101,8 +105,18 @@ fn interaction_as_hif_encoding_inner(gen_ctx : &GeneralContext,
             let i1_string = interaction_as_hif_encoding_inner(gen_ctx,depth+1,i1);
             return format!("{0}{1}(\n{2}\n{0})", "\t".repeat(depth), loop_kind_as_text(lk), i1_string);
         },
-        _ => {
-            panic!("non-conform interaction");
+        &Interaction::Sync(ref sync_acts, ref i1, ref i2) => {
+            let acts : BTreeSet<TraceAction> = sync_acts.iter().cloned().collect();
+            let acts_text = trace_actions_as_htf_encoding(gen_ctx,&acts);
+            let operator_name = if acts.len() == 1 {
+                format!("{:}({:})", SYNTAX_SYNC, acts_text)
+            } else {
+                format!("{:}{:}", SYNTAX_SYNC, acts_text)
+            };
+            return op_as_hif_encoding(gen_ctx,depth,&operator_name,vec![i1,i2]);
+        },
+        &Interaction::And(ref i1, ref i2) => {
+            return op_as_hif_encoding(gen_ctx,depth,SYNTAX_AND,vec![i1,i2]);
         }
     }
 
-- 
2.43.0


From 36ffde29565d3e329d542e28afe4af87727c7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:25 +0000
Subject: [PATCH 26/55] fix: merging actions on a gate never matched

---
 src/core/transformation/transfofunc/merge/merge_action.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transformation/transfofunc/merge/merge_action.rs b/src/core/transformation/transfofunc/merge/merge_action.rs
index 3366389..0707d91 100644
--- a/src/core/transformation/transfofunc/merge/merge_action.rs
+++ b/src/core/transformation/transfofunc/merge/merge_action.rs
@@ -63,7 +63,7 @@ fn merge_action_inner(emission : &EmissionAction,
                     },
                     EmissionTargetRef::Gate(gt_id) => {
                         if gt_id == gt_id_to_match {
-                            is_match == true;
+                            is_match = true;
                             for recipient_lf in &reception.recipients {
                                 targets.push(EmissionTargetRef::Lifeline(*recipient_lf));
                             }
-- 
2.43.0


From cd5e663629b48b706e07575c93bd62a5180331c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:43 +0000
Subject: [PATCH 27/55] fix: write receptions without recipients to files

---
 src/io/output/to_hfiles/interaction/model_action.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/interaction/model_action.rs b/src/io/output/to_hfiles/interaction/model_action.rs
index b381ba7..b10cea8 100644
--- a/src/io/output/to_hfiles/interaction/model_action.rs
+++ b/src/io/output/to_hfiles/interaction/model_action.rs
@@ -91,6 +91,6 @@ pub fn reception_as_hif_encoding(gen_ctx : &GeneralContext,
     } else if rcp_num > 1 {
         return format!("{}{}{} -> ({})", gate_str, synch_key, &ms_name, &targ_names.join(","));
     } else {
-        panic!();
+        return format!("{}{}{} ->|", gate_str, synch_key, &ms_name);
     }
 }
\ No newline at end of file
-- 
2.43.0


From ec53c8dea808aa4e73d54cdef4feede40f3f880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 28/55] fix: swapping components of multi-traces swapped more
 than asked or crashed

---
 src/trace_manip/mutate/swap_component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/swap_component.rs b/src/trace_manip/mutate/swap_component.rs
index 5830160..034d7f0 100644
--- a/src/trace_manip/mutate/swap_component.rs
+++ b/src/trace_manip/mutate/swap_component.rs
@@ -65,7 +65,7 @@ fn mutate_by_swapping_components(multi_trace_1 : &MultiTrace, multi_trace_2 : &M
     let mut compos_indices : Vec<usize> = (0..(num_compos as usize)).collect();
     compos_indices.shuffle(&mut rng);
     // ***
-    let mut rem_num_swaps = max_num_swaps.max(num_compos - 1);
+    let mut rem_num_swaps = max_num_swaps.min(num_compos.saturating_sub(1));
     // ***
     let mut mutated_mt = multi_trace_1.clone();
     while rem_num_swaps > 0 {
-- 
2.43.0


From 9ba7f37f2f95eee295c4ca49aa3dc0d2cfa2d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 29/55] fix: the limit of one noise insertion per component was
 not respected

---
 src/trace_manip/mutate/insert_noise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index ba59ec5..851a8db 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -94,7 +94,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
     // ***
     let mut rem_num_inserts : u32;
     if one_per_compo_max {
-        rem_num_inserts = max_num_inserts.max(multi_trace.len() as u32);
+        rem_num_inserts = max_num_inserts.min(multi_trace.len() as u32);
     } else {
         rem_num_inserts = max_num_inserts;
     }
@@ -116,6 +116,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
             } else {
                 mutate_vector_by_insert(&mut rng,component,btreeset!{to_insert});
             }
+            seen_colocs.insert(coloc_id);
             rem_num_inserts -= 1;
         }
     }
-- 
2.43.0


From 5f4fc02b2bd406b8271c245fde860dac26a9c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 30/55] fix: create the parent folder of multi-traces mutated
 by removing actions

---
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index eb81f62..c839f0f 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -15,6 +15,7 @@ limitations under the License.
 */
 
 
+use std::fs;
 use std::path::PathBuf;
 use rand::rngs::ThreadRng;
 use rand::seq::SliceRandom;
@@ -39,6 +40,8 @@ pub fn generate_remove_actions_mutant(gen_ctx : &GeneralContext,
             [&file_name].iter().collect()
         },
         Some( parent ) => {
+            // creates directory
+            fs::create_dir_all(parent).unwrap();
             [parent, &file_name].iter().collect()
         }
     };
-- 
2.43.0


From bea8945ca711fd427218aac8893d95ccf9341aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:22 +0000
Subject: [PATCH 31/55] fix: wide slices could be shorter than a third of the
 sliced component

---
 src/trace_manip/slice/random.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index f8b47c6..46615bd 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -111,9 +111,6 @@ fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usiz
 }
 
 fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usize,usize) {
-    if length <= 4 {
-        return get_any_cut(rng,length,kind);
-    }
     let (id1,id2) : (usize,usize);
     match kind {
         &SliceKind::Slice => {
@@ -128,7 +125,7 @@ fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (us
         },
         &SliceKind::Suffix => {
             let rng_indices = Uniform::from(0..((length/2) + 1) );
-            id1 = length - rng_indices.sample(rng);
+            id1 = rng_indices.sample(rng);
             id2 = length;
         }
     }
-- 
2.43.0


From 86e9f140f0775e4861870eb3899fabd9bc079926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 32/55] fix: declare the num_tries argument that
 rng_gen_interactions reads

---
 src/ui/hibou_cli.yml | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ui/hibou_cli.yml b/src/ui/hibou_cli.yml
index c465237..9a66a02 100644
--- a/src/ui/hibou_cli.yml
+++ b/src/ui/hibou_cli.yml
@@ -436,6 +436,11 @@ subcommands:
                   short: i
                   takes_value: true
                   help: number of interactions to generate (default 350)
+              - num_tries:
+                  required: false
+                  short: n
+                  takes_value: true
+                  help: maximum number of unsuccessful tries (default thrice the number of interactions)
               - probas:
                   required: false
                   short: p
-- 
2.43.0


From daa5377bdfb374ba1789fdb9f808f4d655b1df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 33/55] fix: create the folder of the randomly generated
 interactions

---
 src/ui/commands/cli_rng_gen_interactions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index cdfe401..f2a3126 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -154,6 +154,8 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 output_folder)
             );
 
+            std::fs::create_dir_all(&output_folder).unwrap();
+
             let mut memoized_ints = HashSet::new();
 
             let mut rng = StdRng::seed_from_u64(seed);
@@ -180,7 +182,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 }
                 if !got_one {
                     println!("retrying...");
-                    max_tries -= 1;
+                    max_tries = max_tries.saturating_sub(1);
                     if max_tries <= 0 {
                         println!("... max retries exceeded");
                         break 'myloop;
-- 
2.43.0


From 847c433aeb6822db606ee9576aa256831737c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 34/55] fix: the random generation of interactions only depends
 on the seed

---
 src/experiments/interaction_random_gen/probas.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/experiments/interaction_random_gen/probas.rs b/src/experiments/interaction_random_gen/probas.rs
index 98d022d..fb5ad50 100644
--- a/src/experiments/interaction_random_gen/probas.rs
+++ b/src/experiments/interaction_random_gen/probas.rs
@@ -66,7 +66,10 @@ impl InteractionSymbolsProbabilities {
         let mut ordered_symbols = vec![];
         let mut ordered_bounds = vec![0.0_f32];
         let mut sum = 0.0;
-        for (s,p) in map {
+        // the iteration order of a HashMap would make the generation depend on something else than the seed
+        let mut symbols_and_probas : Vec<(InteractionGenerationSymbol,f32)> = map.into_iter().collect();
+        symbols_and_probas.sort_by_key(|(s,_)| *s);
+        for (s,p) in symbols_and_probas {
             if p < 0.0 - 1e-6 || p > 1.0 + 1e-6 {
                 return Err(InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1);
             }
-- 
2.43.0


From 3d9496d9218431147c5bc7d8f879438532d9ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 35/55] fix: random generation of message passings with a
 single lifeline

---
 src/experiments/interaction_random_gen/gen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/experiments/interaction_random_gen/gen.rs b/src/experiments/interaction_random_gen/gen.rs
index 30113be..b1ce7e7 100644
--- a/src/experiments/interaction_random_gen/gen.rs
+++ b/src/experiments/interaction_random_gen/gen.rs
@@ -61,11 +61,11 @@ pub fn generate_random_pattern(signature : &GeneralContext,
     lifelines.shuffle(rng);
     let orig_lf_id = lifelines.pop().unwrap();
     let targets : Vec<EmissionTargetRef> = if is_broadcast {
-        let number_of_targets = rng.gen_range(0..lifelines.len());
+        let number_of_targets = rng.gen_range(0..=lifelines.len());
         lifelines[0..number_of_targets].iter()
             .map(|x| EmissionTargetRef::Lifeline(*x)).collect()
     } else {
-        vec![EmissionTargetRef::Lifeline(lifelines.pop().unwrap())]
+        lifelines.pop().map(EmissionTargetRef::Lifeline).into_iter().collect()
     };
     let emission = EmissionAction::new(
         orig_lf_id,
-- 
2.43.0


From 595a9967a080e20962fccd735763501139f71357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:14 +0000
Subject: [PATCH 36/55] fix: the minDFA metrics are those of the minimal DFA

---
 src/ui/commands/cli_get_metrics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index 705c52c..20df63b 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use autour_core::nfa::nfa::AutNFA;
+use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use clap::ArgMatches;
 use crate::core::language::syntax::metrics::InteractionMetrics;
@@ -92,7 +93,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             let (nfa,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
-                            let dfa = nfa.to_dfa();
+                            let dfa = nfa.to_dfa().minimize();
                             let num_states = dfa.transitions.len();
                             let num_edges = dfa.transitions.iter()
                                 .fold(0,|x,t|
-- 
2.43.0


From 13921d13054d3aef1a5ac39dbffbdd9bf13e9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:45 +0000
Subject: [PATCH 37/55] fix: wide prefixes of single-action components were
 always empty

---
 src/trace_manip/slice/random.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index 46615bd..ab4f586 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -16,7 +16,6 @@ limitations under the License.
 
 
 
-use std::cmp::min;
 use std::collections::HashSet;
 use std::path::PathBuf;
 
@@ -121,7 +120,7 @@ fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (us
         &SliceKind::Prefix => {
             let rng_indices = Uniform::from(0..((length/2)+ 1) );
             id1 = 0;
-            id2 = min((length/2) + rng_indices.sample(rng), length );
+            id2 = length - rng_indices.sample(rng);
         },
         &SliceKind::Suffix => {
             let rng_indices = Uniform::from(0..((length/2) + 1) );
-- 
2.43.0


From 75f74367625d5d41a97c7b1d063f011283917c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:36 +0000
Subject: [PATCH 38/55] fix: a comment after an integer of a configuration file
 made its reader panic

---
 src/io/input/hcf/ana/options.rs   | 5 +++--
 src/io/input/hcf/explo/options.rs | 5 +++--
 src/io/input/hcf/hcf_syntax.pest  | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index 9abd205..db8f11c 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -353,8 +353,9 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 let priority_kind_pair = priority_contents.next().unwrap();
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
-                let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let is_negative : bool = priority_level_pair.as_str().starts_with('-');
+                let priority_level_abs : i32 = priority_level_pair.into_inner().next().unwrap().as_str().parse::<i32>().unwrap();
+                let priority_level : i32 = if is_negative { -priority_level_abs } else { priority_level_abs };
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 9efb551..bffe179 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -251,8 +251,9 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 let priority_kind_pair = priority_contents.next().unwrap();
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
-                let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let is_negative : bool = priority_level_pair.as_str().starts_with('-');
+                let priority_level_abs : i32 = priority_level_pair.into_inner().next().unwrap().as_str().parse::<i32>().unwrap();
+                let priority_level : i32 = if is_negative { -priority_level_abs } else { priority_level_abs };
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index 386c2fe..04521d5 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -92,7 +92,7 @@ OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 OPTION_LOGGER_KIND = _{ OPTION_GRAPHIC_LOGGER | OPTION_TRACEGEN_LOGGER | OPTION_NFAIT_LOGGER }
 OPTION_LOGGER_DECL = { "loggers" ~ "=" ~ "[" ~ OPTION_LOGGER_KIND ~ ("," ~ OPTION_LOGGER_KIND)* ~ (",")? ~ "]" }
 // ***********************************************
-ARITH_INTEGER = { "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
+ARITH_INTEGER = @{ "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
 // ***********************************************
 OPTION_PRIORITY_emission = { "emission" }
 OPTION_PRIORITY_reception = { "reception" }
-- 
2.43.0


From 29e814d275b400253e22bf907a948f20b53dd577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:02 +0000
Subject: [PATCH 39/55] fix: weak loops were exported to PlantUML under the
 name of strict loops

---
 src/plantuml/sequence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/sequence.rs b/src/plantuml/sequence.rs
index 9e3df57..76c0129 100644
--- a/src/plantuml/sequence.rs
+++ b/src/plantuml/sequence.rs
@@ -130,13 +130,13 @@ fn to_plant_uml_sd_rec(output_file : &mut File,
             // ***
             match kind {
                 &LoopKind::SStrictSeq => {
-                    output_file.write( "group loopX\n".as_bytes() );
+                    output_file.write( "group loopS\n".as_bytes() );
                 },
                 &LoopKind::HHeadFirstWS => {
                     output_file.write( "group loopH\n".as_bytes() );
                 },
                 &LoopKind::WWeakSeq => {
-                    output_file.write( "group loopS\n".as_bytes() );
+                    output_file.write( "group loopW\n".as_bytes() );
                 },
                 &LoopKind::PInterleaving => {
                     output_file.write( "group loopP\n".as_bytes() );
-- 
2.43.0


From 03d94f2204fd5b6350e4358f8e625121aaeafa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:11 +0000
Subject: [PATCH 40/55] fix: generating traces along with memoization crashed
 or lost traces

---
 src/io/input/hcf/ana/options.rs   | 5 +++++
 src/io/input/hcf/explo/options.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index db8f11c..cb8914a 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -100,11 +100,13 @@ pub fn parse_analyze_options(gen_ctx : &GeneralContext,
     let mut use_partial_order_reduction = false;
     let mut use_memoization = true;
     let mut goal = Some(AnalysisGlobalVerdict::WeakPass);
+    let mut generates_traces = false;
     // ***
     for option_decl_pair in option_pair.into_inner() {
         match option_decl_pair.as_rule() {
             Rule::OPTION_LOGGER_DECL => {
                 loggers = Vec::new();
+                generates_traces = false;
                 // ***
                 let mut logger_id : u32 = 0;
                 for logger_kind_pair in option_decl_pair.into_inner() {
@@ -121,6 +123,7 @@ pub fn parse_analyze_options(gen_ctx : &GeneralContext,
                                 },
                                 Ok( tlogger ) => {
                                     loggers.push( Box::new(tlogger));
+                                    generates_traces = true;
                                 }
                             }
                         },
@@ -288,6 +291,8 @@ pub fn parse_analyze_options(gen_ctx : &GeneralContext,
         None
     };
     let param = AnalysisParameterization::new(ana_kind,locana_param, use_partial_order_reduction);
+    // trace generation needs every path, memoization only keeps one to each node
+    let use_memoization = use_memoization && !generates_traces;
     let hoptions = HibouAnalyzeOptions::new(loggers,strategy,filters,priorities,param,use_memoization,goal);
     return Ok(hoptions);
 }
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index bffe179..8f614c2 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -79,11 +79,13 @@ pub fn parse_explore_options(gen_ctx: &GeneralContext,
     let mut filters : Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion,ExplorationFilterEliminationKind>>> = Vec::new();
     let mut priorities : GenericProcessPriorities<ExplorationPriorities> = GenericProcessPriorities::new(ExplorationPriorities::default(),false);
     let mut use_memoization = false;
+    let mut generates_traces = false;
     // ***
     for option_decl_pair in option_pair.into_inner() {
         match option_decl_pair.as_rule() {
             Rule::OPTION_LOGGER_DECL => {
                 loggers = Vec::new();
+                generates_traces = false;
                 // ***
                 let mut logger_id : u32 = 0;
                 for logger_kind_pair in option_decl_pair.into_inner() {
@@ -100,6 +102,7 @@ pub fn parse_explore_options(gen_ctx: &GeneralContext,
                                 },
                                 Ok( tlogger ) => {
                                     loggers.push( Box::new(tlogger));
+                                    generates_traces = true;
                                 }
                             }
                         },
@@ -184,6 +187,8 @@ pub fn parse_explore_options(gen_ctx: &GeneralContext,
         }
     }
     // ***
+    // trace generation needs every path, memoization only keeps one to each node
+    let use_memoization = use_memoization && !generates_traces;
     let hoptions = HibouExploreOptions::new(loggers,strategy,filters,priorities,use_memoization);
     return Ok(hoptions);
 }
-- 
2.43.0


From 20744c744c7144cd16ab888ed1de307e6a5c6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 41/55] fix: integers out of range in configuration files made
 their reader panic

---
 src/io/input/hcf/ana/options.rs      | 24 +++++++++-------------
 src/io/input/hcf/explo/options.rs    | 12 +++++------
 src/io/input/hcf/integer.rs          | 30 ++++++++++++++++++++++++++++
 src/io/input/hcf/loggers/tracegen.rs |  7 +++----
 src/io/input/hcf/mod.rs              |  1 +
 5 files changed, 48 insertions(+), 26 deletions(-)
 create mode 100644 src/io/input/hcf/integer.rs

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index cb8914a..ab6fd4f 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -23,6 +23,7 @@ use pest::iterators::Pair;
 use crate::core::general_context::GeneralContext;
 
 use crate::io::input::error::HibouParsingError;
+use crate::io::input::hcf::integer::parse_hcf_integer;
 use crate::io::input::hcf::loggers::graphviz::parse_graphic_logger;
 use crate::io::input::hcf::loggers::tracegen::parse_tracegen_logger;
 
@@ -304,20 +305,17 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
         match filter_pair.as_rule() {
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_hcf_integer(&content)?;
                 filters.push(Box::new(AnalysisFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_hcf_integer(&content)?;
                 filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_hcf_integer(&content)?;
                 filters.push(Box::new(AnalysisFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -359,7 +357,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let is_negative : bool = priority_level_pair.as_str().starts_with('-');
-                let priority_level_abs : i32 = priority_level_pair.into_inner().next().unwrap().as_str().parse::<i32>().unwrap();
+                let priority_level_abs : i32 = parse_hcf_integer(&priority_level_pair.into_inner().next().unwrap())?;
                 let priority_level : i32 = if is_negative { -priority_level_abs } else { priority_level_abs };
                 // ***
                 match priority_kind_pair.as_rule() {
@@ -450,8 +448,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                                 max_look_ahead_depth = None;
                             },
                             Rule::ARITH_INTEGER => {
-                                let content_str : String = depth_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = parse_hcf_integer(&depth_pair)?;
                                 max_look_ahead_depth = Some(my_val);
                             },
                             _ => {
@@ -463,8 +460,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                         let modulo_pair = inner_pair.into_inner().next().unwrap();
                         match modulo_pair.as_rule() {
                             Rule::ARITH_INTEGER => {
-                                let content_str : String = modulo_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = parse_hcf_integer(&modulo_pair)?;
                                 modulo_each_X_steps = my_val;
                             },
                             _ => {
@@ -547,8 +543,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                 match inner.as_rule() {
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
-                        let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_hcf_integer(&content)?;
                         act_crit = SimulationActionCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
@@ -567,8 +562,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                 match inner.as_rule() {
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
-                        let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_hcf_integer(&content)?;
                         loop_crit = SimulationLoopCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 8f614c2..03aa105 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -23,6 +23,7 @@ use pest::iterators::Pair;
 
 use crate::core::general_context::GeneralContext;
 use crate::io::input::error::HibouParsingError;
+use crate::io::input::hcf::integer::parse_hcf_integer;
 use crate::io::input::hcf::loggers::graphviz::parse_graphic_logger;
 use crate::io::input::hcf::loggers::tracegen::parse_tracegen_logger;
 
@@ -201,20 +202,17 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
         match filter_pair.as_rule() {
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_hcf_integer(&content)?;
                 filters.push(Box::new(ExplorationFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_hcf_integer(&content)?;
                 filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_hcf_integer(&content)?;
                 filters.push(Box::new(ExplorationFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -257,7 +255,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let is_negative : bool = priority_level_pair.as_str().starts_with('-');
-                let priority_level_abs : i32 = priority_level_pair.into_inner().next().unwrap().as_str().parse::<i32>().unwrap();
+                let priority_level_abs : i32 = parse_hcf_integer(&priority_level_pair.into_inner().next().unwrap())?;
                 let priority_level : i32 = if is_negative { -priority_level_abs } else { priority_level_abs };
                 // ***
                 match priority_kind_pair.as_rule() {
diff --git a/src/io/input/hcf/integer.rs b/src/io/input/hcf/integer.rs
new file mode 100644
index 0000000..f987a8d
--- /dev/null
+++ b/src/io/input/hcf/integer.rs
@@ -0,0 +1,30 @@
+/*
+Copyright 2020 Erwan Mahe (github.com/erwanM974)
+
+Licensed under the Apache License, Version 2.0 (the "License");
+you may not use this file except in compliance with the License.
+You may obtain a copy of the License at
+
+    http://www.apache.org/licenses/LICENSE-2.0
+
+Unless required by applicable law or agreed to in writing, software
+distributed under the License is distributed on an "AS IS" BASIS,
+WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+See the License for the specific language governing permissions and
+limitations under the License.
+*/
+
+use std::str::FromStr;
+
+use pest::iterators::Pair;
+
+use crate::io::input::error::HibouParsingError;
+use crate::io::input::hcf::parser::Rule;
+
+
+/// integers that are too large for the option they set are reported instead of crashing the reader
+pub fn parse_hcf_integer<T : FromStr>(integer_pair : &Pair<Rule>) -> Result<T,HibouParsingError> {
+    let content_str : String = integer_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
+    return content_str.parse::<T>()
+        .map_err(|_| HibouParsingError::HcfSetupError( format!("integer out of range : {:}", content_str) ));
+}
diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index a8efb7a..9e86945 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -26,6 +26,7 @@ use crate::core::colocalizations::CoLocalizations;
 use crate::core::general_context::GeneralContext;
 use crate::io::file_extensions::HIBOU_TRACE_FILE_EXTENSION;
 use crate::io::input::error::HibouParsingError;
+use crate::io::input::hcf::integer::parse_hcf_integer;
 
 
 
@@ -86,14 +87,12 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                     },
                     Rule::TRACEGEN_LOGGER_depth => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
-                        let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_hcf_integer(&depth_int_pair)?;
                         generation = TracegenProcessLoggerGeneration::atExactDepth(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_modulo => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
-                        let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_hcf_integer(&depth_int_pair)?;
                         if my_val == 0 {
                             return Err( HibouParsingError::HcfSetupError("trace generation modulo a depth of 0".to_string()) );
                         }
diff --git a/src/io/input/hcf/mod.rs b/src/io/input/hcf/mod.rs
index cccbca1..8f73795 100644
--- a/src/io/input/hcf/mod.rs
+++ b/src/io/input/hcf/mod.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 mod parser;
+mod integer;
 
 pub mod loggers;
 
-- 
2.43.0


From 3502d08f194870831fffe8b14210229254eae58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 42/55] fix: large simulation budgets overflowed when
 multiplied by the length of the multi-trace

---
 src/process/ana/param/anakind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/param/anakind.rs b/src/process/ana/param/anakind.rs
index fda2e0e..93b39fa 100644
--- a/src/process/ana/param/anakind.rs
+++ b/src/process/ana/param/anakind.rs
@@ -118,7 +118,7 @@ impl SimulationConfiguration {
             }
         }
         if self.multiply_by_multitrace_length {
-            return num * (multi_trace_len as u32);
+            return num.saturating_mul(multi_trace_len as u32);
         } else {
             return num;
         }
@@ -139,7 +139,7 @@ impl SimulationConfiguration {
             }
         }
         if self.multiply_by_multitrace_length {
-            return num * (multi_trace_len as u32);
+            return num.saturating_mul(multi_trace_len as u32);
         } else {
             return num;
         }
-- 
2.43.0


From 4d31e5b007e556a6f6a8bc1e0706063b49ffa42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:59 +0000
Subject: [PATCH 43/55] fix: drawing the automata of interactions with
 synchronous communications crashed

---
 src/ui/commands/cli_glosem.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index 1380d4a..d1906a6 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -34,7 +34,7 @@ use crate::core::execution::trace::trace::TraceAction;
 use crate::io::input::hsf::interface::parse_hsf_file;
 use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
-use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
+use crate::nfa_translation::alphabet::{complete_alphabet_with_interaction, get_alphabet_from_gen_ctx};
 use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
@@ -82,7 +82,9 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                         &int,
                         get_alphabet_from_gen_ctx(&gen_ctx));
 
-                    let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                    let mut alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+                    complete_alphabet_with_interaction(&mut alphabet,&int);
+                    let printer = ActionNFAITPrinter::new(alphabet,gen_ctx);
 
                     let mut ret_print = vec![];
                     // ***
-- 
2.43.0


From 85f6df80ef168470a456a5ef6e6d3bd29081f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:20 +0000
Subject: [PATCH 44/55] fix: drawing conjunctions as sequence diagrams crashed

---
 .../draw_interactions/as_sd/interaction_repr/img_content.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/output/draw_interactions/as_sd/interaction_repr/img_content.rs b/src/io/output/draw_interactions/as_sd/interaction_repr/img_content.rs
index 2e5b6a9..4d73fc0 100644
--- a/src/io/output/draw_interactions/as_sd/interaction_repr/img_content.rs
+++ b/src/io/output/draw_interactions/as_sd/interaction_repr/img_content.rs
@@ -118,8 +118,10 @@ pub fn draw_interaction_rec(    image : &mut RgbImage,
                 }
             }
         },
-        _ => {
-            panic!("non-conform interaction");
+        &Interaction::And(ref i1,ref i2) => {
+            let frags : Vec<&Interaction> = vec![i1,i2];
+            let label = vec![TextToPrint::new(SYNTAX_AND.to_string(),Rgb(HCP_Black))];
+            return draw_n_ary_combined_fragment(image, gen_ctx,frags,lf_x_widths, lf_num,label, nest_shift, yshift);
         }
     }
 }
-- 
2.43.0


From a1e3e1fd497ab14c13f9f70c6984f293c25587ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 45/55] fix: lifelines without actions were exported as state
 machines that never start

---
 src/plantuml/automata_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 15d67d6..7a6b0e9 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -37,7 +37,7 @@ pub fn to_plant_uml_ap(output_path : &String,
         let projected_int = interaction.eliminate_lifelines(&lfs_to_remove);
         output_file.write( format!("state lf_{} {{\n",lf_name).as_bytes() );
         let (last_state_id,_) = to_plant_uml_ap_rec(&mut output_file, &projected_int, gen_ctx, lf_id, 0, 1);
-        output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last_state_id).as_bytes() );
+        output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last_state_id)).as_bytes() );
         output_file.write( "}\n".as_bytes() );
     }
     output_file.write( "@enduml\n".as_bytes() );
@@ -159,7 +159,7 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             // ***
             let (last,count) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);
             new_state_count = count;
-            output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last).as_bytes() );
+            output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last)).as_bytes() );
             // ***
             output_file.write( "}\n".as_bytes() );
             output_file.write(format!("{} --> {}\n", last_state_label, loop_label).as_bytes());
-- 
2.43.0


From b8170dfc9001b9ab7263224185a28a34c0de1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:13 +0000
Subject: [PATCH 46/55] fix: the lifelines of conjunctions could not be
 computed

---
 src/core/language/involve/interaction.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/language/involve/interaction.rs b/src/core/language/involve/interaction.rs
index ea55838..3bb27ca 100644
--- a/src/core/language/involve/interaction.rs
+++ b/src/core/language/involve/interaction.rs
@@ -70,8 +70,10 @@ impl InvolvesLifelines for Interaction {
             &Interaction::Loop(_, i1) => {
                 return i1.involved_lifelines();
             },
-            _ => {
-                panic!("non-conform interaction");
+            &Interaction::And(ref i1, ref i2) => {
+                let mut content = i1.involved_lifelines();
+                content.extend( i2.involved_lifelines() );
+                return content;
             }
         }
     }
@@ -108,8 +110,8 @@ impl InvolvesLifelines for Interaction {
             &Interaction::Loop(_, ref i1) => {
                 return i1.involves_any_of(lf_ids);
             },
-            _ => {
-                panic!("non-conform interaction");
+            &Interaction::And(ref i1, ref i2) => {
+                return i1.involves_any_of(lf_ids) || i2.involves_any_of(lf_ids);
             }
         }
     }
-- 
2.43.0


From 60428dd6284c208bfeed8a24ae60b2ec7e3695ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:27 +0000
Subject: [PATCH 47/55] fix: the generation of random interactions reported the
 wrong probabilities

---
 src/ui/commands/cli_rng_gen_interactions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index f2a3126..7b438d9 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -120,7 +120,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                         InteractionSymbolsProbabilities::conservative()
                     },
                     "protocols_with_coreg" => {
-                        probas_name = "conservative";
+                        probas_name = "protocols_with_coreg";
                         InteractionSymbolsProbabilities::protocols_with_coreg()
                     },
                     "default" => {
-- 
2.43.0


From bc35af511cffe466eed5d6ccca7496a2eda3d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:09 +0000
Subject: [PATCH 48/55] fix: letters formed by the synchronization operator
 were missing from completed alphabets

---
 src/nfa_translation/alphabet.rs | 64 ++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/nfa_translation/alphabet.rs b/src/nfa_translation/alphabet.rs
index 943f9f9..27ff116 100644
--- a/src/nfa_translation/alphabet.rs
+++ b/src/nfa_translation/alphabet.rs
@@ -38,39 +38,55 @@ pub fn get_alphabet_from_gen_ctx(gen_ctx : &GeneralContext) -> Vec<BTreeSet<Trac
 /// same index in every NFA that is built from (a sub-term of) that interaction.
 pub fn complete_alphabet_with_interaction(alphabet : &mut Vec<BTreeSet<TraceAction>>,
                                           interaction : &Interaction) {
-    let letter = match interaction {
-        Interaction::Empty => {
-            return;
-        },
+    for letter in get_letters_of_interaction(interaction) {
+        if !alphabet.contains(&letter) {
+            alphabet.push(letter);
+        }
+    }
+}
+
+fn get_letters_of_interaction(interaction : &Interaction) -> Vec<BTreeSet<TraceAction>> {
+    match interaction {
+        Interaction::Empty => vec![],
         Interaction::Emission(em_act) => {
-            match em_act.synchronicity {
-                CommunicationSynchronicity::Synchronous => em_act.get_all_atomic_actions(),
-                CommunicationSynchronicity::Asynchronous => { return; }
-            }
+            get_letters_of_primitive(em_act.get_all_atomic_actions(),&em_act.synchronicity)
         },
         Interaction::Reception(rc_act) => {
-            match rc_act.synchronicity {
-                CommunicationSynchronicity::Synchronous => rc_act.get_all_atomic_actions(),
-                CommunicationSynchronicity::Asynchronous => { return; }
-            }
-        },
-        Interaction::Loop(_,i1) => {
-            complete_alphabet_with_interaction(alphabet,i1);
-            return;
+            get_letters_of_primitive(rc_act.get_all_atomic_actions(),&rc_act.synchronicity)
         },
+        Interaction::Loop(_,i1) => get_letters_of_interaction(i1),
         Interaction::Strict(i1,i2)
         | Interaction::Seq(i1,i2)
         | Interaction::CoReg(_,i1,i2)
         | Interaction::Alt(i1,i2)
         | Interaction::Par(i1,i2)
-        | Interaction::And(i1,i2)
-        | Interaction::Sync(_,i1,i2) => {
-            complete_alphabet_with_interaction(alphabet,i1);
-            complete_alphabet_with_interaction(alphabet,i2);
-            return;
+        | Interaction::And(i1,i2) => {
+            let mut letters = get_letters_of_interaction(i1);
+            letters.append(&mut get_letters_of_interaction(i2));
+            letters
+        },
+        Interaction::Sync(sync_acts,i1,i2) => {
+            let letters1 = get_letters_of_interaction(i1);
+            let letters2 = get_letters_of_interaction(i2);
+            // letters of both sides that have the same synchronized actions occur as a single one
+            let mut merged = vec![];
+            for letter1 in &letters1 {
+                for letter2 in &letters2 {
+                    let mut on_sync_acts1 = letter1.iter().filter(|a| sync_acts.contains(a)).peekable();
+                    if on_sync_acts1.peek().is_some() && on_sync_acts1.eq(letter2.iter().filter(|a| sync_acts.contains(a))) {
+                        merged.push(letter1.union(letter2).cloned().collect());
+                    }
+                }
+            }
+            [letters1,letters2,merged].concat()
         }
-    };
-    if !alphabet.contains(&letter) {
-        alphabet.push(letter);
+    }
+}
+
+fn get_letters_of_primitive(actions : BTreeSet<TraceAction>,
+                            synchronicity : &CommunicationSynchronicity) -> Vec<BTreeSet<TraceAction>> {
+    match synchronicity {
+        CommunicationSynchronicity::Synchronous => vec![actions],
+        CommunicationSynchronicity::Asynchronous => actions.into_iter().map(|a| btreeset!{a}).collect()
     }
 }
-- 
2.43.0


From ee73a1d7e8a8414be49d961e9a0a964d0dc81b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:09 +0000
Subject: [PATCH 49/55] fix: emissions towards gates could not be exported as
 state machines

---
 src/plantuml/automata_product.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 7a6b0e9..23e8f51 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -20,6 +20,7 @@ use std::io::Write;
 
 use crate::core::general_context::GeneralContext;
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
+use crate::core::language::syntax::action::EmissionTargetRef;
 use crate::core::language::syntax::interaction::Interaction;
 use crate::core::language::syntax::util::get_recursive_frag::*;
 
@@ -56,15 +57,16 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
         },
         &Interaction::Emission(ref em_act) => {
             let ms_name = gen_ctx.get_ms_name(em_act.ms_id).unwrap();
-            match em_act.targets.len() {
-                0 => {
+            let is_message_passing = em_act.targets.iter().any(|target| matches!(target,EmissionTargetRef::Lifeline(_)));
+            match is_message_passing {
+                false => {
                     let transition_label = format!("!{}",ms_name);
                     let new_state_label = format!("lf{}_s{}",lf_id,state_count);
                     let last_state_label = get_last_label(lf_id, last_state);
                     output_file.write( format!("{} --> {} : {}\n",last_state_label,new_state_label,transition_label).as_bytes() );
                     return (state_count,state_count + 1);
                 },
-                _ => {
+                true => {
                     panic!("projection on automata cannot have message passing (check if on itself)");
                 }
             }
-- 
2.43.0


From e6e52f0842b6ff47a5b1a213b4c8ab4212fe36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 50/55] fix: distinct steps between the same nodes are drawn
 apart in the graph of an analysis

---
 src/process/ana/loggers/glog/drawer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/process/ana/loggers/glog/drawer.rs b/src/process/ana/loggers/glog/drawer.rs
index 20e9b0b..fe039ab 100644
--- a/src/process/ana/loggers/glog/drawer.rs
+++ b/src/process/ana/loggers/glog/drawer.rs
@@ -133,12 +133,14 @@ impl GraphVizProcessDrawer<AnalysisConfig> for InteractionProcessDrawer {
                         target_state_id: u32,
                         step: &AnalysisStepKind) -> GraphVizNode {
 
-        let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
         match *step {
             AnalysisStepKind::EliminateNoLongerObserved(ref lfs_to_hide) => {
+                let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
                 self.make_graphic_logger_hiding(&context.gen_ctx,lfs_to_hide,step_name)
             },
             AnalysisStepKind::Execute(ref frt_elt, ref consu_set, ref sim_map) => {
+                // several steps may lead to the same node
+                let step_name = format!("s_{}_{}_{:?}", origin_state_id, target_state_id, frt_elt.position);
                 self.make_graphic_logger_firing(&context.gen_ctx,
                                                 &frt_elt.position,
                                                 &frt_elt.target_actions,
-- 
2.43.0


From e77c308eb8c1fdefa68c3776e2327f003bc90e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 51/55] fix: distinct transformations between the same nodes
 are drawn apart in the graph of a canonization

---
 src/process/canon/loggers/glog/drawer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/process/canon/loggers/glog/drawer.rs b/src/process/canon/loggers/glog/drawer.rs
index 04ff784..9e8374a 100644
--- a/src/process/canon/loggers/glog/drawer.rs
+++ b/src/process/canon/loggers/glog/drawer.rs
@@ -68,6 +68,8 @@ impl GraphVizProcessDrawer<CanonizationConfig> for InteractionProcessDrawer {
                 self.make_graphic_logger_string_label("go to next phase".to_string(),step_name)
             },
             CanonizationStepKind::Transform(ref transfo) => {
+                // several transformations may yield the same interaction
+                let step_name = format!("s_{}_{}_{}_{:?}", origin_state_id, target_state_id, transfo.kind.to_string(), transfo.position);
                 self.make_graphic_logger_transformation(&transfo.kind,&transfo.position,step_name)
             }
         }
-- 
2.43.0


From 2c4b0a3be68987e2ae4ec8a79b2fdbd22d2e9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 52/55] fix: the suffix factorizations on strict and seq had
 each other's name

---
 src/core/transformation/transfokind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/transformation/transfokind.rs b/src/core/transformation/transfokind.rs
index 1d6f4c5..d1a8476 100644
--- a/src/core/transformation/transfokind.rs
+++ b/src/core/transformation/transfokind.rs
@@ -101,10 +101,10 @@ impl InteractionTransformationKind {
                 return transfo_factorize_par;
             },
             InteractionTransformationKind::FactorizeSuffixSeq => {
-                return transfo_factorize_suffix_strict;
+                return transfo_factorize_suffix_seq;
             },
             InteractionTransformationKind::FactorizeSuffixStrict => {
-                return transfo_factorize_suffix_seq;
+                return transfo_factorize_suffix_strict;
             },
             InteractionTransformationKind::DeFactorizeLeft => {
                 return transfo_defactorize_left;
-- 
2.43.0


From 4cf723381b0059f2bc52ad59578549b472b5941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 53/55] fix: steps on sets of lifelines and components are
 drawn in a fixed order

---
 src/io/output/draw_transitions/draw_firing.rs |  4 ++--
 src/io/output/draw_transitions/draw_hiding.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/io/output/draw_transitions/draw_firing.rs b/src/io/output/draw_transitions/draw_firing.rs
index 68a5b32..a2ab1d1 100644
--- a/src/io/output/draw_transitions/draw_firing.rs
+++ b/src/io/output/draw_transitions/draw_firing.rs
@@ -59,12 +59,12 @@ pub fn draw_firing_analysis(path : &Path,
     // ***
     if consu_set.len() > 0 || sim_map.len() > 0 {
         let mut ttp: Vec<TextToPrint> = Vec::new();
-        for coloc_id in consu_set {
+        for coloc_id in consu_set.iter().sorted() {
             ttp.push( TextToPrint::new("C".to_string(),Rgb(HC_Grammar_Symbol)) );
             write_lfs_texts(gen_ctx,co_localizations,coloc_id,Rgb(HC_Grammar_Symbol),&mut ttp);
             ttp.push( TextToPrint::new(" ".to_string(),Rgb(HCP_Black)) );
         }
-        for (coloc_id,sim_kind) in sim_map {
+        for (coloc_id,sim_kind) in sim_map.iter().sorted_by_key(|(coloc_id,_)| **coloc_id) {
             ttp.push( TextToPrint::new("S".to_string(),Rgb(HCP_LightGray)) );
             write_lfs_texts(gen_ctx,co_localizations,coloc_id,Rgb(HCP_LightGray),&mut ttp);
             match sim_kind {
diff --git a/src/io/output/draw_transitions/draw_hiding.rs b/src/io/output/draw_transitions/draw_hiding.rs
index b3d28f6..96899a5 100644
--- a/src/io/output/draw_transitions/draw_hiding.rs
+++ b/src/io/output/draw_transitions/draw_hiding.rs
@@ -20,6 +20,7 @@ use std::path::Path;
 use image::Rgb;
 use image_colored_text::draw::multi_line::MultiLineTextAlignment;
 use image_colored_text::ttp::TextToPrint;
+use itertools::Itertools;
 
 use crate::core::general_context::GeneralContext;
 use crate::io::output::draw_commons::hibou_color_palette::*;
@@ -40,15 +41,15 @@ pub fn draw_hiding(path : &Path,
         ttp.push( TextToPrint::new("eliminate lifelines [".to_string(),Rgb(HCP_Black)) );
         // ***
         {
-            let names_of_lfs : Vec<TextToPrint> = lfs_to_hide.iter()
+            let names_of_lfs : Vec<TextToPrint> = lfs_to_hide.iter().sorted()
                 .map(|lf_id|
                     TextToPrint::new(gen_ctx.get_lf_name(*lf_id).unwrap(),Rgb(HC_Lifeline))
                 ).collect();
 
-            let mut to_add = names_of_lfs.into_iter()
-                .fold(vec![],
-                      |prev,lf|
-                          [prev, vec![TextToPrint::new(",".to_string(),Rgb(HCP_Black)), lf]].concat());
+            let mut to_add : Vec<TextToPrint> = Itertools::intersperse(
+                names_of_lfs.into_iter(),
+                TextToPrint::new(",".to_string(),Rgb(HCP_Black))
+            ).collect();
 
             ttp.append( &mut to_add);
         }
-- 
2.43.0


From 38266a6cfd36e38a197b35cbb6a9f786fe5055eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 54/55] fix: positions in both branches give step names that
 graphviz can read

---
 src/core/language/position/position.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/language/position/position.rs b/src/core/language/position/position.rs
index 04f0b6a..f76cf8d 100644
--- a/src/core/language/position/position.rs
+++ b/src/core/language/position/position.rs
@@ -41,13 +41,13 @@ impl Debug for Position {
                 }
             },
             Position::Left(ref in_self) => {
-                write!(f,"1{:}",in_self)
+                write!(f,"1{:?}",in_self)
             },
             Position::Right(ref in_self) => {
-                write!(f,"2{:}",in_self)
+                write!(f,"2{:?}",in_self)
             },
             Position::Both(ref sub1, ref sub2) => {
-                write!(f,"H1{:}_2{:}H",sub1,sub2)
+                write!(f,"H1{:?}_2{:?}H",sub1,sub2)
             }
         }
     }
-- 
2.43.0


From 0429f064a8723e65a274743816856d5d82925031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:00 +0000
Subject: [PATCH 55/55] fix: name the lifelines of the co-localizations
 eliminated, in drawings of an analysis

---
 src/process/ana/loggers/glog/drawer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/loggers/glog/drawer.rs b/src/process/ana/loggers/glog/drawer.rs
index fe039ab..1b08129 100644
--- a/src/process/ana/loggers/glog/drawer.rs
+++ b/src/process/ana/loggers/glog/drawer.rs
@@ -134,9 +134,10 @@ impl GraphVizProcessDrawer<AnalysisConfig> for InteractionProcessDrawer {
                         step: &AnalysisStepKind) -> GraphVizNode {
 
         match *step {
-            AnalysisStepKind::EliminateNoLongerObserved(ref lfs_to_hide) => {
+            AnalysisStepKind::EliminateNoLongerObserved(ref coloc_ids_to_hide) => {
                 let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
-                self.make_graphic_logger_hiding(&context.gen_ctx,lfs_to_hide,step_name)
+                let lfs_to_hide = context.co_localizations.get_lf_ids_from_coloc_ids(coloc_ids_to_hide).into_iter().collect();
+                self.make_graphic_logger_hiding(&context.gen_ctx,&lfs_to_hide,step_name)
             },
             AnalysisStepKind::Execute(ref frt_elt, ref consu_set, ref sim_map) => {
                 // several steps may lead to the same node
-- 
2.43.0

