From ba925ab3a42e30378e4ac0b00de7e26862495226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 01/24] fix: do not take an unfilled heuristic solution as
 improvement because of rounding

best.cost - fixed_cost + fixed_cost can be smaller than best.cost in floating point, in which case
the (still empty) heuristic solution replaced the incumbent with an infeasible one.
---
 src/algorithms/ThreePhase.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..9dcc878 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,9 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            // NOTE: sol is filled only if its cost is below the cutoff, and `cutoff + fixed_cost` might
+            // be smaller than the best cost due to rounding.
+            if (sol.cost < cutoff && sol.cost + fixing.fixed_cost < best_sol.cost) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
-- 
2.43.0


From 50b56a110137e48d798c2441db55408d58533cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 02/24] fix: never accept a discarded greedy solution in the
 heuristic phase

When epsilon is zero, or is absorbed by large costs, a greedy solution discarded because of the
cutoff compared equal to the best one and replaced it, although its cost and columns do not match.
---
 src/subgradient/Subgradient.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..0f532f4 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,8 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            // NOTE: a greedy solution which does not beat the cutoff is not a valid one
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= best_sol.cost - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From 3606e56405ad774d7652d1e15fc2299973ef78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 03/24] fix: reset the fixing data when a refinement round
 fixes no column

The instance is reset to the original one at each round, but the maps and the fixed cost of the
previous round were kept when no column was selected for fixing.
---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..20ce9c6 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -128,10 +128,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From 1210fd52042b752465beb13921591b0f79ba1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 04/24] fix: drop the columns removed heuristically when no
 redundant column is left

When the heuristic removal emptied the redundancy set the greedy returned the cost of the pruned
solution but left the removed columns in it.
---
 src/greedy/Greedy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index 0143a82..db0a281 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -120,10 +120,11 @@ private:
     }
 
     static bool _try_early_exit(RedundancyData& redund_info, std::vector<cidx_t>& sol) {
-        if (redund_info.partial_cost >= redund_info.best_cost || redund_info.redund_set.empty())
+        if (redund_info.partial_cost >= redund_info.best_cost)
             return true;  // Partial solution already worse than best cost
 
-        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover))
+        if (!redund_info.redund_set.empty() &&
+            redund_info.partial_cov_count < rsize(redund_info.partial_cover))
             return false;  // Partial cover not completed yet, continue
 
         // Otherwise complete the solution removing redundant columns
-- 
2.43.0


From 3d241bb752d862d97cc7357a949014180e422a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 05/24] fix: do not return the last line again after the end of
 a file

---
 src/utils/parse_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..2f124df 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -131,7 +131,8 @@ struct FileLineIterator {
     }
 
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            line.clear();  // getline leaves the previous line untouched after the end of the file
         return trim(StringView(line));
     }
 };
-- 
2.43.0


From b89d8c6e67fd29dd317b120be992079ef4804657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 06/24] fix: report solution files that could not be completely
 written

---
 src/core/parsing.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..c9c5f47 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -256,6 +256,8 @@ inline void write_solution(std::string const& path, Solution const& sol) {
     for (cidx_t j : sol.idxs)
         fmt::print(file, " {}", j);
     file.close();
+    if (!file)
+        throw std::runtime_error("Failed to write solution file: " + path);
 }
 
 inline FileData parse_inst_and_initsol(Environment const& env) {
-- 
2.43.0


From 9b90814d8259f78a90917adf14356acd9efb9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 07/24] fix: read MPS column lines whose first value starts
 with '+' or '.'

---
 src/core/parsing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index c9c5f47..11585f9 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -205,7 +205,8 @@ inline Instance parse_mps_instance(std::string const& path) {
     while (line_view != "RHS") {
         auto tokens = split(line_view);
         // Best effort to detect columns header line
-        if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
+        if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-' &&
+                                  tokens[2][0] != '+' && tokens[2][0] != '.')) {
             line_view = file_iter.next();
             continue;
         }
-- 
2.43.0


From 96db2ee6d96689d1b11df189ef86bab86d6750cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 08/24] fix: MPS columns without an objective entry have cost
 zero

---
 src/core/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 11585f9..7ddbef0 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -214,7 +214,7 @@ inline Instance parse_mps_instance(std::string const& path) {
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(csize(inst.cols.idxs));
-            inst.costs.push_back(limits<real_t>::max());
+            inst.costs.push_back(0.0_F);  // entries not listed are zero, objective included
         }
 
         for (size_t t = 1; t < tokens.size(); t += 2) {
-- 
2.43.0


From 2a3a27745841a4f69d693744b13fd739ccfc2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 09/24] fix: reject truncated and inconsistent MPS files
 instead of hanging or reading out of bounds

---
 src/core/parsing.hpp | 45 +++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 7ddbef0..d4952e6 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -41,14 +41,25 @@ namespace local { namespace {
         return num;
     }
 
+    // Next line of a section that must still be closed: the end of the file is an error
+    inline StringView next_section_line(FileLineIterator& file_iter) {
+        auto line_view = file_iter.next();
+        if (!file_iter.in)
+            throw std::invalid_argument("Invalid file format: unexpected end of MPS file.");
+        return line_view;
+    }
+
 #ifndef NDEBUG
     inline void mps_epilogue_check(FileLineIterator&                              file_iter,
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
         // Check RHSs
         auto line_view = file_iter.next();
-        while (line_view != "BOUNDS") {
-            line_view   = trim(line_view);
+        while (file_iter.in && line_view != "BOUNDS" && line_view != "ENDATA") {
             auto tokens = split(line_view);
+            if (tokens.empty()) {
+                line_view = file_iter.next();
+                continue;
+            }
             assert(tokens[0] == "rhs" || tokens[0] == "RHS");
 
             for (size_t t = 1; t < tokens.size(); t += 2) {
@@ -192,24 +203,31 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
         auto tokens = split(line_view);
-        if (!tokens.empty() && tokens[0] == "N")
-            obj_name = tokens[1].to_cpp_string();
-        if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
-            rows_map[tokens[1].to_cpp_string()] = nrows++;
-        line_view = file_iter.next();
+        if (!tokens.empty() &&
+            (tokens[0] == "N" || tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L")) {
+            if (tokens.size() < 2 || nrows == limits<ridx_t>::max())
+                throw std::invalid_argument("Invalid file format: not a MPS instance?");
+            if (tokens[0] == "N")
+                obj_name = tokens[1].to_cpp_string();
+            else
+                rows_map[tokens[1].to_cpp_string()] = nrows++;
+        }
+        line_view = local::next_section_line(file_iter);
     }
 
     auto prev_col_name = std::string();
-    line_view          = file_iter.next();
+    line_view          = local::next_section_line(file_iter);
     inst.cols.begs.clear();
     while (line_view != "RHS") {
         auto tokens = split(line_view);
         // Best effort to detect columns header line
         if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-' &&
                                   tokens[2][0] != '+' && tokens[2][0] != '.')) {
-            line_view = file_iter.next();
+            line_view = local::next_section_line(file_iter);
             continue;
         }
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: MPS column entry without value.");
 
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
@@ -221,14 +239,15 @@ inline Instance parse_mps_instance(std::string const& path) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row = rows_map.find(tokens[t].to_cpp_string());
+                if (row == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown MPS row.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row->second);
             }
         }
 
-        line_view = file_iter.next();
+        line_view = local::next_section_line(file_iter);
     }
     inst.cols.begs.push_back(csize(inst.cols.idxs));
 
-- 
2.43.0


From 182ac8f45beeb854cea0c9d1f8a8b8e9b2bc1c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 10/24] fix: reject out of range indexes in RAIL and CVRP files

---
 src/core/parsing.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index d4952e6..4f2a260 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -136,9 +136,10 @@ inline Instance parse_rail_instance(std::string const& path) {
             throw std::invalid_argument("Invalid file format: not a RAIL instance?");
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
-            inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            ridx_t ridx = string_to<ridx_t>::parse(tokens[n]);
+            if (ridx <= 0_R || num.rows < ridx)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
+            inst.cols.idxs.push_back(ridx - 1_R);
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
     }
@@ -168,7 +169,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
@@ -177,6 +178,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
     line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (j < 0_C || num.cols <= j)
+            throw std::invalid_argument("Invalid column index in the CVRP initial solution.");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
-- 
2.43.0


From 64c8e0181341ed678368425092de1ebef2f3ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:40 +0000
Subject: [PATCH 11/24] fix: reject instance files without a solution or with
 repeated rows in a column

---
 src/core/parsing.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 4f2a260..b181fc4 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -38,9 +38,28 @@ namespace local { namespace {
         num.cols       = string_to<cidx_t>::consume(line_view);
         if (!line_view.empty())
             throw std::invalid_argument("Invalid file format: too many values in the first line.");
+        if (num.rows <= 0_R || num.cols <= 0_C)
+            throw std::invalid_argument("Invalid file format: no rows or no columns.");
         return num;
     }
 
+    // Completes a parsed instance, making sure that it is well formed and that it has a solution
+    inline void complete_parsed_inst(ridx_t    nrows,  // in
+                                     Instance& inst    // inout
+    ) {
+        fill_rows_from_cols(inst.cols, nrows, inst.rows);
+        if (inst.rows.empty())
+            throw std::invalid_argument("Invalid instance: no rows.");
+        for (auto const& row : inst.rows) {
+            if (row.empty())
+                throw std::invalid_argument("Invalid instance: a row is not covered by any column.");
+            // Columns are listed in order, so the repetitions are next to each other
+            for (size_t n = 1; n < row.size(); ++n)
+                if (row[n - 1] == row[n])
+                    throw std::invalid_argument("Invalid instance: row repeated in a column.");
+        }
+    }
+
     // Next line of a section that must still be closed: the end of the file is an error
     inline StringView next_section_line(FileLineIterator& file_iter) {
         auto line_view = file_iter.next();
@@ -117,7 +136,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto& col : cols)
         inst.cols.push_back(col);
 
-    fill_rows_from_cols(inst.cols, num.rows, inst.rows);
+    local::complete_parsed_inst(num.rows, inst);
     return inst;
 }
 
@@ -144,7 +163,7 @@ inline Instance parse_rail_instance(std::string const& path) {
         inst.cols.begs.push_back(csize(inst.cols.idxs));
     }
 
-    fill_rows_from_cols(inst.cols, num.rows, inst.rows);
+    local::complete_parsed_inst(num.rows, inst);
     return inst;
 }
 
@@ -184,7 +203,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
 
-    fill_rows_from_cols(fdata.inst.cols, num.rows, fdata.inst.rows);
+    local::complete_parsed_inst(num.rows, fdata.inst);
     return fdata;
 }
 
@@ -255,7 +274,7 @@ inline Instance parse_mps_instance(std::string const& path) {
     inst.cols.begs.push_back(csize(inst.cols.idxs));
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
-    fill_rows_from_cols(inst.cols, nrows, inst.rows);
+    local::complete_parsed_inst(nrows, inst);
     return inst;
 }
 
-- 
2.43.0


From 8d9574bd18e1018ef98cc1e198a0348891e57a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 12/24] fix: reject invalid starting solutions

---
 src/core/parsing.hpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index b181fc4..8a5122f 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -19,9 +19,7 @@
 #include "utils/parse_utils.hpp"
 #include "utils/print.hpp"
 
-#ifndef NDEBUG
-#include "core/utils.hpp"
-#endif
+#include "utils/utility.hpp"
 
 namespace cft {
 
@@ -302,6 +300,28 @@ inline void write_solution(std::string const& path, Solution const& sol) {
         throw std::runtime_error("Failed to write solution file: " + path);
 }
 
+namespace local { namespace {
+    // An invalid starting solution could end up, unchanged, being the final one
+    inline void check_initsol(Instance const& inst, Solution const& sol, bool check_cost) {
+        auto   used    = std::vector<bool>(inst.costs.size(), false);
+        auto   covered = std::vector<bool>(inst.rows.size(), false);
+        real_t cost    = 0.0_F;
+        for (cidx_t j : sol.idxs) {
+            if (j < 0_C || csize(inst.cols) <= j || used[j])
+                throw std::invalid_argument("Invalid initial solution: invalid column index.");
+            used[j] = true;
+            cost += inst.costs[j];
+            for (ridx_t i : inst.cols[j])
+                covered[i] = true;
+        }
+        if (!all(covered, IdentityFtor{}))
+            throw std::invalid_argument("Invalid initial solution: not all rows are covered.");
+        if (check_cost && !(abs(cost - sol.cost) <= 1e-3_F * max(1.0_F, abs(cost))))
+            throw std::invalid_argument("Invalid initial solution: wrong cost.");
+    }
+}  // namespace
+}  // namespace local
+
 inline FileData parse_inst_and_initsol(Environment const& env) {
     auto fdata = FileData();
 
@@ -328,8 +348,9 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
 
     if (!env.initsol_path.empty()) {
         fdata.init_sol = parse_solution(env.initsol_path);
-        CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
-    }
+        local::check_initsol(fdata.inst, fdata.init_sol, !env.use_unit_costs);
+    } else if (!fdata.init_sol.idxs.empty())
+        local::check_initsol(fdata.inst, fdata.init_sol, !env.use_unit_costs);
 
     if (env.use_unit_costs) {
         fdata.inst.costs.assign(csize(fdata.inst.costs), 1.0_F);
-- 
2.43.0


From 0b00718e4edc2acec7561eaacbce3558d03ccfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:43 +0000
Subject: [PATCH 13/24] fix: string_to detects out of range integers below the
 minimum

---
 src/utils/parse_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 2f124df..948e9ea 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -94,10 +94,10 @@ struct string_to {
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE;
         } else {  // unsigned
             val      = std::strtoull(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE || (val != 0 && ltrim(str)[0] == '-');  // no wrap-around
         }
 
         if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)
-- 
2.43.0


From 1eeda1e2d020d510e3428eaa8d185c1cb6e4310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 14/24] fix: compare text views as unsigned characters, like
 strings

---
 src/utils/StringView.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/StringView.hpp b/src/utils/StringView.hpp
index 8158d67..54f3c15 100644
--- a/src/utils/StringView.hpp
+++ b/src/utils/StringView.hpp
@@ -133,9 +133,11 @@ struct StringView {
     int compare(StringView other) const {
         size_t min_size = cft::min(size(), other.size());
         for (size_t n = 0; n < min_size; ++n) {
-            if ((*this)[n] < other[n])
+            auto lhs_char = static_cast<unsigned char>((*this)[n]);  // as std::string does
+            auto rhs_char = static_cast<unsigned char>(other[n]);
+            if (lhs_char < rhs_char)
                 return -1;
-            if ((*this)[n] > other[n])
+            if (lhs_char > rhs_char)
                 return 1;
         }
         return size() < other.size() ? -1 : (size() > other.size() ? 1 : 0);
-- 
2.43.0


From ebc380bc68b35569475dea050ca175565e02c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 15/24] fix: a coin with success probability zero never
 succeeds

---
 src/utils/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index dde8aaf..609cba2 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -99,7 +99,7 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
 template <typename RndT>
 inline bool coin_flip(RndT& rnd, double true_prob = 0.5) {
     assert(0 <= true_prob && true_prob <= 1);
-    return canonical_gen<double>(rnd) <= true_prob;
+    return canonical_gen<double>(rnd) < true_prob;
 }
 
 }  // namespace cft
-- 
2.43.0


From c478a8e865c271e9e29c916f67560de1ae954f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 16/24] fix: Python: expose the dual multipliers under the name
 the solver reads

---
 src/pycft/_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index eb92987..2db994d 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -155,7 +155,7 @@ PYBIND11_MODULE(_bindings, m) {
 
     py::class_<DualState>(m, "DualState")
         .def(py::init<>())
-        .def_readwrite("idxs", &DualState::mults)
+        .def_readwrite("mults", &DualState::mults)
         .def_readwrite("cost", &DualState::lb)
         .def("copy", [](DualState const& a) { return a; })
         .def("__repr__", [](DualState const& a) {
-- 
2.43.0


From 23999ec7b1dafdc0f5dabd12cceef394e9b6fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 17/24] fix: Python: setting the seed seeds the generator

---
 src/pycft/_bindings.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 2db994d..bf1376e 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -66,7 +66,13 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("sol_path", &Environment::sol_path)
         .def_readwrite("initsol_path", &Environment::initsol_path)
         .def_readwrite("parser", &Environment::parser)
-        .def_readwrite("seed", &Environment::seed)
+        .def_property(
+            "seed",
+            [](Environment const& self) { return self.seed; },
+            [](Environment& self, uint64_t seed) {
+                self.seed = seed;
+                self.rnd  = prng_t(seed);
+            })
         .def_readwrite("time_limit", &Environment::time_limit)
         .def_readwrite("verbose", &Environment::verbose)
         .def_readwrite("epsilon", &Environment::epsilon)
-- 
2.43.0


From 09fcc07fb6bb37daf0436504f5744efb8151acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 18/24] fix: Python: load an instance from a file

---
 src/pycft/set_cover_solver.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d47876e..d4c0539 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -51,6 +51,7 @@ class SetCoverSolver:
         self._instance = Instance()
         self._initialized = False
         self._max_element = -1
+        self._init_sol = Solution()  # starting solution given by a file, if any
 
     def add_set(self, elements: list[int], cost: float) -> int:
         """
@@ -63,10 +64,9 @@ class SetCoverSolver:
         max_element = max(elements)
         if max_element > self._max_element:
             self._max_element = max_element
-            self._result = (
-                None  # in case there is a new element, the solution is no longer
-            )
-            # valid
+            # in case there is a new element, the solution is no longer valid
+            self._result = None
+            self._init_sol = Solution()
         self._instance.add(elements, cost)
         self._initialized = False
         return len(self._instance.costs) - 1
@@ -82,9 +82,9 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
-        self._result.solution = fdata.init_sol.copy()
-        print(self._result)
-        self.num_elements = len(self._instance.costs)
+        self._init_sol = fdata.init_sol.copy()
+        self._result = None  # nothing has been solved for this instance yet
+        self._max_element = len(self._instance.rows) - 1
         self._initialized = True  # a file is always considered initialized
 
     def solve(
@@ -133,7 +133,7 @@ class SetCoverSolver:
             self._instance.rows.clear()
             self._instance.prepare()
             self._initialized = True
-        init_sol = Solution() if self._result is None else self._result.sol
+        init_sol = self._init_sol if self._result is None else self._result.sol
         self._result = run(env, self._instance, init_sol).copy()
 
     def get_solution(self) -> list[int] | None:
-- 
2.43.0


From 702ab82f3d07a81984bb2625f9f1edce9d487d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 19/24] fix: Python: reject invalid sets before changing
 anything

---
 src/pycft/_bindings.cpp       | 10 ++++++++--
 src/pycft/set_cover_solver.py |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index bf1376e..06c71b8 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -6,12 +6,14 @@
 #include <pybind11/pybind11.h>   // Basic pybind11 functionality
 #include <pybind11/stl.h>        // Automatic conversion of vectors
 
+#include <cmath>
 #include <stdexcept>
 
 #include "../algorithms/Refinement.hpp"
 #include "../core/Instance.hpp"
 #include "../core/cft.hpp"
 #include "../core/parsing.hpp"
+#include "../utils/limits.hpp"
 
 namespace local { namespace {
     void check_and_fill_instance(cft::Instance& instance) {
@@ -127,9 +129,13 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
+                 if (!(cost >= 0.0) || !std::isfinite(cost))
+                     throw std::runtime_error("Costs must be non-negative and finite.");
+                 for (ridx_t i : col)
+                     if (i < 0 || i == limits<ridx_t>::max())
+                         throw std::runtime_error(
+                             fmt::format("Item index out of range: {}.", i));
                  self.cols.push_back(col);
-                 if (cost < 0.0)
-                     throw std::runtime_error("Costs must be non-negative.");
                  self.costs.push_back(cost);
                  return self.costs.size() - 1;
              })
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d4c0539..6c481c5 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -57,17 +57,17 @@ class SetCoverSolver:
         """
         Add a set. Returns the index of the set which is also used in the solution.
         """
-        if cost < 0:
-            raise ValueError("Costs must be non-negative")
+        if not 0 <= cost < float("inf"):
+            raise ValueError("Costs must be non-negative and finite")
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
+        self._instance.add(elements, cost)  # raises if it cannot take the set
         if max_element > self._max_element:
             self._max_element = max_element
             # in case there is a new element, the solution is no longer valid
             self._result = None
             self._init_sol = Solution()
-        self._instance.add(elements, cost)
         self._initialized = False
         return len(self._instance.costs) - 1
 
-- 
2.43.0


From 4b9f93adce27630e36c96338e4a804489170b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 20/24] fix: Python: report an error when solving without any
 set

---
 src/pycft/_bindings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 06c71b8..5006aec 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -27,6 +27,9 @@ namespace local { namespace {
             for (ridx_t i : cols[j])
                 n = std::max(n, static_cast<size_t>(i + 1));
 
+        if (n == 0)
+            throw std::runtime_error("There is nothing to cover: no set has been added.");
+
         // Guard against the user entering huge indices because they
         // might have misunderstood the 0-based indexing.
         if (n > cols.idxs.size()) {
-- 
2.43.0


From 770a64b14bb2e84981e8b0fc7dc829e7b696692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 21/24] fix: Python: count an element listed twice in a set
 once

---
 src/pycft/set_cover_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 6c481c5..bcb5176 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -57,6 +57,7 @@ class SetCoverSolver:
         """
         Add a set. Returns the index of the set which is also used in the solution.
         """
+        elements = list(dict.fromkeys(elements))  # each element counts once
         if not 0 <= cost < float("inf"):
             raise ValueError("Costs must be non-negative and finite")
         if not all(0 <= e for e in elements):
-- 
2.43.0


From 806bc38ba4d25fc1eeef51d4215005772e36f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:50 +0000
Subject: [PATCH 22/24] fix: minimum and maximum of several values check every
 conversion

---
 src/utils/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/utility.hpp b/src/utils/utility.hpp
index 9e742d4..1aabfcc 100644
--- a/src/utils/utility.hpp
+++ b/src/utils/utility.hpp
@@ -83,7 +83,7 @@ constexpr T1 max(T1 v1, T2 v2) {
 
 template <typename T1, typename T2, typename... Ts>
 T1 max(T1 v1, T2 v2, Ts... tail) {
-    T1 mtail = max<T1>(v2, tail...);
+    T1 mtail = max<T1>(checked_cast<T1>(v2), tail...);
     return (v1 >= mtail ? v1 : mtail);
 }
 
@@ -95,7 +95,7 @@ constexpr T1 min(T1 v1, T2 v2) {
 
 template <typename T1, typename T2, typename... Ts>
 T1 min(T1 v1, T2 v2, Ts... tail) {
-    T1 mtail = min<T1>(v2, tail...);
+    T1 mtail = min<T1>(checked_cast<T1>(v2), tail...);
     return v1 <= mtail ? v1 : mtail;
 }
 
-- 
2.43.0


From c73453cb8fabbf38c220a3b09ceb087cc2b6468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 23/24] fix: do not count entries and rows with the column
 index type

---
 src/algorithms/ThreePhase.hpp |  2 +-
 src/core/Instance.hpp         |  2 +-
 src/core/parsing.hpp          | 10 +++++-----
 src/fixing/ColFixing.hpp      |  3 ++-
 src/greedy/Greedy.hpp         |  4 ++--
 src/subgradient/Pricer.hpp    |  6 +++---
 6 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 9dcc878..8e349ca 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -162,7 +162,7 @@ private:
         core_inst.col_map.clear();
 
         // Select the first n columns of each row (there might be duplicates)
-        core_inst.col_map.reserve(checked_cast<size_t>(as_cidx(nrows) * min_row_coverage));
+        core_inst.col_map.reserve(inst.rows.size() * checked_cast<size_t>(min_row_coverage));
         for (auto const& row : inst.rows)
             for (size_t n = 0; n < min(row.size(), min_row_coverage); ++n) {
                 cidx_t j = row[n];  // column covering row i
diff --git a/src/core/Instance.hpp b/src/core/Instance.hpp
index 07eee2c..2c3cc21 100644
--- a/src/core/Instance.hpp
+++ b/src/core/Instance.hpp
@@ -64,7 +64,7 @@ inline void fill_rows_from_cols(SparseBinMat<ridx_t> const&       cols,   // in
     rows.resize(nrows);
     for (auto& row : rows) {
         row.clear();
-        row.reserve(csize(cols.idxs) / as_cidx(nrows));
+        row.reserve(cols.idxs.size() / checked_cast<size_t>(nrows));
     }
 
     for (cidx_t j = 0_C; j < csize(cols); ++j)
diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 8a5122f..cfdc15f 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -127,7 +127,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto const& col : cols) {
         for (ridx_t i : col)
             inst.cols.idxs.push_back(i);
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     inst.cols = SparseBinMat<ridx_t>();
@@ -158,7 +158,7 @@ inline Instance parse_rail_instance(std::string const& path) {
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
             inst.cols.idxs.push_back(ridx - 1_R);
         }
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     local::complete_parsed_inst(num.rows, inst);
@@ -189,7 +189,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
             if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
-        fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
+        fdata.inst.cols.begs.push_back(fdata.inst.cols.idxs.size());
     }
 
     line_view = file_iter.next();
@@ -251,7 +251,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
-            inst.cols.begs.push_back(csize(inst.cols.idxs));
+            inst.cols.begs.push_back(inst.cols.idxs.size());
             inst.costs.push_back(0.0_F);  // entries not listed are zero, objective included
         }
 
@@ -269,7 +269,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         line_view = local::next_section_line(file_iter);
     }
-    inst.cols.begs.push_back(csize(inst.cols.idxs));
+    inst.cols.begs.push_back(inst.cols.idxs.size());
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
     local::complete_parsed_inst(nrows, inst);
diff --git a/src/fixing/ColFixing.hpp b/src/fixing/ColFixing.hpp
index 3cbb99b..38bdc9b 100644
--- a/src/fixing/ColFixing.hpp
+++ b/src/fixing/ColFixing.hpp
@@ -43,7 +43,8 @@ public:
         _select_non_overlapping_cols(inst, lagr_mult, row_coverage, cols_to_fix, reduced_costs);
         cidx_t no_overlap_ncols = csize(cols_to_fix);
 
-        cidx_t fix_at_least = csize(cols_to_fix) + max(1_C, as_cidx(orig_nrows / 200_R));
+        size_t min_new_cols = max(size_t{1}, checked_cast<size_t>(orig_nrows) / 200ULL);
+        cidx_t fix_at_least = as_cidx(min(inst.cols.size(), cols_to_fix.size() + min_new_cols));
         greedy(inst, lagr_mult, reduced_costs, cols_to_fix, limits<real_t>::max(), fix_at_least);
 
         fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index db0a281..ff6e8ad 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -66,8 +66,8 @@ public:
 
             // Get the column-fraction with best scores
             if (good_scores.empty()) {
-                auto good_size   = min(as_cidx(nrows_to_cover), csize(inst.cols) - csize(sol));
-                good_scores      = select_good_scores(score_info, good_size);
+                auto good_size   = min(inst.cols.size() - sol.size(), nrows_to_cover);
+                good_scores      = select_good_scores(score_info, as_cidx(good_size));
                 worst_good_score = good_scores.back().score;
             }
 
diff --git a/src/subgradient/Pricer.hpp b/src/subgradient/Pricer.hpp
index 0ac4d11..f75de39 100644
--- a/src/subgradient/Pricer.hpp
+++ b/src/subgradient/Pricer.hpp
@@ -75,9 +75,9 @@ private:
             if (reduced_costs[j] < 0.1_F)
                 idxs.push_back(j);
 
-        cidx_t const maxsize = as_cidx(5_R * rsize(inst.rows));
-        if (csize(idxs) > maxsize) {
-            cft::nth_element(idxs, maxsize - 1_C, [&](cidx_t i) { return reduced_costs[i]; });
+        size_t const maxsize = 5ULL * inst.rows.size();
+        if (idxs.size() > maxsize) {
+            cft::nth_element(idxs, maxsize - 1ULL, [&](cidx_t i) { return reduced_costs[i]; });
             idxs.resize(maxsize);
         }
 
-- 
2.43.0


From 635a42dc24f8e42d18f4140ca98690f12e95a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:27 +0000
Subject: [PATCH 24/24] fix: report errors while reading a file instead of
 treating them as its end

---
 src/utils/parse_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 948e9ea..06f9ff2 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -131,8 +131,11 @@ struct FileLineIterator {
     }
 
     StringView next() {
-        if (!std::getline(in, line))
+        if (!std::getline(in, line)) {
+            if (in.bad())
+                throw std::runtime_error("Error while reading file.");
             line.clear();  // getline leaves the previous line untouched after the end of the file
+        }
         return trim(StringView(line));
     }
 };
-- 
2.43.0

