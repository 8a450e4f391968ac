From 20ff7e8048bde2711e5f97b9e743b427344d115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 01/25] fix: release the generic system's matrices when it is
 destroyed

---
 src/generic_rigid_body_system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..994e824 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,24 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.J_T.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From 5746abb9d1ac7a29758f4571ae389027cd076eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 02/25] fix: publish each body's own reaction in the generic
 system

---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 994e824..777d9d2 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -97,9 +97,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From 573aef59b88d303b51013be8363a083881fb38e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 03/25] fix: report the mean of all reactions over the
 Runge-Kutta stages

---
 src/rk4_ode_solver.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..bf63d80 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,10 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    for (int i = 0; i < initial->n_c * 2; ++i) {
+        m_accumulator.r_x[i] = m_accumulator.r_y[i] = m_accumulator.r_t[i] = 0.0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +92,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < system->n_c * 2; ++i) {
+        m_accumulator.r_x[i] += (1 / 6.0) * system->r_x[i] * stageWeight;
+        m_accumulator.r_y[i] += (1 / 6.0) * system->r_y[i] * stageWeight;
+        m_accumulator.r_t[i] += (1 / 6.0) * system->r_t[i] * stageWeight;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +108,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < system->n_c * 2; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From 16040a5b7d0b9da64f18f073a383caa48fbe448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 04/25] fix: advance Runge-Kutta stage positions with the
 previous stage's velocities

---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index bf63d80..1759f52 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -30,36 +30,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From 9378a3281debb2f0bedd8a73e27c5a88eb69650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 05/25] fix: return an empty result for an empty system from
 Gaussian elimination

---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..daa9ac4 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
-- 
2.43.0


From a2c4a613ee52a379be4bc0b624de6f48b7bbcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 06/25] fix: start the unlimited Gauss-Seidel solver from a
 defined guess and stop it on convergence only

---
 src/gauss_seidel_sle_solver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..3240fbf 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -25,8 +25,10 @@ bool atg_scs::GaussSeidelSleSolver::solve(
         Matrix *result)
 {
     const int n = right.getHeight();
-    
-    result->resize(1, n);
+
+    if (result->getHeight() != n) {
+        result->initialize(1, n);
+    }
 
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
@@ -108,8 +110,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 1ed76189e1a4ff991ac60c1712e659cc989c26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 07/25] fix: let a destroyed sparse matrix allocate again

---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..01dda4b 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -69,6 +69,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From 4d39fce8edce716079d565324785328821a1812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 08/25] fix: address more than 255 bodies in a sparse matrix

---
 include/sparse_matrix.h | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 01dda4b..8430908 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -30,7 +30,7 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
@@ -44,7 +44,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new int[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -77,8 +77,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -93,8 +93,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == -1) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -104,7 +104,7 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, int index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
                 assert(index < m_width);
@@ -132,7 +132,7 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = -1;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -147,11 +147,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const int block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == -1) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -180,8 +180,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + k];
+                        if (block == -1) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -204,8 +204,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const int block = m_blockData[i * T_Entries + k];
+                            if (block == -1) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -225,8 +225,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -249,8 +249,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == -1) continue;
 
                         target->setBlock(i, j, index);
 
@@ -271,7 +271,7 @@ namespace atg_scs {
         protected:
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            int *m_blockData;
 
             int m_width;
             int m_height;
-- 
2.43.0


From a51b2473efa0fceb2eac110880ab0fc8ea5acda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 09/25] fix: initialize the entries of a sparse matrix that no
 block is placed in

---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 8430908..7330f2a 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -31,6 +31,7 @@ namespace atg_scs {
             void initialize(int width, int height) {
                 resize(width, height);
                 memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);
+                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
-- 
2.43.0


From fff78285a6e056dff56d07f68eeb0704b22e7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 10/25] fix: apply no load to a body outside the system

---
 src/constant_speed_motor.cpp   | 18 +++++++++++++-----
 src/spring.cpp                 | 34 +++++++++++++++++++---------------
 src/static_force_generator.cpp |  2 ++
 3 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/constant_speed_motor.cpp b/src/constant_speed_motor.cpp
index dd775a3..246a6a2 100644
--- a/src/constant_speed_motor.cpp
+++ b/src/constant_speed_motor.cpp
@@ -19,6 +19,8 @@ atg_scs::ConstantSpeedMotor::~ConstantSpeedMotor() {
 void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
     double v1;
     double a1;
+    double v2;
+    double a2;
 
     if (m_body0->index == -1) {
         v1 = a1 = 0;
@@ -28,10 +30,16 @@ void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
         a1 = state->a_theta[m_body0->index];
     }
 
-    const double rel_v =
-        state->v_theta[m_body1->index] - v1;
-    const double rel_a =
-        state->a_theta[m_body1->index] - a1;
+    if (m_body1->index == -1) {
+        v2 = a2 = 0;
+    }
+    else {
+        v2 = state->v_theta[m_body1->index];
+        a2 = state->a_theta[m_body1->index];
+    }
+
+    const double rel_v = v2 - v1;
+    const double rel_a = a2 - a1;
     const double delta = m_speed - rel_v;
 
     const double torque = delta * m_ks;
@@ -41,5 +49,5 @@ void atg_scs::ConstantSpeedMotor::apply(SystemState *state) {
         std::fmin(m_maxTorque, std::fmax(-m_maxTorque, totalTorque));
 
     if (m_body0->index != -1) state->t[m_body0->index] -= limitedTorque;
-    state->t[m_body1->index] += limitedTorque;
+    if (m_body1->index != -1) state->t[m_body1->index] += limitedTorque;
 }
diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
diff --git a/src/static_force_generator.cpp b/src/static_force_generator.cpp
index 1d238cb..707331d 100644
--- a/src/static_force_generator.cpp
+++ b/src/static_force_generator.cpp
@@ -14,6 +14,8 @@ atg_scs::StaticForceGenerator::~StaticForceGenerator() {
 }
 
 void atg_scs::StaticForceGenerator::apply(SystemState *state) {
+    if (m_body->index == -1) return;
+
     state->applyForce(
         m_p_x,
         m_p_y,
-- 
2.43.0


From 4f48c383d96e70d306e694d9a6f2ffd4499101b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 11/25] fix: add no reaction to a body outside the system

---
 src/generic_rigid_body_system.cpp       | 2 ++
 src/optimized_nsv_rigid_body_system.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 777d9d2..003b5bc 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -235,6 +235,8 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..aca5a20 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -250,6 +250,8 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From ad703b3ff3ca07fed4fb21276f02cdd12c5b4a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 12/25] fix: mark removed members as not part of a system

---
 src/rigid_body_system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index b32c5f3..ddfd9d3 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -47,6 +47,7 @@ void atg_scs::RigidBodySystem::removeRigidBody(RigidBody *body) {
     m_rigidBodies[body->index] = m_rigidBodies.back();
     m_rigidBodies[body->index]->index = body->index;
     m_rigidBodies.resize(m_rigidBodies.size() - 1);
+    body->index = -1;
 }
 
 atg_scs::RigidBody *atg_scs::RigidBodySystem::getRigidBody(int i) {
@@ -63,6 +64,7 @@ void atg_scs::RigidBodySystem::removeConstraint(Constraint *constraint) {
     m_constraints[constraint->m_index] = m_constraints.back();
     m_constraints[constraint->m_index]->m_index = constraint->m_index;
     m_constraints.resize(m_constraints.size() - 1);
+    constraint->m_index = -1;
 }
 
 void atg_scs::RigidBodySystem::addForceGenerator(ForceGenerator *forceGenerator) {
@@ -74,6 +76,7 @@ void atg_scs::RigidBodySystem::removeForceGenerator(ForceGenerator *forceGenerat
     m_forceGenerators[forceGenerator->m_index] = m_forceGenerators.back();
     m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;
     m_forceGenerators.resize(m_forceGenerators.size() - 1);
+    forceGenerator->m_index = -1;
 }
 
 int atg_scs::RigidBodySystem::getFullConstraintCount() const {
-- 
2.43.0


From 4bb035190b104a63cc3f496b475516aa511d0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 13/25] fix: fill a matrix row by row, since its rows may have
 been exchanged

---
 src/matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..973bdb1 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,9 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        memcpy(m_matrix[i], data + i * m_width, sizeof(double) * m_width);
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
-- 
2.43.0


From 4db0a246efba50256a268590fe8ba24cc345ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 14/25] fix: index vectors by row in dot products, since their
 rows may have been exchanged

---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 973bdb1..95d0ff6 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -233,7 +233,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -246,7 +246,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From 2e1e15f85974a19b36dd810fe655d34f8f26602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 15/25] fix: copy exactly the source's bodies and rows

---
 src/system_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..99b1d2b 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -43,10 +43,14 @@ atg_scs::SystemState::~SystemState() {
 void atg_scs::SystemState::copy(const SystemState *state) {
     resize(state->n, state->n_c);
 
-    if (state->n == 0) {
+    if (state->n == 0 && state->n_c == 0) {
         return;
     }
 
+    // This state may be larger than the source
+    const int n = state->n;
+    const int n_c = state->n_c;
+
     std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);
 
     std::memcpy((void *)a_theta, (void *)state->a_theta, sizeof(double) * n);
-- 
2.43.0


From 809a04f149811ed3bbf08b2733918f27e2f897ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 16/25] fix: release the zero-length arrays of a system state
 too

---
 src/system_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index 99b1d2b..9b84ca2 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -110,7 +110,7 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
+    if (a_theta != nullptr) {
         freeArray(a_theta);
         freeArray(v_theta);
         freeArray(theta);
@@ -129,7 +129,7 @@ void atg_scs::SystemState::destroy() {
         freeArray(m);
     }
 
-    if (n_c > 0) {
+    if (indexMap != nullptr) {
         freeArray(indexMap);
 
         freeArray(r_x);
-- 
2.43.0


From 014372f072bd48ac53e5da0cae8b125dbb3421ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 17/25] fix: give the unlimited Gauss-Seidel result a single
 column

---
 src/gauss_seidel_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 3240fbf..f844972 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -26,7 +26,7 @@ bool atg_scs::GaussSeidelSleSolver::solve(
 {
     const int n = right.getHeight();
 
-    if (result->getHeight() != n) {
+    if (result->getWidth() != 1 || result->getHeight() != n) {
         result->initialize(1, n);
     }
 
-- 
2.43.0


From 690f4e63fa4a069d435e01c138ac3b52dfbdfea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 18/25] fix: roll without slipping for any radius and on a
 turning base

---
 src/rolling_constraint.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 9b37019..9f2ae9c 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -60,7 +60,7 @@ void atg_scs::RollingConstraint::calculate(
 
     const double s = delta_x * dx + delta_y * dy;
 
-    const double C0 = -q6 - s * m_radius;
+    const double C0 = -(q6 - q3) * m_radius - s;
     const double C1 = m_radius - (perp_x * delta_x + perp_y * delta_y);
 
     const double d_origin_x_dq3 = -sin_q3 * m_local_x - cos_q3 * m_local_y;
@@ -100,9 +100,9 @@ void atg_scs::RollingConstraint::calculate(
         (d_delta_y_dq3_dot * dy + d_delta_y_dq3 * dy_dot) +
         (delta_y_dot * d_dy_dq3 + delta_y * d_dy_dq3_dot);
 
-    output->J[0][0] = -ds_dq1 * m_radius;
-    output->J[0][1] = -ds_dq2 * m_radius;
-    output->J[0][2] = -ds_dq3 * m_radius;
+    output->J[0][0] = -ds_dq1;
+    output->J[0][1] = -ds_dq2;
+    output->J[0][2] = m_radius - ds_dq3;
 
     // C1 = m_radius + dy * delta_x - dx * delta_y
     output->J[1][0] = dy * d_delta_x_dq1;
@@ -111,17 +111,17 @@ void atg_scs::RollingConstraint::calculate(
         (d_dy_dq3 * delta_x + dy * d_delta_x_dq3) -
         (d_dx_dq3 * delta_y + dx * d_delta_y_dq3);
 
-    output->J[0][3] = -1 * dx * m_radius;
-    output->J[0][4] = -1 * dy * m_radius;
-    output->J[0][5] = -1;
+    output->J[0][3] = -1 * dx;
+    output->J[0][4] = -1 * dy;
+    output->J[0][5] = -m_radius;
 
     output->J[1][3] = dy * d_delta_x_dq4;
     output->J[1][4] = -dx * d_delta_y_dq5;
     output->J[1][5] = 0;
 
-    output->J_dot[0][0] = -ds_dq1_dot * m_radius;
-    output->J_dot[0][1] = -ds_dq2_dot * m_radius;
-    output->J_dot[0][2] = -ds_dq3_dot * m_radius;
+    output->J_dot[0][0] = -ds_dq1_dot;
+    output->J_dot[0][1] = -ds_dq2_dot;
+    output->J_dot[0][2] = -ds_dq3_dot;
 
     output->J_dot[1][0] = dy_dot * d_delta_x_dq1;
     output->J_dot[1][1] = -dx_dot * d_delta_y_dq2;
@@ -131,8 +131,8 @@ void atg_scs::RollingConstraint::calculate(
         (d_dx_dq3_dot * delta_y + d_dx_dq3 * delta_y_dot) -
         (dx_dot * d_delta_y_dq3 + dx * d_delta_y_dq3_dot);
 
-    output->J_dot[0][3] = -1 * dx_dot * m_radius;
-    output->J_dot[0][4] = -1 * dy_dot * m_radius;
+    output->J_dot[0][3] = -1 * dx_dot;
+    output->J_dot[0][4] = -1 * dy_dot;
     output->J_dot[0][5] = 0;
 
     output->J_dot[1][3] = dy_dot * d_delta_x_dq4;
-- 
2.43.0


From 334bae6804a012d6bd2964da240d35aff2f5d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 19/25] fix: do not report a conjugate gradient breakdown as
 success

---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
-- 
2.43.0


From 57221dcaa67aa86b53a15cf26236a523865ed89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 20/25] fix: report a singular system instead of aborting in
 Gaussian elimination

---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daa9ac4..605dd72 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -79,7 +79,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
     }
 
     if (A.get(n - 2, m - 1) == 0) {
-        assert(false);
+        return false;
     }
 
     const double x_m = A.get(n - 1, m - 1) / A.get(n - 2, m - 1);
@@ -101,7 +101,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     for (int i = 0; i < m; ++i) {
         if (std::isnan(result->get(0, i)) || std::isinf(result->get(0, i))) {
-            assert(false);
+            return false;
         }
     }
 
-- 
2.43.0


From 1c83f6af197e2cf99d1631d673c3d975b32be6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 21/25] fix: do not report a Gauss-Seidel breakdown as
 convergence

---
 src/gauss_seidel_sle_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index f844972..c402061 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -112,6 +112,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
+        if (std::isnan(delta)) return delta;
+
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 8dee86eb70399bd8d53aee648689c3f96dba0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 22/25] fix: conjugate gradient ignores a starting guess
 without a column

---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 543f582..3abb9e2 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -34,7 +34,7 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
     m_Ap.resize(1, n);
     m_x.initialize(1, n);
 
-    if (previous != nullptr && previous->getHeight() == n) {
+    if (previous != nullptr && previous->getWidth() == 1 && previous->getHeight() == n) {
         m_x.set(previous);
     }
 
-- 
2.43.0


From 245d255b640b138b0eecccaf43fd4cb12d6c3f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 23/25] fix: do not take a number that is none for convergence
 with limits

---
 src/gauss_seidel_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index c402061..c98d34e 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -153,7 +153,7 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(x - k->get(0, i)) / min_k;
-        maxDifference = (delta > maxDifference)
+        maxDifference = (delta > maxDifference || std::isnan(delta))
             ? delta
             : maxDifference;
 
-- 
2.43.0


From 74cf2f6db0c875a9c74eb8ac09588f6c422e9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 24/25] fix: scaling a sparse matrix keeps its number of
 entries per row

rightScale and leftScale took a target with two entries per row whatever
the number of the source, and wrote past the end of its rows when the
source has more.
---
 include/sparse_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 7330f2a..af61897 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -218,7 +218,7 @@ namespace atg_scs {
                 }
             }
 
-            void rightScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void rightScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1);
                 assert(scale.getHeight() == m_width);
 
@@ -242,7 +242,7 @@ namespace atg_scs {
                 }
             }
 
-            void leftScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void leftScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1 || m_height == 0);
                 assert(scale.getHeight() == m_height);
 
-- 
2.43.0


From 89c6f708bff8dcc47d5db233f894da9cd27912d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 25/25] fix: Gauss-Seidel took a guess or result of several
 columns for its own and returned them all

---
 src/gauss_seidel_sle_solver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index c98d34e..86e014c 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -30,7 +30,7 @@ bool atg_scs::GaussSeidelSleSolver::solve(
         result->initialize(1, n);
     }
 
-    if (previous != nullptr && previous->getHeight() == n) {
+    if (previous != nullptr && previous->getWidth() == 1 && previous->getHeight() == n) {
         result->set(previous);
     }
 
@@ -61,11 +61,11 @@ bool atg_scs::GaussSeidelSleSolver::solveWithLimits(
     Matrix *previous)
 {
     const int n = right.getHeight();
-    if (result->getHeight() != n) {
+    if (result->getWidth() != 1 || result->getHeight() != n) {
         result->initialize(1, n);
     }
 
-    if (previous != nullptr && previous->getHeight() == n) {
+    if (previous != nullptr && previous->getWidth() == 1 && previous->getHeight() == n) {
         result->set(previous);
     }
 
-- 
2.43.0

