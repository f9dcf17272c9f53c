From c47569b59d8f961c634dbc2de5372a3498fb738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 01/24] fix: let a destroyed sparse matrix be initialized again

destroy() released the storage but kept the old capacity, so a later resize to
the same or a smaller height wrote through null pointers.
---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..01dda4b 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -69,6 +69,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From d573031c2bd61c22c72e26182404d5812a361c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 02/24] fix: give empty sparse blocks the value zero

SparseMatrix::initialize marked every block empty but left the values
uninitialized, and the rigid body systems read them back as the reaction
forces of unused body slots.
---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 01dda4b..7b41272 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -31,6 +31,7 @@ namespace atg_scs {
             void initialize(int width, int height) {
                 resize(width, height);
                 memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
-- 
2.43.0


From 3e65c850e4c5bbe7a29e88660567bb6f9747520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 03/24] fix: keep block indices of 255 and more apart in sparse
 matrices

Block indices were stored in a byte with 255 meaning 'empty', so a system with
more than 255 bodies silently dropped or redirected constraint forces.
---
 include/sparse_matrix.h | 48 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 7b41272..d5e9e32 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -13,6 +13,9 @@ namespace atg_scs {
 
     template <int T_Stride = 3, int T_Entries = 2>
     class SparseMatrix {
+        public:
+            static constexpr int EmptyBlock = -1;
+
         public:
             SparseMatrix() {
                 m_matrix = nullptr;
@@ -30,7 +33,10 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                for (int i = 0; i < T_Entries * m_height; ++i) {
+                    m_blockData[i] = EmptyBlock;
+                }
+
                 memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);
             }
 
@@ -45,7 +51,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new int[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -78,8 +84,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -94,8 +100,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + j];
+                        if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -105,10 +111,10 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, int index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
-                assert(index < m_width);
+                assert(index >= 0 && index < m_width);
 
                 m_blockData[row * T_Entries + entry] = index;
             }
@@ -133,7 +139,7 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = EmptyBlock;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -148,11 +154,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const int block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == EmptyBlock) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -181,8 +187,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const int block = m_blockData[i * T_Entries + k];
+                        if (block == EmptyBlock) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -205,8 +211,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const int block = m_blockData[i * T_Entries + k];
+                            if (block == EmptyBlock) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -226,8 +232,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == EmptyBlock) continue;
 
                         target->setBlock(i, j, index);
 
@@ -250,8 +256,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const int index = m_blockData[i * T_Entries + j];
+                        if (index == EmptyBlock) continue;
 
                         target->setBlock(i, j, index);
 
@@ -272,7 +278,7 @@ namespace atg_scs {
         protected:
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            int *m_blockData;
 
             int m_width;
             int m_height;
-- 
2.43.0


From a9ca632c07e2e6ae0ea67a217093f0fb47de222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 04/24] fix: scale sparse matrices with any number of blocks
 per row

The target of leftScale and rightScale was fixed at two blocks per row, so
scaling a matrix with more blocks per row wrote past the target's rows.
---
 include/sparse_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d5e9e32..46252a4 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -224,7 +224,7 @@ namespace atg_scs {
                 }
             }
 
-            void rightScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void rightScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1);
                 assert(scale.getHeight() == m_width);
 
@@ -248,7 +248,7 @@ namespace atg_scs {
                 }
             }
 
-            void leftScale(Matrix &scale, SparseMatrix<T_Stride> *target) {
+            void leftScale(Matrix &scale, SparseMatrix<T_Stride, T_Entries> *target) {
                 assert(scale.getWidth() == 1 || m_height == 0);
                 assert(scale.getHeight() == m_height);
 
-- 
2.43.0


From e5e9bfea6270860cf25398300dd9350e65a5beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 05/24] fix: release a generic rigid body system's matrices on
 destruction

Destroying a system that had been stepped tripped the 'matrix not destroyed'
assertions, or leaked with assertions off.
---
 src/generic_rigid_body_system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..994e824 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,24 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.J_T.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From 5965d9e9cf0f9e9208b54d262317d0529955b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 06/24] fix: report each constraint's own reaction forces in
 the generic system

Reactions are stored two per constraint row; reading one per row reported other
rows' and bodies' forces.
---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 994e824..777d9d2 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -97,9 +97,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From 5bb81b8435dea6dc363969da1b5d4f50db2c6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 07/24] fix: do not apply constraint forces to unregistered
 bodies

Constraint assembly skips bodies with index -1, but the forces were still added
at index -1, before the start of the acceleration arrays.
---
 src/generic_rigid_body_system.cpp       | 3 +++
 src/optimized_nsv_rigid_body_system.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 777d9d2..e28f440 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -235,6 +235,9 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..4805b2a 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -250,6 +250,9 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From 7c75ee956c1c0c5ad1e6420b6735d095de8c39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 08/24] fix: do not apply spring forces to unregistered bodies

A spring treats an end with index -1 as fixed in place, but still applied the
force at index -1, outside the state's arrays.
---
 src/spring.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
-- 
2.43.0


From 2e8ea819edcaedc14f39671f7c060fb77e669adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 09/24] fix: initialize all of a new constraint's and force
 generator's links

Only part of the body pointers was cleared on 64-bit targets and a force
generator's index not at all.
---
 src/constraint.cpp      | 2 +-
 src/force_generator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index e7549f3..2242cf6 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -12,7 +12,7 @@ atg_scs::Constraint::Constraint(int constraintCount, int bodyCount) {
 
     m_index = -1;
 
-    memset(m_bodies, 0, sizeof(int) * MaxBodyCount);
+    memset(m_bodies, 0, sizeof(m_bodies));
 
     for (int i = 0; i < MaxConstraintCount; ++i) {
         for (int j = 0; j < MaxBodyCount; ++j) {
diff --git a/src/force_generator.cpp b/src/force_generator.cpp
index 598ebb1..58cc689 100644
--- a/src/force_generator.cpp
+++ b/src/force_generator.cpp
@@ -1,7 +1,7 @@
 #include "../include/force_generator.h"
 
 atg_scs::ForceGenerator::ForceGenerator() {
-    /* void */
+    m_index = -1;
 }
 
 atg_scs::ForceGenerator::~ForceGenerator() {
-- 
2.43.0


From dd8b6cabf3f434455ad642f449960d7515380c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 10/24] fix: mark removed objects as unregistered

A removed body kept its old index, so springs, motors and constraints still
attached to it acted on whichever body took its slot.
---
 src/rigid_body_system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index b32c5f3..ddfd9d3 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -47,6 +47,7 @@ void atg_scs::RigidBodySystem::removeRigidBody(RigidBody *body) {
     m_rigidBodies[body->index] = m_rigidBodies.back();
     m_rigidBodies[body->index]->index = body->index;
     m_rigidBodies.resize(m_rigidBodies.size() - 1);
+    body->index = -1;
 }
 
 atg_scs::RigidBody *atg_scs::RigidBodySystem::getRigidBody(int i) {
@@ -63,6 +64,7 @@ void atg_scs::RigidBodySystem::removeConstraint(Constraint *constraint) {
     m_constraints[constraint->m_index] = m_constraints.back();
     m_constraints[constraint->m_index]->m_index = constraint->m_index;
     m_constraints.resize(m_constraints.size() - 1);
+    constraint->m_index = -1;
 }
 
 void atg_scs::RigidBodySystem::addForceGenerator(ForceGenerator *forceGenerator) {
@@ -74,6 +76,7 @@ void atg_scs::RigidBodySystem::removeForceGenerator(ForceGenerator *forceGenerat
     m_forceGenerators[forceGenerator->m_index] = m_forceGenerators.back();
     m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;
     m_forceGenerators.resize(m_forceGenerators.size() - 1);
+    forceGenerator->m_index = -1;
 }
 
 int atg_scs::RigidBodySystem::getFullConstraintCount() const {
-- 
2.43.0


From 0be45f58492be7486a0941a67d016475a91ae4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 11/24] fix: size system states exactly and release them
 completely

A state never shrank, so copying a smaller state into it read past the source's
arrays (reusing an RK4 solver for a smaller scene did), and integrators kept
advancing removed bodies. A state with bodies but no constraints, or the
reverse, leaked its empty arrays. A copy now also includes the time step.
---
 src/system_state.cpp | 49 +++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..44ae084 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -42,8 +42,9 @@ atg_scs::SystemState::~SystemState() {
 
 void atg_scs::SystemState::copy(const SystemState *state) {
     resize(state->n, state->n_c);
+    dt = state->dt;
 
-    if (state->n == 0) {
+    if (state->n == 0 && state->n_c == 0) {
         return;
     }
 
@@ -72,7 +73,7 @@ void atg_scs::SystemState::copy(const SystemState *state) {
 }
 
 void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
-    if (n >= bodyCount && n_c >= constraintCount) {
+    if (n == bodyCount && n_c == constraintCount) {
         return;
     }
 
@@ -106,32 +107,28 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
-        freeArray(a_theta);
-        freeArray(v_theta);
-        freeArray(theta);
-
-        freeArray(a_x);
-        freeArray(a_y);
-        freeArray(v_x);
-        freeArray(v_y);
-        freeArray(p_x);
-        freeArray(p_y);
-
-        freeArray(f_x);
-        freeArray(f_y);
-        freeArray(t);
-
-        freeArray(m);
-    }
+    freeArray(indexMap);
 
-    if (n_c > 0) {
-        freeArray(indexMap);
+    freeArray(a_theta);
+    freeArray(v_theta);
+    freeArray(theta);
 
-        freeArray(r_x);
-        freeArray(r_y);
-        freeArray(r_t);
-    }
+    freeArray(a_x);
+    freeArray(a_y);
+    freeArray(v_x);
+    freeArray(v_y);
+    freeArray(p_x);
+    freeArray(p_y);
+
+    freeArray(f_x);
+    freeArray(f_y);
+    freeArray(t);
+
+    freeArray(m);
+
+    freeArray(r_x);
+    freeArray(r_y);
+    freeArray(r_t);
 
     n = 0;
     n_c = 0;
-- 
2.43.0


From 387730654a272925dc87ce15f7d71fba32f38391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 12/24] fix: evaluate RK4 stages at the previous stage's
 velocity

Each intermediate position was computed from the velocity of the stage being
set up instead of the one just evaluated, which reduced the method to second
order for forces that depend on position.
---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..ffcc176 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -26,36 +26,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From 42db4667edeefbe9d5ffb87cbf4f46a0cf24f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 13/24] fix: report the mean reaction forces of an RK4 step

Reactions were accumulated onto the uninitialized (or previous) reactions, scaled
by the step length, and for only half of the entries.
---
 src/rk4_ode_solver.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index ffcc176..5f95298 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,12 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    for (int i = 0; i < 2 * m_accumulator.n_c; ++i) {
+        m_accumulator.r_x[i] = 0.0;
+        m_accumulator.r_y[i] = 0.0;
+        m_accumulator.r_t[i] = 0.0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +94,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < 2 * system->n_c; ++i) {
+        m_accumulator.r_x[i] += (1 / 6.0) * system->r_x[i] * stageWeight;
+        m_accumulator.r_y[i] += (1 / 6.0) * system->r_y[i] * stageWeight;
+        m_accumulator.r_t[i] += (1 / 6.0) * system->r_t[i] * stageWeight;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +110,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < 2 * system->n_c; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From a6eda9a5003c32971943401efb792a5928622529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 14/24] fix: stop Gauss-Seidel only when the solution has
 converged

Without limits the convergence test compared magnitudes with a sign error, so a
shrinking or negative component counted as converged, and a NaN did too. With no
usable starting vector the iteration started from uninitialized memory.
---
 src/gauss_seidel_sle_solver.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..2ad1866 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -26,11 +26,12 @@ bool atg_scs::GaussSeidelSleSolver::solve(
 {
     const int n = right.getHeight();
     
-    result->resize(1, n);
-
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
     }
+    else {
+        result->initialize(1, n);
+    }
 
     J.rightScale(W, &m_reg);
     m_reg.multiplyTranspose(J, &m_M);
@@ -59,13 +60,13 @@ bool atg_scs::GaussSeidelSleSolver::solveWithLimits(
     Matrix *previous)
 {
     const int n = right.getHeight();
-    if (result->getHeight() != n) {
-        result->initialize(1, n);
-    }
 
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
     }
+    else {
+        result->initialize(1, n);
+    }
 
     J.rightScale(W, &m_reg);
     m_reg.multiplyTranspose(J, &m_M);
@@ -108,8 +109,10 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::isnan(k_next_i)
+            ? HUGE_VAL
+            : std::abs(k_next_i - k->get(0, i)) / min_k;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From bd6982496d38791ebe851933c57a56626ed5324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 15/24] fix: do not accept NaN as a converged conjugate
 gradient solution

A singular system made the residual NaN, which compared as small enough.
---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
-- 
2.43.0


From 188e883a4e4334c5572f1eaafd2ee037c4b1f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 16/24] fix: report singular and empty systems from Gaussian
 elimination

A singular system aborted the process instead of returning false, and an empty
system left the previous result in place, so removing a scene's last constraint
failed in the next step.
---
 src/gaussian_elimination_sle_solver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..605dd72 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
@@ -79,7 +79,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
     }
 
     if (A.get(n - 2, m - 1) == 0) {
-        assert(false);
+        return false;
     }
 
     const double x_m = A.get(n - 1, m - 1) / A.get(n - 2, m - 1);
@@ -101,7 +101,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     for (int i = 0; i < m; ++i) {
         if (std::isnan(result->get(0, i)) || std::isinf(result->get(0, i))) {
-            assert(false);
+            return false;
         }
     }
 
-- 
2.43.0


From e5ae26a927c94cd90c2944f5c4405a3f0c89d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 17/24] fix: make rolling bodies roll without slipping

The rolled angle was related to travel times radius instead of travel over
radius, so only a radius of 1 rolled without slipping, and the base's own
rotation was ignored, so a turning base slipped and gained angular momentum.
---
 src/rolling_constraint.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 9b37019..9f2ae9c 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -60,7 +60,7 @@ void atg_scs::RollingConstraint::calculate(
 
     const double s = delta_x * dx + delta_y * dy;
 
-    const double C0 = -q6 - s * m_radius;
+    const double C0 = -(q6 - q3) * m_radius - s;
     const double C1 = m_radius - (perp_x * delta_x + perp_y * delta_y);
 
     const double d_origin_x_dq3 = -sin_q3 * m_local_x - cos_q3 * m_local_y;
@@ -100,9 +100,9 @@ void atg_scs::RollingConstraint::calculate(
         (d_delta_y_dq3_dot * dy + d_delta_y_dq3 * dy_dot) +
         (delta_y_dot * d_dy_dq3 + delta_y * d_dy_dq3_dot);
 
-    output->J[0][0] = -ds_dq1 * m_radius;
-    output->J[0][1] = -ds_dq2 * m_radius;
-    output->J[0][2] = -ds_dq3 * m_radius;
+    output->J[0][0] = -ds_dq1;
+    output->J[0][1] = -ds_dq2;
+    output->J[0][2] = m_radius - ds_dq3;
 
     // C1 = m_radius + dy * delta_x - dx * delta_y
     output->J[1][0] = dy * d_delta_x_dq1;
@@ -111,17 +111,17 @@ void atg_scs::RollingConstraint::calculate(
         (d_dy_dq3 * delta_x + dy * d_delta_x_dq3) -
         (d_dx_dq3 * delta_y + dx * d_delta_y_dq3);
 
-    output->J[0][3] = -1 * dx * m_radius;
-    output->J[0][4] = -1 * dy * m_radius;
-    output->J[0][5] = -1;
+    output->J[0][3] = -1 * dx;
+    output->J[0][4] = -1 * dy;
+    output->J[0][5] = -m_radius;
 
     output->J[1][3] = dy * d_delta_x_dq4;
     output->J[1][4] = -dx * d_delta_y_dq5;
     output->J[1][5] = 0;
 
-    output->J_dot[0][0] = -ds_dq1_dot * m_radius;
-    output->J_dot[0][1] = -ds_dq2_dot * m_radius;
-    output->J_dot[0][2] = -ds_dq3_dot * m_radius;
+    output->J_dot[0][0] = -ds_dq1_dot;
+    output->J_dot[0][1] = -ds_dq2_dot;
+    output->J_dot[0][2] = -ds_dq3_dot;
 
     output->J_dot[1][0] = dy_dot * d_delta_x_dq1;
     output->J_dot[1][1] = -dx_dot * d_delta_y_dq2;
@@ -131,8 +131,8 @@ void atg_scs::RollingConstraint::calculate(
         (d_dx_dq3_dot * delta_y + d_dx_dq3 * delta_y_dot) -
         (dx_dot * d_delta_y_dq3 + dx * d_delta_y_dq3_dot);
 
-    output->J_dot[0][3] = -1 * dx_dot * m_radius;
-    output->J_dot[0][4] = -1 * dy_dot * m_radius;
+    output->J_dot[0][3] = -1 * dx_dot;
+    output->J_dot[0][4] = -1 * dy_dot;
     output->J_dot[0][5] = 0;
 
     output->J_dot[1][3] = dy_dot * d_delta_x_dq4;
-- 
2.43.0


From 6e9910367d678ebe3ff67a7dcc3df863f92cf050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 18/24] fix: respect swapped rows when loading and dotting
 matrices

set(data), dot and vectorMagnitudeSquared assumed rows in storage order; after
fastRowSwap they loaded rows in the wrong order or read past the storage.
---
 src/matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..23a2aa5 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,9 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        memcpy(m_matrix[i], data + (size_t)i * m_width, sizeof(double) * m_width);
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
@@ -231,7 +233,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -244,7 +246,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From 2750e41ae42c6707cee78c295f5b18368a502421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 19/24] fix: do not report matrices containing NaN as equal

---
 src/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 23a2aa5..50332eb 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -219,7 +219,7 @@ bool atg_scs::Matrix::equals(Matrix &b, double err) {
 
     for (int i = 0; i < getHeight(); ++i) {
         for (int j = 0; j < getWidth(); ++j) {
-            if (std::abs(get(j, i) - b.get(j, i)) > err) {
+            if (!(std::abs(get(j, i) - b.get(j, i)) <= err)) {
                 return false;
             }
         }
-- 
2.43.0


From c263e7983adad801279179ced12eb54d3552e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 20/24] fix: drive constant rotation to its speed in the
 generic system

The generic system ignored the constraint's speed target, so a constant rotation
constraint braked its body to rest instead of holding the configured speed.
---
 include/generic_rigid_body_system.h | 1 +
 src/generic_rigid_body_system.cpp   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/generic_rigid_body_system.h b/include/generic_rigid_body_system.h
index 035f73d..d8cb60a 100644
--- a/include/generic_rigid_body_system.h
+++ b/include/generic_rigid_body_system.h
@@ -31,6 +31,7 @@ namespace atg_scs {
                 Matrix M, M_inv;
                 Matrix C;
                 Matrix ks, kd;
+                Matrix v_bias;
                 Matrix q_dot;
 
                 Matrix reg0, reg1, reg2;
diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index e28f440..30f6fad 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -17,6 +17,7 @@ atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
     m_iv.C.destroy();
     m_iv.ks.destroy();
     m_iv.kd.destroy();
+    m_iv.v_bias.destroy();
     m_iv.q_dot.destroy();
     m_iv.reg0.destroy();
     m_iv.reg1.destroy();
@@ -135,6 +136,7 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
     m_iv.J_dot_sparse.initialize(3 * n, m_f);
     m_iv.ks.initialize(1, m_f);
     m_iv.kd.initialize(1, m_f);
+    m_iv.v_bias.initialize(1, m_f);
     m_iv.C.initialize(1, m_f);
 
     Constraint::Output constraintOutput;
@@ -165,6 +167,7 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
 
                 m_iv.ks.set(0, j_f, constraintOutput.ks[k]);
                 m_iv.kd.set(0, j_f, constraintOutput.kd[k]);
+                m_iv.v_bias.set(0, j_f, constraintOutput.v_bias[k]);
                 m_iv.C.set(0, j_f, constraintOutput.C[k]);
             }
         }
@@ -172,7 +175,8 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
 
     m_iv.J_sparse.multiply(m_iv.q_dot, &m_iv.reg0);
     for (int i = 0; i < m_f; ++i) {
-        m_iv.kd.set(0, i, m_iv.kd.get(0, i) * m_iv.reg0.get(0, i));
+        m_iv.kd.set(0, i,
+                m_iv.kd.get(0, i) * (m_iv.reg0.get(0, i) + m_iv.v_bias.get(0, i)));
         m_iv.ks.set(0, i, m_iv.ks.get(0, i) * m_iv.C.get(0, i));
     }
 
-- 
2.43.0


From 89cc9c1b015886085c35572f50bf0f9d7a0aaf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 21/24] fix: let conjugate gradient handle a system without
 constraints

---
 src/conjugate_gradient_sle_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 543f582..d3dd6f0 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -34,7 +34,10 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
     m_Ap.resize(1, n);
     m_x.initialize(1, n);
 
-    if (previous != nullptr && previous->getHeight() == n) {
+    if (previous != nullptr
+        && previous->getWidth() == 1
+        && previous->getHeight() == n)
+    {
         m_x.set(previous);
     }
 
-- 
2.43.0


From 7f528f0482fc56ad1d80e4f2843e21c88de47d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 22/24] fix: add up sparse blocks that occur twice in a row
 when expanding

---
 include/sparse_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 46252a4..c58e0db 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -88,7 +88,7 @@ namespace atg_scs {
                         if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
-                                matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
+                                matrix->add(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
                             }
                         }
                     }
@@ -104,7 +104,7 @@ namespace atg_scs {
                         if (block == EmptyBlock) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
-                                matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
+                                matrix->add(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
                             }
                         }
                     }
-- 
2.43.0


From d60c4a135e67d19bd54ceaf3b382196a65804c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 23/24] fix: do not accept an infinite Gauss-Seidel solution as
 converged

---
 src/gauss_seidel_sle_solver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 2ad1866..5311a7b 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -110,9 +110,9 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
-        const double delta = std::isnan(k_next_i)
-            ? HUGE_VAL
-            : std::abs(k_next_i - k->get(0, i)) / min_k;
+        const double delta = std::isfinite(k_next_i)
+            ? std::abs(k_next_i - k->get(0, i)) / min_k
+            : HUGE_VAL;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
@@ -151,7 +151,9 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
-        const double delta = std::abs(x - k->get(0, i)) / min_k;
+        const double delta = std::isfinite(x)
+            ? std::abs(x - k->get(0, i)) / min_k
+            : HUGE_VAL;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 33050a9402b48af43994bc49848d1bf1e5c04518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 24/24] fix: give every constraint an index map entry, with or
 without rows

---
 include/system_state.h    |  3 ++-
 src/rigid_body_system.cpp |  2 +-
 src/system_state.cpp      | 18 ++++++++++++------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/system_state.h b/include/system_state.h
index fb62f50..8927123 100644
--- a/include/system_state.h
+++ b/include/system_state.h
@@ -8,7 +8,7 @@ namespace atg_scs {
             ~SystemState();
 
             void copy(const SystemState *state);
-            void resize(int bodyCount, int constraintCount);
+            void resize(int bodyCount, int constraintCount, int indexCount = 0);
             void destroy();
 
             void localToWorld(double x, double y, double *x_t, double *y_t, int body);
@@ -40,6 +40,7 @@ namespace atg_scs {
 
             int n;
             int n_c;
+            int n_i;
             double dt;
     };
 } /* namespace atg_scs */
diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index ddfd9d3..7efc3b0 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -123,7 +123,7 @@ void atg_scs::RigidBodySystem::populateSystemState() {
     const int n_c = getFullConstraintCount();
     const int m = getConstraintCount();
 
-    m_state.resize(n, n_c);
+    m_state.resize(n, n_c, m);
 
     for (int i = 0; i < n; ++i) {
         m_state.a_x[i] = 0;
diff --git a/src/system_state.cpp b/src/system_state.cpp
index 44ae084..22e5c63 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -32,6 +32,7 @@ atg_scs::SystemState::SystemState() {
 
     n = 0;
     n_c = 0;
+    n_i = 0;
     dt = 0.0;
 }
 
@@ -41,14 +42,14 @@ atg_scs::SystemState::~SystemState() {
 }
 
 void atg_scs::SystemState::copy(const SystemState *state) {
-    resize(state->n, state->n_c);
+    resize(state->n, state->n_c, state->n_i);
     dt = state->dt;
 
-    if (state->n == 0 && state->n_c == 0) {
+    if (state->n == 0 && state->n_i == 0) {
         return;
     }
 
-    std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);
+    std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_i);
 
     std::memcpy((void *)a_theta, (void *)state->a_theta, sizeof(double) * n);
     std::memcpy((void *)v_theta, (void *)state->v_theta, sizeof(double) * n);
@@ -72,8 +73,11 @@ void atg_scs::SystemState::copy(const SystemState *state) {
     std::memcpy((void *)r_t, (void *)state->r_t, sizeof(double) * n_c * 2);
 }
 
-void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
-    if (n == bodyCount && n_c == constraintCount) {
+void atg_scs::SystemState::resize(int bodyCount, int constraintCount, int indexCount) {
+    // A constraint needs an entry in the index map even if it has no rows
+    if (indexCount < constraintCount) indexCount = constraintCount;
+
+    if (n == bodyCount && n_c == constraintCount && n_i == indexCount) {
         return;
     }
 
@@ -81,8 +85,9 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 
     n = bodyCount;
     n_c = constraintCount;
+    n_i = indexCount;
 
-    indexMap = new int[n_c];
+    indexMap = new int[n_i];
 
     a_theta = new double[n];
     v_theta = new double[n];
@@ -132,6 +137,7 @@ void atg_scs::SystemState::destroy() {
 
     n = 0;
     n_c = 0;
+    n_i = 0;
 }
 
 void atg_scs::SystemState::localToWorld(
-- 
2.43.0

