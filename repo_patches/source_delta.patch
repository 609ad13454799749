From 6317b944219e0bd656933e6bde829ebfa501d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 01/21] fix: run the LCP solver on current PyTorch

btrifact/btrisolve, uint8 masks and non-static autograd functions no longer
exist there, so every step with a contact raised.
---
 lcp_physics/lcp/lcp.py           | 29 +++++++++++++--
 lcp_physics/lcp/solvers/pdipm.py | 61 ++++++++++++++------------------
 lcp_physics/lcp/util.py          |  4 +--
 3 files changed, 55 insertions(+), 39 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 06c6dcb..a1d75fb 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -1,3 +1,5 @@
+import copy
+
 import torch
 from torch.autograd import Function
 
@@ -5,19 +7,41 @@ from .solvers import pdipm
 from .util import bger, extract_batch_size
 
 
-class LCPFunction(Function):
+class _LCPApply(Function):
+    """Static autograd function required by pytorch, delegates to an LCPFunction.
+    """
+    @staticmethod
+    def forward(ctx, solver, *inputs):
+        # copy, results of this call are stored in the solver for backward
+        ctx.solver = copy.copy(solver)
+        zhats = ctx.solver.forward(*inputs)
+        ctx.save_for_backward(zhats, *inputs)
+        return zhats
+
+    @staticmethod
+    def backward(ctx, dl_dzhat):
+        ctx.solver.saved_tensors = ctx.saved_tensors
+        try:
+            return (None,) + ctx.solver.backward(dl_dzhat)
+        finally:
+            ctx.solver.saved_tensors = None
+
+
+class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
     def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
                  max_iter=10):
-        super().__init__()
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
         self.max_iter = max_iter
         self.Q_LU = self.S_LU = self.R = None
 
+    def __call__(self, *inputs):
+        return _LCPApply.apply(self, *inputs)
+
     # @profile
     def forward(self, Q, p, G, h, A, b, F):
         _, nineq, nz = G.size()
@@ -31,7 +55,6 @@ class LCPFunction(Function):
             eps=self.eps, max_iter=self.max_iter, verbose=self.verbose,
             not_improved_lim=self.not_improved_lim)
 
-        self.save_for_backward(zhats, Q, p, G, h, A, b, F)
         return zhats
 
     def backward(self, dl_dzhat):
diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c808378..656de9f 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -9,23 +9,17 @@ from ..util import efficient_btriunpack
 from lcp_physics.lcp.util import get_sizes, bdiag
 
 
-shown_btrifact_warning = False
-
 # @profile
 def btrifact_hack(x):
-    global shown_btrifact_warning
-    try:
-        return x.btrifact(pivot=not x.is_cuda)
-    except TypeError:
-        if not shown_btrifact_warning:
-            print("""----------
-lcp warning: Pivoting will always happen and will significantly
-slow down your code. Please use the master branch of PyTorch
-to get a version that disables pivoting on the GPU.
-----------
-""")
-            shown_btrifact_warning = True
-        return x.btrifact()
+    # pivoting is slow on the GPU
+    return torch.linalg.lu_factor(x, pivot=not x.is_cuda)
+
+
+def btrisolve(b, LU_data, LU_pivots):
+    """Batched LU solve, b is a batch of either vectors or matrices."""
+    if b.dim() == 2:
+        return torch.linalg.lu_solve(LU_data, LU_pivots, b.unsqueeze(2)).squeeze(2)
+    return torch.linalg.lu_solve(LU_data, LU_pivots, b)
 
 
 INACC_ERR = """
@@ -265,8 +259,8 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)  # H-1 AT
-    invH_g_ = g_.btrisolve(*H_LU)  # H-1 g
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)  # H-1 AT
+    invH_g_ = btrisolve(g_, *H_LU)  # H-1 g
 
     S_ = torch.bmm(A_, invH_A_)  # A H-1 AT
     # A H-1 AT + C_tilde
@@ -275,11 +269,11 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
     # [(H-1 g)T AT]T - h = A H-1 g - h
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
     # w = (A H-1 AT + C_tilde)-1 (A H-1 g - h) <= Av - eps I w = h
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     # Shouldn't it be just g (no minus)?
     # (Doesn't seem to make a difference, though...)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()  # -g - AT w
-    v_ = t_.btrisolve(*H_LU)  # v = H-1 (-g - AT w)
+    v_ = btrisolve(t_, *H_LU)  # v = H-1 (-g - AT w)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -304,15 +298,15 @@ def factor_solve_kkt(Q_tilde, D_tilde, A_, C_tilde, rx, rs, rz, ry, ns):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)
-    invH_g_ = g_.btrisolve(*H_LU)
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)
+    invH_g_ = btrisolve(g_, *H_LU)
 
     S_ = torch.bmm(A_, invH_A_) + C_tilde
     S_LU = btrifact_hack(S_)
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()
-    v_ = t_.btrisolve(*H_LU)
+    v_ = btrisolve(t_, *H_LU)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -330,7 +324,7 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
 
     nineq, nz, neq, nBatch = get_sizes(G, A)
 
-    invQ_rx = rx.btrisolve(*Q_LU)  # Q-1 rx
+    invQ_rx = btrisolve(rx, *Q_LU)  # Q-1 rx
     if neq > 0:
         # A Q-1 rx - ry
         # G Q-1 rx + rs / d - rz
@@ -339,14 +333,14 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
     else:
         h = invQ_rx.unsqueeze(1).bmm(G.transpose(1, 2)).squeeze(1) + rs / d - rz
 
-    w = -(h.btrisolve(*S_LU))  # S-1 h =
+    w = -btrisolve(h, *S_LU)  # S-1 h =
 
     g1 = -rx - w[:, neq:].unsqueeze(1).bmm(G).squeeze(1)  # -rx - GT w = -rx -GT S-1 h
     if neq > 0:
         g1 -= w[:, :neq].unsqueeze(1).bmm(A).squeeze(1)  # - AT w = -AT S-1 h
     g2 = -rs - w[:, neq:]
 
-    dx = g1.btrisolve(*Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
+    dx = btrisolve(g1, *Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
     ds = g2 / d  # g2 / d = (-rs - w) / d
     dz = w[:, neq:]
     dy = w[:, :neq] if neq > 0 else None
@@ -375,12 +369,12 @@ a non-zero diagonal.
     # See the 'Block LU factorization' part of our website
     # for more details.
 
-    G_invQ_GT = torch.bmm(G, G.transpose(1, 2).btrisolve(*Q_LU)) + F
+    G_invQ_GT = torch.bmm(G, btrisolve(G.transpose(1, 2), *Q_LU)) + F
     R = G_invQ_GT.clone()
     S_LU_pivots = torch.IntTensor(range(1, 1 + neq + nineq)).unsqueeze(0) \
         .repeat(nBatch, 1).type_as(Q).int()
     if neq > 0:
-        invQ_AT = A.transpose(1, 2).btrisolve(*Q_LU)
+        invQ_AT = btrisolve(A.transpose(1, 2), *Q_LU)
         A_invQ_AT = torch.bmm(A, invQ_AT)
         G_invQ_AT = torch.bmm(G, invQ_AT)
 
@@ -389,10 +383,10 @@ a non-zero diagonal.
         P_A_invQ_AT = P_A_invQ_AT.type_as(A_invQ_AT)
 
         S_LU_11 = LU_A_invQ_AT[0]
-        U_A_invQ_AT_inv = (P_A_invQ_AT.bmm(L_A_invQ_AT)
-                           ).btrisolve(*LU_A_invQ_AT)
+        U_A_invQ_AT_inv = btrisolve(P_A_invQ_AT.bmm(L_A_invQ_AT),
+                                    *LU_A_invQ_AT)
         S_LU_21 = G_invQ_AT.bmm(U_A_invQ_AT_inv)
-        T = G_invQ_AT.transpose(1, 2).btrisolve(*LU_A_invQ_AT)
+        T = btrisolve(G_invQ_AT.transpose(1, 2), *LU_A_invQ_AT)
         S_LU_12 = U_A_invQ_AT.bmm(T)
         S_LU_22 = Q.new_zeros(nBatch, nineq, nineq)
         S_LU_data = torch.cat((torch.cat((S_LU_11, S_LU_12), 2),
@@ -420,7 +414,7 @@ def factor_kkt(S_LU, R, d):
     if factor_kkt_eye is None or factor_kkt_eye.size() != d.size():
         # print('Updating batchedEye size.')
         factor_kkt_eye = torch.eye(nineq).repeat(
-            nBatch, 1, 1).type_as(R).byte()
+            nBatch, 1, 1).type_as(R).bool()
     # T = R.clone()
     # T[factor_kkt_eye] += (1. / d).view(-1)
     # more efficient version of these two lines in pytorch versions > 0.3.1
@@ -430,8 +424,7 @@ def factor_kkt(S_LU, R, d):
 
     T_LU = btrifact_hack(T)
 
-    global shown_btrifact_warning
-    if shown_btrifact_warning or not T.is_cuda:
+    if not T.is_cuda:
         # TODO Don't use pivoting in most cases because
         # torch.btriunpack is inefficient here:
         oldPivotsPacked = S_LU[1][:, -nineq:] - neq
diff --git a/lcp_physics/lcp/util.py b/lcp_physics/lcp/util.py
index d7beaaf..6a07533 100644
--- a/lcp_physics/lcp/util.py
+++ b/lcp_physics/lcp/util.py
@@ -41,7 +41,7 @@ def get_sizes(G, A=None):
 def bdiag(d):
     nBatch, sz = d.size()
     D = torch.zeros(nBatch, sz, sz).type_as(d)
-    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).byte()
+    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).bool()
     D[I] = d.squeeze()
     return D
 
@@ -72,7 +72,7 @@ def efficient_btriunpack(LU_data, LU_pivots, unpack_data=True, unpack_pivots=Tru
     nBatch, sz = LU_data.shape[:-1]
 
     if unpack_data:
-        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.uint8).triu_().expand_as(LU_data)
+        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.bool).triu_().expand_as(LU_data)
         zero = torch.tensor(0.).type_as(LU_data)
         U = torch.where(I_U, LU_data, zero)
         L = torch.where(I_U, zero, LU_data)
-- 
2.43.0


From e2b45de8044a6fd42c9fcac84f6a7a80104f3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 02/21] fix: clip hull contacts to the reference edge, not
 around the body position

The clip planes assumed the reference edge to be centered at the body position,
contacts of hulls with off-centre edges were lost and the hulls interpenetrated.
---
 lcp_physics/physics/contacts.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 99f3c93..da9390b 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -155,7 +155,6 @@ class DiffContactHandler(ContactHandler):
                 return
             if contact2[0].item() > contact1[0].item():
                 normal = -contact2[3]
-                half_edge_norm = contact2[5] / 2
                 ref_edge_idx = contact2[6]
                 incident_vertex_idx = contact2[4]
                 incident_edge_idx = self.get_incident_edge(normal, b1, incident_vertex_idx)
@@ -163,12 +162,16 @@ class DiffContactHandler(ContactHandler):
                                   b1.verts[(incident_edge_idx + 1) % len(b1.verts)]]
                 incident_verts = [v + b1.pos - b2.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
+                # clip to the extent of the reference edge, not necessarily centered
+                # at the body position
+                end_offset = -clip_plane.dot(b2.verts[(ref_edge_idx + 1) % len(b2.verts)])
+                start_offset = clip_plane.dot(b2.verts[ref_edge_idx])
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          end_offset)
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          start_offset)
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -178,7 +181,6 @@ class DiffContactHandler(ContactHandler):
                         pts.append((normal, pt2, pt1, -dist))
             else:
                 normal = -contact1[3]
-                half_edge_norm = contact1[5] / 2
                 ref_edge_idx = contact1[6]
                 incident_vertex_idx = contact1[4]
                 incident_edge_idx = self.get_incident_edge(normal, b2, incident_vertex_idx)
@@ -186,12 +188,16 @@ class DiffContactHandler(ContactHandler):
                                   b2.verts[(incident_edge_idx+1) % len(b2.verts)]]
                 incident_verts = [v + b2.pos - b1.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
+                # clip to the extent of the reference edge, not necessarily centered
+                # at the body position
+                end_offset = -clip_plane.dot(b1.verts[(ref_edge_idx + 1) % len(b1.verts)])
+                start_offset = clip_plane.dot(b1.verts[ref_edge_idx])
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          end_offset)
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          start_offset)
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From 9c06fcd9243aab56a3b5ad0b6e2488fb56d30bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 03/21] fix: post stabilization must not cause penetration in
 strict mode

The position correction was kept even if it made bodies interpenetrate, the next
step then halved dt forever looking for a step without penetration.
---
 lcp_physics/physics/world.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lcp_physics/physics/world.py b/lcp_physics/physics/world.py
index 39da5ad..897e37a 100644
--- a/lcp_physics/physics/world.py
+++ b/lcp_physics/physics/world.py
@@ -110,6 +110,8 @@ class World:
             tmp_v = self.v
             dp = self.engine.post_stabilization(self).squeeze(0)
             dp /= 2  # XXX Why 1/2 factor?
+            stab_p = torch.cat([b.p for b in self.bodies])
+            stab_rot_joints = [j[0].rot1 for j in self.joints]
             # XXX Clean up / Simplify this update?
             self.set_v(dp)
             for body in self.bodies:
@@ -119,6 +121,13 @@ class World:
             self.set_v(tmp_v)
 
             self.find_contacts()  # XXX Necessary to recheck contacts?
+            if self.strict_no_pen and any([c[0][3].item() > self.tol for c in self.contacts]):
+                # drop correction if it causes penetration, no step could be taken from there
+                self.set_p(stab_p.clone())
+                for j, rot1 in zip(self.joints, stab_rot_joints):
+                    j[0].rot1 = rot1.clone()
+                    j[0].update_pos()
+                self.find_contacts()
         self.t += dt
 
     def get_v(self):
-- 
2.43.0


From 85b5f8c9f9cd7c561fd3654f925d6db38703d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 04/21] fix: external forces only act for the time a step
 actually advances

When a step was shortened because of penetration the velocities kept the impulse
of the full step, so every retried or shortened step accelerated all bodies of the
world too much. Solve the dynamics again for the shorter step.
---
 lcp_physics/physics/world.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lcp_physics/physics/world.py b/lcp_physics/physics/world.py
index 897e37a..976ee18 100644
--- a/lcp_physics/physics/world.py
+++ b/lcp_physics/physics/world.py
@@ -83,6 +83,8 @@ class World:
     def step_dt(self, dt):
         start_p = torch.cat([b.p for b in self.bodies])
         start_rot_joints = [(j[0].rot1, j[0].rot2) for j in self.joints]
+        start_v = self.v
+        start_contacts = self.contacts
         new_v = self.engine.solve_dynamics(self, dt)
         self.set_v(new_v)
         while True:
@@ -105,6 +107,10 @@ class World:
                 for j, c in zip(self.joints, start_rot_joints):
                     j[0].rot1 = c[0].clone()
                     j[0].update_pos()
+                # solve again, forces only act for the duration of the smaller step
+                self.contacts = start_contacts
+                self.set_v(start_v)
+                self.set_v(self.engine.solve_dynamics(self, dt))
 
         if self.post_stab:
             tmp_v = self.v
-- 
2.43.0


From 2ff8b021fef6e238fe55a1b4f5ffcdf54cea51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 05/21] fix: let the LCP solver use its iterations before
 giving up

---
 lcp_physics/lcp/lcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index a1d75fb..dd298a0 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -31,7 +31,7 @@ class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
-    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
+    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=10,
                  max_iter=10):
         self.eps = eps
         self.verbose = verbose
-- 
2.43.0


From 49865f9b9921bf6b8f2446b44fff85da779cae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 06/21] fix: a zero step direction must not stop the LCP solver
 with NaNs

---
 lcp_physics/lcp/solvers/pdipm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 656de9f..188ce25 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -175,7 +175,7 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
 
 def get_step(v, dv):
     a = -v / dv
-    a[dv > 0] = max(1.0, a.max())
+    a[dv >= 0] = max(1.0, a.max())
     step = a.min(1)[0].squeeze()
     return step
 
-- 
2.43.0


From 341dac1615bf1295909cb0e41735d905331b2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 07/21] fix: give the LCP solver enough iterations to converge

---
 lcp_physics/lcp/lcp.py         | 4 ++--
 lcp_physics/physics/engines.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index dd298a0..501ef3e 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -31,8 +31,8 @@ class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
-    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=10,
-                 max_iter=10):
+    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=20,
+                 max_iter=30):
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
diff --git a/lcp_physics/physics/engines.py b/lcp_physics/physics/engines.py
index b720e47..b50f3f1 100644
--- a/lcp_physics/physics/engines.py
+++ b/lcp_physics/physics/engines.py
@@ -17,7 +17,7 @@ class Engine:
 class PdipmEngine(Engine):
     """Engine that uses the primal dual interior point method LCP solver.
     """
-    def __init__(self, max_iter=10):
+    def __init__(self, max_iter=30):
         self.lcp_solver = LCPFunction
         self.cached_inverse = None
         self.max_iter = max_iter
-- 
2.43.0


From 6cf06ca572372cd85cac40b792b051e5641164b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:01 +0000
Subject: [PATCH 08/21] fix: no hull contact where the clipped edges do not
 face each other

---
 lcp_physics/physics/contacts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index da9390b..c03b121 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -172,6 +172,8 @@ class DiffContactHandler(ContactHandler):
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
                                                           start_offset)
+                if len(clipped_verts) < 2:
+                    return
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -198,6 +200,8 @@ class DiffContactHandler(ContactHandler):
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
                                                           start_offset)
+                if len(clipped_verts) < 2:
+                    return
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From d89311eb0063c192fa9d34772fb147222995fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 09/21] fix: contact normal of a circle centered on a hull's
 boundary

---
 lcp_physics/physics/contacts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index c03b121..05b99ec 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -103,7 +103,8 @@ class DiffContactHandler(ContactHandler):
                     break
                 simplex = [simplex[idx] for idx in ids_used]  # remove unused points
                 simplex.append(support)
-            if len(ids_used) < 3:
+            # a center exactly on the hull's boundary has no direction, treat as deep
+            if len(ids_used) < 3 and torch.norm(closest + b2.pos - b1.pos).item() > 0:
                 best_pt2 = closest
                 closest = closest + b2.pos
                 best_pt1 = closest - b1.pos
-- 
2.43.0


From 2cb0ff6ba1b564e3601a6ec04d44b143d9bb10b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 10/21] fix: LCP solvers in different threads must not share
 the factorization's workspace

---
 lcp_physics/lcp/solvers/pdipm.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 188ce25..801e857 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -402,19 +402,15 @@ a non-zero diagonal.
     return Q_LU, S_LU, R
 
 
-factor_kkt_eye = None
-
 # @profile
 def factor_kkt(S_LU, R, d):
     """ Factor the U22 block that we can only do after we know D. """
     nBatch, nineq = d.size()
     neq = S_LU[1].size(1) - nineq
     # TODO There's probably a better way to add a batched diagonal.
-    global factor_kkt_eye
-    if factor_kkt_eye is None or factor_kkt_eye.size() != d.size():
-        # print('Updating batchedEye size.')
-        factor_kkt_eye = torch.eye(nineq).repeat(
-            nBatch, 1, 1).type_as(R).bool()
+    # Local, solvers running in other threads may need a different size.
+    factor_kkt_eye = torch.eye(nineq).repeat(
+        nBatch, 1, 1).type_as(R).bool()
     # T = R.clone()
     # T[factor_kkt_eye] += (1. / d).view(-1)
     # more efficient version of these two lines in pytorch versions > 0.3.1
-- 
2.43.0


From 7071e0da31f6a3553dcb47d1bb2c8d1ff00d2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 11/21] fix: an interrupt in the LCP solver must not be taken
 for a failed factorization

---
 lcp_physics/lcp/solvers/pdipm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 801e857..be7c226 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -92,7 +92,7 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
         d = z / s
         try:
             factor_kkt(S_LU, R, d)
-        except:
+        except Exception:
             return best['x'], best['y'], best['z'], best['s']
 
         if verbose > 0:
@@ -354,7 +354,7 @@ def pre_factor_kkt(Q, G, F, A):
 
     try:
         Q_LU = btrifact_hack(Q)
-    except:
+    except Exception:
         raise RuntimeError("""
 lcp Error: Cannot perform LU factorization on Q.
 Please make sure that your Q matrix is PSD and has
-- 
2.43.0


From 10d480bbf48de9bf106175ff6b9dc9667c366ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 12/21] fix: derivatives of contacts with friction need the
 transposed system

---
 lcp_physics/lcp/lcp.py           |  4 +++-
 lcp_physics/lcp/solvers/pdipm.py | 13 +++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 501ef3e..7ba7055 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -67,10 +67,12 @@ class LCPFunction:
         d = self.lams / self.slacks
 
         pdipm.factor_kkt(self.S_LU, self.R, d)
+        # the adjoint system is transposed, F is not symmetric with friction
         dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, self.S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, nineq),
-                                           G.new_zeros(batch_size, neq))
+                                           G.new_zeros(batch_size, neq),
+                                           adjoint=True)
 
         dps = dx
         dGs = (bger(dlam, zhats) + bger(self.lams, dx))
diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index be7c226..106961e 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -15,11 +15,12 @@ def btrifact_hack(x):
     return torch.linalg.lu_factor(x, pivot=not x.is_cuda)
 
 
-def btrisolve(b, LU_data, LU_pivots):
+def btrisolve(b, LU_data, LU_pivots, adjoint=False):
     """Batched LU solve, b is a batch of either vectors or matrices."""
     if b.dim() == 2:
-        return torch.linalg.lu_solve(LU_data, LU_pivots, b.unsqueeze(2)).squeeze(2)
-    return torch.linalg.lu_solve(LU_data, LU_pivots, b)
+        return torch.linalg.lu_solve(LU_data, LU_pivots, b.unsqueeze(2),
+                                     adjoint=adjoint).squeeze(2)
+    return torch.linalg.lu_solve(LU_data, LU_pivots, b, adjoint=adjoint)
 
 
 INACC_ERR = """
@@ -316,8 +317,8 @@ def factor_solve_kkt(Q_tilde, D_tilde, A_, C_tilde, rx, rs, rz, ry, ns):
     return dx, ds, dz, dy
 
 
-def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
-    """ Solve KKT equations for the affine step"""
+def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry, adjoint=False):
+    """ Solve KKT equations for the affine step (or the transposed ones)"""
 
     # S = [ A Q^{-1} A^T        A Q^{-1} G^T          ]
     #     [ G Q^{-1} A^T        G Q^{-1} G^T + D^{-1} ]
@@ -333,7 +334,7 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
     else:
         h = invQ_rx.unsqueeze(1).bmm(G.transpose(1, 2)).squeeze(1) + rs / d - rz
 
-    w = -btrisolve(h, *S_LU)  # S-1 h =
+    w = -btrisolve(h, *S_LU, adjoint=adjoint)  # S-1 h =
 
     g1 = -rx - w[:, neq:].unsqueeze(1).bmm(G).squeeze(1)  # -rx - GT w = -rx -GT S-1 h
     if neq > 0:
-- 
2.43.0


From 1c1e6aa0f580b111b832044378a7f31e4a7b5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 13/21] fix: a zero rotation still carries the derivative of a
 hull's outline

---
 lcp_physics/physics/bodies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/bodies.py b/lcp_physics/physics/bodies.py
index 411f2c9..b9edc9d 100644
--- a/lcp_physics/physics/bodies.py
+++ b/lcp_physics/physics/bodies.py
@@ -201,7 +201,8 @@ class Hull(Body):
 
     def set_p(self, new_p, update_geom_rotation=False):
         rot = new_p[0] - self.p[0]
-        if rot.item() != 0:
+        # a zero rotation may still carry a gradient
+        if rot.item() != 0 or rot.requires_grad:
             self.rotate_verts(rot)
         super().set_p(new_p, update_geom_rotation=update_geom_rotation)
 
-- 
2.43.0


From b92af97d65db3c3ac2a99dfe62ce37a19cc254ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 14/21] fix: derivatives of one simulation can be taken from
 several threads

---
 lcp_physics/lcp/lcp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 7ba7055..c387f86 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -20,11 +20,11 @@ class _LCPApply(Function):
 
     @staticmethod
     def backward(ctx, dl_dzhat):
-        ctx.solver.saved_tensors = ctx.saved_tensors
-        try:
-            return (None,) + ctx.solver.backward(dl_dzhat)
-        finally:
-            ctx.solver.saved_tensors = None
+        # copy, derivatives may be taken more than once at the same time
+        solver = copy.copy(ctx.solver)
+        solver.S_LU = [t.clone() for t in solver.S_LU]
+        solver.saved_tensors = ctx.saved_tensors
+        return (None,) + solver.backward(dl_dzhat)
 
 
 class LCPFunction:
-- 
2.43.0


From f402d0be746007001b3d3ab167837843e375898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 15/21] fix: the LCP solver must return a solution when its
 first factorization breaks down

---
 lcp_physics/lcp/solvers/pdipm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 106961e..b1a34b7 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -94,6 +94,9 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
         try:
             factor_kkt(S_LU, R, d)
         except Exception:
+            if best['x'] is None:
+                # Nothing better yet than the starting point.
+                return x, y, z, s
             return best['x'], best['y'], best['z'], best['s']
 
         if verbose > 0:
-- 
2.43.0


From 704461c27015ccf1b82ee00dcb89ba7c9e7f11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 16/21] fix: the LCP solver must not start on the boundary

A starting slack or multiplier that is positive only by rounding was left
as it was, and the iteration stalled there with a wrong solution.
---
 lcp_physics/lcp/solvers/pdipm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index b1a34b7..cc4182f 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -60,13 +60,13 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
     # Make all of the slack variables >= 1.
     M = torch.min(s, 1)[0]
     M = M.view(M.size(0), 1).repeat(1, nineq)
-    I = M <= 0
+    I = M <= 1e-6
     s[I] -= M[I] - 1
 
     # Make all of the inequality dual variables >= 1.
     M = torch.min(z, 1)[0]
     M = M.view(M.size(0), 1).repeat(1, nineq)
-    I = M <= 0
+    I = M <= 1e-6
     z[I] -= M[I] - 1
 
     best = {'resids': None, 'x': None, 'z': None, 's': None, 'y': None}
-- 
2.43.0


From 5f4dffb4c4081954552d6eed044b849a0b967bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 17/21] fix: the reward of the step that ends an episode counts

---
 experiments/breakout/run_breakout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/breakout/run_breakout.py b/experiments/breakout/run_breakout.py
index d88dd0f..6200f9f 100644
--- a/experiments/breakout/run_breakout.py
+++ b/experiments/breakout/run_breakout.py
@@ -213,11 +213,11 @@ def run_breakout(T=2, record=False, threshold=0.99, paddle_vel=None, centering=T
                 s, rew_t, stop, info = env.step(action)
                 if render:
                     env.render()
+                rew += rew_t
                 if stop:
                     if verbose > 0:
                         print('Episode done.')
                     break
-                rew += rew_t
                 if verbose > 1:
                     print('Score: {} Lives: {}'.format(rew, info['ale.lives']))
                 a = np.concatenate((a[1:], 0.001 * np.random.randn(na)[np.newaxis]))
-- 
2.43.0


From 4f6319a547e869c979948db4f7e89baca16ead44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 18/21] fix: a ball at the border of the frame has its visible
 size

---
 experiments/breakout/encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/experiments/breakout/encoder.py b/experiments/breakout/encoder.py
index 7d98920..5e8285a 100644
--- a/experiments/breakout/encoder.py
+++ b/experiments/breakout/encoder.py
@@ -114,6 +114,9 @@ def extract_params(frame):
                 top_left = np.array([i, j])
                 right = np.argmin(frame[i, j:, 0] == BALL_COLOR[0]) + j
                 bottom = np.argmin(frame[i:, j, 0] == BALL_COLOR[0]) + i
+                # the ball reaches the border of the frame
+                right = right if right != j else SCREEN_WIDTH
+                bottom = bottom if bottom != i else SCREEN_HEIGHT
                 ball_corners = ([top_left,
                                  np.array([bottom, right])])
                 found_ball = True
-- 
2.43.0


From da72e4c19e0cbf0a85a76f6acb32f6b3a068f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 19/21] fix: a joint at the center of a body has a derivative

---
 lcp_physics/physics/constraints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lcp_physics/physics/constraints.py b/lcp_physics/physics/constraints.py
index 3f6e1c2..0a9f306 100644
--- a/lcp_physics/physics/constraints.py
+++ b/lcp_physics/physics/constraints.py
@@ -2,7 +2,7 @@ import pygame
 
 import torch
 
-from .utils import Indices, Defaults, cart_to_polar, polar_to_cart
+from .utils import Indices, Defaults, cart_to_polar, polar_to_cart, rotation_matrix
 
 
 X = Indices.X
@@ -20,7 +20,8 @@ class Joint:
         self.body2 = body2
         self.pos = body1.p.new_tensor(pos)
         self.pos1 = self.pos - self.body1.pos
-        self.r1, self.rot1 = cart_to_polar(self.pos1)
+        # anchor and rotation since, polar coordinates have no derivative at the center
+        self.anchor1, self.rot1 = self.pos1, self.pos1.new_zeros(())
         self.rot2 = None
         if body2 is not None:
             self.pos2 = self.pos - self.body2.pos
@@ -42,7 +43,7 @@ class Joint:
         self.update_pos()
 
     def update_pos(self):
-        self.pos1 = polar_to_cart(self.r1, self.rot1)
+        self.pos1 = rotation_matrix(self.rot1).matmul(self.anchor1)
         self.pos = self.body1.pos + self.pos1
         if self.body2 is not None:
             # keep position on body1 as reference
-- 
2.43.0


From 6593da34f2dcf4b3e21adf5b9d81403debd7844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 20/21] fix: the gradient demo runs on current PyTorch

---
 demos/grad_demo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demos/grad_demo.py b/demos/grad_demo.py
index 4d94fd0..0cf4b77 100644
--- a/demos/grad_demo.py
+++ b/demos/grad_demo.py
@@ -57,12 +57,12 @@ def grad_demo(screen):
         # temp.clamp_(1e-7, 1)
         learning_rate *= 0.9
         # next_fric_coeff = Variable(temp, requires_grad=True)
-        print(i, '/', max_iter, dist.data[0])
+        print(i, '/', max_iter, dist.item())
         print(grad)
         # print(next_fric_coeff)
         print(learned_force(0.05))
         print('=======')
-        if abs((last_dist - dist).data[0]) < 1e-5:
+        if abs((last_dist - dist).item()) < 1e-5:
             break
         last_dist = dist
         dist_hist.append(dist)
@@ -75,7 +75,7 @@ def grad_demo(screen):
     # rec = Recorder(DT, screen)
     run_world(world, run_time=TIME, screen=screen, recorder=rec)
     dist = (target.pos - c.pos).norm()
-    print(dist.data[0])
+    print(dist.item())
 
     # import pickle
     # with open('control_balls_dist_hist.pkl', 'w') as f:
-- 
2.43.0


From b53cff5869bd07ea70687ea609fc3064aa07d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 21/21] fix: the gradient demo reports the distance of its
 final run

---
 demos/grad_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/grad_demo.py b/demos/grad_demo.py
index 0cf4b77..d308264 100644
--- a/demos/grad_demo.py
+++ b/demos/grad_demo.py
@@ -67,7 +67,7 @@ def grad_demo(screen):
         last_dist = dist
         dist_hist.append(dist)
 
-    world = make_world(learned_force)[0]
+    world, c, target = make_world(learned_force)
     # c.fric_coeff = next_fric_coeff
     # world.load_state(initial_state)
     # world.reset_engine()
-- 
2.43.0

