From 456025322136671b5deb8969ae7aa3cad401f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 01/60] fix: use builtin int/float instead of the removed
 numpy.int/numpy.float aliases

---
 pyparticleest/filter.py            | 16 ++++++++--------
 pyparticleest/paramest/paramest.py |  2 +-
 pyparticleest/smoother.py          |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..d4490ef 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From 494838adc909254c0cb0ccf9b08880e44330bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 02/60] fix: xrange does not exist in Python 3, parameter
 estimation raised NameError

---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 pyparticleest/paramest/paramest.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index d4490ef..64bcae7 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -44,7 +44,7 @@ class ParamEstimation(Simulator):
 
         params_local = numpy.copy(param0)
         Q = -numpy.Inf
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
-- 
2.43.0


From 0c0663e45e1a7a9174506d750fc05e09d9d7d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 03/60] fix: NonlinearGaussian scalar densities used the
 standard deviation as the variance

lognormpdf_scalar expects the variance, but measure() and logp_xnext() passed
the (1x1) Cholesky factor, giving the wrong density for any scalar R or Q != 1
(logp_xnext could even exceed logp_xnext_max).
---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..9efb939 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From 26a34b7f457286fc65e25874890816db0878cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 04/60] fix: initial particles of nonlinear Gaussian models had
 the wrong covariance

The upper Cholesky factor was used untransposed and with uninitialised garbage
below the diagonal.
---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 9efb939..d93ad97 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From 6d276149c2e185457d967690111a0b3f51aee4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 05/60] fix: integer x0 made the particles integers, silently
 truncating all estimates

---
 pyparticleest/models/nlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index d93ad97..4b67a1d 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -385,7 +385,7 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
     def __init__(self, x0=None, Px0=None, lxi=None, **kwargs):
 
         if (x0 is not None):
-            self.x0 = numpy.copy(x0).reshape((-1, 1))
+            self.x0 = numpy.array(x0, dtype=float).reshape((-1, 1))
         elif (lxi is not None):
             self.x0 = numpy.zeros((lxi, 1))
         elif (Px0 is not None):
-- 
2.43.0


From e0d776dd94bebbd7e0b8862d001a6bb062de72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 06/60] fix: LTV smoothing always used the dynamics of the
 first time step

The backward pass evaluated the dynamics at u[0], t[0] (instead of the current
step) and conditioned every trajectory on the first filter particle.
---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..b1baae2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -277,11 +277,11 @@ class LTV(FFBSi, ParticleFiltering):
         res = numpy.empty((M, lz + 2 * lz ** 2))
         for j in range(M):
             if (future_trajs is not None):
-                zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
-                Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
+                Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From 765c557f2249ee802c5e8b65fc11c6b0d1ea57ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 07/60] fix: LTV gradient of log p(y|x) raised TypeError and
 used wrong transposes

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index b1baae2..665c586 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 5f6d7096dfb019c1f645159a4e21b4053b9e8ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 08/60] fix: LTV eval_logp_x0_val_grad summed over trajectories
 instead of averaging

The callers average the transition and measurement terms over the trajectories,
so with more than one trajectory the initial state was weighted M times too
heavily. Also allow the gradient of P0 to be omitted.
---
 pyparticleest/models/ltv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 665c586..92751e1 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -347,12 +347,18 @@ class LTV(FFBSi, ParticleFiltering):
             lpz0 = 0.0
             P0cho = scipy.linalg.cho_factor(self.P0)
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
+            if (P0_grad is None):
+                P0_grad = numpy.zeros((lparam, self.kf.lz, self.kf.lz))
+
             for i in range(N):
                 (l1, l1_grad) = self.calc_l1_grad(zl[i], Pl[i], self.z0, self.P0, z0_grad)
                 tmp = scipy.linalg.cho_solve(P0cho, l1)
                 lpz0 += -0.5 * (ld + numpy.trace(tmp))
                 for j in range(len(self.params)):
                     lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[j], l1, l1_grad[j])
+            # Average over the particles, as for the other terms
+            lpz0 /= N
+            lpz0_grad /= N
         return (lpz0, lpz0_grad)
 
 
-- 
2.43.0


From 92601b584110f3b256bf660b54022e479485b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 09/60] fix: the gradient of log p(x0) was averaged over the
 parameters

With more than one parameter every component of the gradient got the mean of
the initial-state gradient instead of its own component.
---
 pyparticleest/paramest/gradienttest.py | 2 +-
 pyparticleest/paramest/interfaces.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..a6d6036 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -62,7 +62,7 @@ class GradientTest(ParamEstimation):
                                                                                      self.straj.t)
                 (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
                                                                 self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, grad_logp_x0) = (numpy.mean(tmp1), tmp2)
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..721ea78 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -282,7 +282,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), tmp2)
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
-- 
2.43.0


From b770993a0d2da07ab590486d05946f9327964748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 10/60] fix: maximisation failed for models storing the
 parameters as a column vector

set_params() of the provided models stores a (n, 1) array, but scipy requires a
one-dimensional starting point and the gradients are accumulated in 1-d arrays.
---
 pyparticleest/models/mlnlg.py        | 10 +++++-----
 pyparticleest/paramest/interfaces.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..7a980b1 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -717,7 +717,7 @@ class MixedNLGaussianSampled(RBPSBase):
         Args:
          - xil (list): Initial xi states
         """
-        return numpy.zeros(self.params.shape)
+        return numpy.zeros(len(self.params))
 
     def eval_logp_x0(self, particles, t):
         """
@@ -754,7 +754,7 @@ class MixedNLGaussianSampled(RBPSBase):
            of all particles, with first dimension = N (number of particles)
          - t (float): time stamp
         """
-        lpz0_grad = numpy.zeros(self.params.shape)
+        lpz0_grad = numpy.zeros(len(self.params))
 
         # Calculate l1 according to (19a)
         N = len(particles)
@@ -873,7 +873,7 @@ class MixedNLGaussianSampled(RBPSBase):
         """
         N = len(particles)
         lpxn = 0.0
-        lpxn_grad = numpy.zeros(self.params.shape)
+        lpxn_grad = numpy.zeros(len(self.params))
 
         (A_grad, f_grad, Q_grad) = self.get_pred_dynamics_grad(particles=particles, u=u, t=t)
         if (A_grad is None and f_grad is None and Q_grad is None):
@@ -998,7 +998,7 @@ class MixedNLGaussianSampled(RBPSBase):
 
         N = len(particles)
         logpy = 0.0
-        lpy_grad = numpy.zeros(self.params.shape)
+        lpy_grad = numpy.zeros(len(self.params))
         (y, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(particles=particles, y=y, t=t)
         if (C_grad is None and h_grad is None and R_grad is None):
@@ -1154,7 +1154,7 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         """
         N = len(xil)
         (xi0_grad, Pxi0_grad) = self.get_xi_intitial_grad(N)
-        lpxi0_grad = numpy.zeros(self.params.shape)
+        lpxi0_grad = numpy.zeros(len(self.params))
         Pxi0cho = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             tmp = xil[i] - self.xi0
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 721ea78..0646572 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -255,7 +255,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
 
-        res = scipy.optimize.minimize(fun=fval, x0=self.params, method='l-bfgs-b', jac=False,
+        res = scipy.optimize.minimize(fun=fval, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=False,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
         return res.x
@@ -287,7 +287,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
 
-        res = scipy.optimize.minimize(fun=fval_grad, x0=self.params, method='l-bfgs-b', jac=True,
+        res = scipy.optimize.minimize(fun=fval_grad, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=True,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
 
-- 
2.43.0


From 0db92ade74c37e7b2517fd17567a19e84a838cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 11/60] fix: value of the gradient search objective was
 per-particle when a term has no gradient

---
 pyparticleest/paramest/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0646572..6eeff69 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -147,7 +147,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
                                                         straj.t[t])
-                logp_y += val
+                logp_y += numpy.sum(val)
                 logp_y_grad += grad
         return (logp_y / M, logp_y_grad / M)
 
@@ -162,7 +162,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         sest[t + 1],
                                                         straj.u[t],
                                                         straj.t[t])
-            logp_xnext += val
+            logp_xnext += numpy.sum(val)
             logp_xnext_grad += grad
 
         return (logp_xnext / M, logp_xnext_grad / M)
-- 
2.43.0


From f5f805c32348879c99a070a5a8368dcf5893efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 12/60] fix: mixed linear/nonlinear models failed for more than
 one nonlinear state

Column vectors were mixed with 1-d arrays, which only works when lxi == 1.
---
 pyparticleest/models/mlnlg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 7a980b1..9c5bd5f 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = (Axi[i].dot(zl[i]) + fxi[i]).ravel()
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
@@ -264,7 +264,7 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
             Qcond.append(Qz[i])
 
         return (Acond, fcond, Qcond)
@@ -1211,7 +1211,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             m = LHnl[j] - OHnl[j].dot(fz[j])
             Mt = F.T.dot(OHnl[j]).dot(F) + numpy.eye(lz)
             Tau_t = 0.0
-            xidiff = xinl[j] - fxi[j]
+            xidiff = xinl[j].reshape((-1, 1)) - fxi[j]
             Tau_t += xidiff.T.dot(numpy.linalg.solve(Qxi[j], xidiff))
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
-- 
2.43.0


From bf5bf368716d88bd6d59b910473cbbe089d288e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 13/60] fix: the linear states kept their full noise covariance
 given the next nonlinear state

With correlated noise, Cov(v_z | v_xi) = Qz - Qxiz^T Qxi^-1 Qxiz.
---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 9c5bd5f..d5079d8 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -265,7 +265,7 @@ class MixedNLGaussianSampled(RBPSBase):
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
             fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
-            Qcond.append(Qz[i])
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
-- 
2.43.0


From 46322341783bb3b2e4013392bd4c1b26eb8c27c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 14/60] fix: wrong sign in the backward weights of the
 marginalized MLNLG smoother

Integrating out the linear process noise subtracts ||F^T m||^2_{Mt^-1}.
---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index d5079d8..9925277 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1216,7 +1216,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From 647f7fc6a4cf2b99071acd42450eeae7ffff731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 15/60] fix: the marginalized MLNLG smoother ignored
 correlation between the process noises

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 9925277..76819fd 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1201,8 +1201,8 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         Omega = numpy.zeros_like(OHnl)
         Lambda = numpy.zeros_like(LHnl)
 
-        (Az, fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles=particles,
-                                                               u=u, t=t)
+        # Conditioned on the next nonlinear state, to account for noise correlation
+        (Az, fz, Qz) = self.calc_cond_dynamics(particles, xinl, u=u, t=t)
         (Axi, fxi, Qxi, _, _, _) = self.get_nonlin_pred_dynamics_int(particles=particles,
                                                                      u=u, t=t)
 
-- 
2.43.0


From 6f53da4828b9ef068dd39516491ef1188ec6164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 16/60] fix: the marginalized MLNLG smoother added measurement
 information for missing measurements

Also use the preprocessed measurement and accept models without h or C.
---
 pyparticleest/models/mlnlg.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 76819fd..d3faf75 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1330,8 +1330,6 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
-
         res[:, :lxi] = part[:, :lxi]
 
         if (future_trajs is not None):
@@ -1339,13 +1337,16 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, OHind:OHind + OHlen] = Omega[j].ravel()
                 res[j, LHind:] = Lambda[j].ravel()
 
-        for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
-                tmp = numpy.linalg.solve(Rz[j], Cz[j])
-                res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
-                                             hz[j])).ravel()
+        if (yt is not None and yt[cur_ind] is not None):
+            (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
+            for j in range(M):
+                if (Cz[j] is not None):
+                    tmp = numpy.linalg.solve(Rz[j], Cz[j])
+                    ydiff = numpy.asarray(y).reshape((-1, 1))
+                    if (hz[j] is not None):
+                        ydiff = ydiff - hz[j]
+                    res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
+                    res[j, LHind:] += (tmp.T.dot(ydiff)).ravel()
 
         return res
 
-- 
2.43.0


From 8b070d3bdb5ebc78c9fc3084ef769543b6df8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 17/60] fix: MixedNLGaussianSampledInitialGaussian raised
 AttributeError for the default Pz0=None

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index d3faf75..9c3282a 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1044,12 +1044,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
             self.Pxi0 = numpy.copy((Pxi0))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pz0 is None):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From ee9be389bf2c4929e86a51fe847492d51afef31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 18/60] fix: MLNLG eval_logp_x0_val_grad had wrong default
 gradient shapes and mis-scaled the nonlinear part

---
 pyparticleest/models/mlnlg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 9c3282a..ac9ddd3 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -779,7 +779,7 @@ class MixedNLGaussianSampled(RBPSBase):
                 dl1 = -tmp - tmp.T
                 lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[i][j], l1, dl1)
 
-        return ((lpxi0 + lpz0) / N,
+        return ((numpy.sum(lpxi0) + lpz0) / N,
                 (lpxi0_grad + lpz0_grad) / N)
 
 
@@ -1113,8 +1113,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From a8f8e840b9147672cd5e0c5b4b0661be39d05aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 19/60] fix: MLNLG discarded the user-supplied gradient of C

---
 pyparticleest/models/mlnlg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index ac9ddd3..be275ec 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -936,7 +936,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
-- 
2.43.0


From a185cb96623ca7bd9dad4b168389db55b5640404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 20/60] fix: MLNLG eval_logp_y_val_grad raised
 UnboundLocalError for particle dependent R

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index be275ec..fb9254d 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1022,7 +1022,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
-- 
2.43.0


From e16272ec8a27da9241950e56b8eee53a70834fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 21/60] fix: MLNLG gradients raised TypeError for particle
 dependent A

compute_l2_grad_A indexes A as a three-dimensional array.
---
 pyparticleest/models/mlnlg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index fb9254d..3257e45 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -389,6 +389,7 @@ class MixedNLGaussianSampled(RBPSBase):
             A = list()
             for i in range(N):
                 A.append(numpy.vstack((Axi[i], Az[i])))
+            A = numpy.asarray(A)
 
         if (fxi_identical and fz_identical):
             f = N * (numpy.vstack((fxi[0], fz[0])),)
-- 
2.43.0


From 3daf22786022df5b700c4d58a2096cf5a899e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 22/60] fix: find_best_particles returned the particles with
 the smallest weights

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..86f50e2 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1139,5 +1139,5 @@ class ParticleApproximation(object):
 
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
-        indices = numpy.argsort(self.w)
+        indices = numpy.argsort(self.w)[::-1]
         return indices[range(n)]
-- 
2.43.0


From 1f1ee824a2b946a04fa6f1062f464efc1450d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 23/60] fix: the pfy filter proposed from the last element of
 the measurement storage

yvec can be longer than the data seen so far (T given, or measure() called
within the run), so yvec[-1] is not always the current measurement.
---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 86f50e2..4f60e8e 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -455,7 +455,8 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1],
+                                            t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
-- 
2.43.0


From 270ba7918d6bf30afa4975a2f4c7ecb7643540f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 24/60] fix: the SIR filter called measure_full, which SIR
 models do not have

Simulator.simulate(filter='SIR', meas_first=True) raised AttributeError.
---
 pyparticleest/filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 4f60e8e..7eed8f5 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -306,10 +306,9 @@ class SIR(object):
             pa_out = copy.deepcopy(pa)
             pa = pa_out
 
-        new_weights = self.model.measure_full(traj=traj, ancestors=ancestors,
-                                              particles=pa.part, uvec=uvec,
-                                              yvec=yvec[:cur_ind + 1],
-                                              tvec=tvec[:cur_ind + 1])
+        new_weights = self.model.measure(particles=pa.part,
+                                         y=yvec[cur_ind],
+                                         t=tvec[cur_ind])
 
         # Try to keep weights from going to -Inf
         m = numpy.max(new_weights)
-- 
2.43.0


From 692478d19bd0dcfa8daead6ac6d445be706d627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 25/60] fix: CSIRAS weights were not normalised and underflowed
 for small likelihoods

---
 pyparticleest/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 7eed8f5..1dfe528 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -388,6 +388,11 @@ class CSIRAS(SIR):
 
         pa.w = yw + nw - qw
 
+        # Keep the weights from going to -Inf
+        m = numpy.max(pa.w)
+        pa.w_offset += m
+        pa.w -= m
+
         pa.part[:] = pnext
         resampled = True
 
-- 
2.43.0


From dece500562d6b09bf8d0e94a3c6562afd72ad798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 26/60] fix: CSIRAS did not include the conditioned trajectory
 in the initial particles

Without it the conditional filter does not leave the smoothing
distribution invariant (compare CPF.create_initial_estimate).
---
 pyparticleest/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 1dfe528..47edc85 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -330,6 +330,11 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
-- 
2.43.0


From 62dfe0eaec51c8636bf5cf9f3e616ac5ec2fd72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 27/60] fix: the particle filter asked the model to evaluate
 missing measurements

The conditional filters and the MHIPS/MHBP smoothers already treat None as
'no measurement', ParticleFilter passed None on to model.measure.
---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 47edc85..b3e66ac 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -87,7 +87,7 @@ class ParticleFilter(object):
                          uvec=uvec, yvec=yvec,
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
-- 
2.43.0


From fc2a551a3116b66dc1cf46d4b149274b8f4e4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 28/60] fix: ParticleTrajectory.measure asked the model to
 evaluate missing measurements

---
 pyparticleest/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index b3e66ac..5eaf132 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -992,6 +992,9 @@ class ParticleTrajectory(object):
             self.yvec[self.ind] = y
             self.tvec[self.ind] = self.ind
 
+            if (y is None):
+                return
+
             self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
                             pa=self.traj[-1].pa, uvec=self.uvec,
                             yvec=self.yvec, tvec=self.tvec,
-- 
2.43.0


From 9f986749852892fd965fe8d7178d5cd39231e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 29/60] fix: the auxiliary particle filter raised
 UnboundLocalError for missing measurements

---
 pyparticleest/filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 5eaf132..655d200 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -687,6 +687,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
 
         resampled = False
 
+        l1w = None
         if (yvec is not None and yvec[cur_ind + 1] is not None):
             # TODO Generalize to non-Markovian
             l1w = self.model.eval_1st_stage_weights(pa.part, uvec[cur_ind],
@@ -698,7 +699,8 @@ class AuxiliaryParticleFilter(ParticleFilter):
         if (self.res and pa.calc_Neff() < self.res * pa.num):
             ancestors = pa.resample(self.model, pa.num)
             resampled = True
-            l1w = l1w[ancestors]
+            if (l1w is not None):
+                l1w = l1w[ancestors]
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
@@ -707,7 +709,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
 
-        if (yvec is not None):
+        if (l1w is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
-- 
2.43.0


From 3090d3cbac05f0ead99b938aedf9c1f541734316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 30/60] fix: SAEM could not be run for more than one iteration

numpy.copy(straj.traj) is a one-dimensional array of TrajectoryStep objects,
while the rest of the code (and maximize_weighted) works on (T, N, D) arrays.
---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 64bcae7..c212f3c 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
-- 
2.43.0


From 101d23e39176a370fd2bf03a0c4514e68ec4cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 31/60] fix: Simulator kept the smoothed estimates of the
 previous run when run without smoother

---
 pyparticleest/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyparticleest/simulator.py b/pyparticleest/simulator.py
index 3f40dab..378916e 100644
--- a/pyparticleest/simulator.py
+++ b/pyparticleest/simulator.py
@@ -89,6 +89,7 @@ class Simulator():
                   time step
         """
         resamplings = 0
+        self.straj = None
 
         # Initialise a particle filter with our particle approximation of the initial state,
         # set the resampling threshold to 0.67 (effective particles / total particles )
-- 
2.43.0


From bf3ba9af43df246d3e427e815d2e569266ea0093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 32/60] fix: PSAEM with raoblackwell=True maximised over
 uninitialised memory

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index c212f3c..10c5790 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -245,6 +245,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
-- 
2.43.0


From d52739e41bbdd2c96aa534ade27e80b1e952fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 33/60] fix: PSAEM ignored max_iter when a callback was given,
 and never terminated

---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 10c5790..174e0c1 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -286,7 +286,7 @@ class ParamEstimationPSAEM(Simulator):
 
             if (callback is not None):
                 rval = callback(params=params_local, Q=-numpy.Inf, cur_iter=i)
-                if (rval):
+                if (rval or i >= max_iter):
                     break
         return (params_local, -numpy.Inf)
 
-- 
2.43.0


From e6ecc2c9fb21e448654fe83227237ca50bc03fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 34/60] fix: Instrumenter failed for models without the
 optional methods

The smoother checks hasattr(model, 'post_smoothing'), which was always true
for an Instrumenter; other methods (qsample, propose_from_y, ...) were not
forwarded and the documented cnt_* members did not exist.
---
 pyparticleest/utils/intrument.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..f8e8680 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -61,12 +61,21 @@ class Instrumenter(object):
         self.model = model
         self.oc = OpCount()
 
+    def __getattr__(self, name):
+        # Only called for names not found on the Instrumenter itself; methods
+        # which are optional for a model must stay optional
+        if (name == 'model' or name == 'oc'):
+            raise AttributeError(name)
+        if (name.startswith('cnt_')):
+            return getattr(self.oc, name)
+        return getattr(self.model, name)
+
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
         print("cnt_sample: %d" % self.cnt_sample)
         print("cnt_update: %d" % self.cnt_update)
         print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
+        print("cnt_pdfxn: %d" % (self.cnt_pdfxn + self.cnt_pdfxn_full))
         print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
         print("cnt_propsmooth: %d" % self.cnt_propsmooth)
         print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
@@ -147,12 +156,6 @@ class Instrumenter(object):
         self.oc.cnt_eval1st += len(particles)
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
-    def pre_mhips_pass(self, st):
-        return self.model.pre_mhips_pass(st)
-
-    def post_smoothing(self, st):
-        return self.model.post_smoothing(st)
-
     def eval_logp_x0(self, particles, t):
         self.oc.cnt_eval_logp_x0 += len(particles)
         return self.model.eval_logp_x0(particles, t)
-- 
2.43.0


From d9e8cc92a02d5ef9b64bb28eb0a829003ca15c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 35/60] fix: MHBP only ever proposed one ancestor for each
 trajectory

pf.sample is systematic and returns sorted indices, so trajectory j was always
proposed (almost) the same particle. Compare bsi_mcmc.
---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..164a8e9 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -473,7 +473,7 @@ class SmoothTrajectory(object):
 
                 if (t > 0):
                     # Propose new ancestors
-                    panc = pf.sample(tmp, M)
+                    panc = numpy.random.permutation(pf.sample(tmp, M))
 
 
                 (pnew, acc) = mc_step(model=self.model,
-- 
2.43.0


From 027c5cae79a33cb3fbd28d559829a6ddcaf56566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 36/60] fix: MHBP raised UnboundLocalError for a single time
 step

---
 pyparticleest/smoother.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 164a8e9..ade6bf7 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -440,6 +440,8 @@ class SmoothTrajectory(object):
         tmp = tmp / numpy.sum(tmp)
         cind = pf.sample(tmp, M)
         find = numpy.arange(M, dtype=int)
+        anc = pt[-1].ancestors[cind]
+        panc = anc
 #        anc = pt[-1].ancestors[cind]
 #        last_part = self.model.sample_smooth(part=pt[-1].pa.part[cind],
 #                                             ptraj=pt[:-1],
-- 
2.43.0


From a721fcf3dd88d69d6ce6722549c1747cc7dba9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 37/60] fix: MHIPS raised IndexError for a single time step

---
 pyparticleest/smoother.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index ade6bf7..95c2a9f 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -528,7 +528,7 @@ class SmoothTrajectory(object):
         pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
-        pt = self.traj[:T - 1]
+        pt = self.traj[:T - 1] if (T > 1) else None
         (part, _acc) = mc_step(model=self.model,
                               part=self.traj[-1].pa.part,
                               ptraj=pt,
@@ -549,6 +549,8 @@ class SmoothTrajectory(object):
                                                   cur_ind=T - 1))
         straj[T - 1] = TrajectoryStep(ParticleApproximation(tmp), pind)
 
+        if (T == 1):
+            return straj
 
         for i in reversed(range(1, (T - 1))):
             ft = straj[(i + 1):]
@@ -674,7 +676,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
                               tvec=tt[:cur_ind],
                               ancestors=pind_prop, noise=noise)
         else:
-            xprop = model.create_initial_estimate(len(future_trajs[0].pa.part))
+            xprop = model.create_initial_estimate(len(part))
 
         # Drawing from p(x_{t+1}|x_t), so these will be identical
         logp_prev_prop = 0.0
-- 
2.43.0


From 878f7cb7860d900ba9a989e2dd3948656efe2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 38/60] fix: mhips_reduced raised TypeError when the last
 measurement is missing

---
 pyparticleest/smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 95c2a9f..c78f43b 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -744,8 +744,8 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
                                          uvec=ut[:cur_ind + 1], yvec=yt[:(cur_ind + 1)],
                                          tvec=tt[:cur_ind + 1], ancestors=pind_curr)
     else:
-        logp_y_prop = 0.0
-        logp_y_curr = 0.0
+        logp_y_prop = numpy.zeros(len(xpropy))
+        logp_y_curr = numpy.zeros(len(curparty))
 
     if (future_trajs is not None):
         logp_next_prop = model.logp_xnext_full(part=xpropy,
-- 
2.43.0


From acd6d213e8a7d7555ae91d2ced6c7ba093ae5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 39/60] fix: hierarchical models smoothed every trajectory
 using the state of the first one

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..c00e9e4 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
-- 
2.43.0


From 6b7e27160ce1afebff55e727056cb643c3505722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 40/60] fix: wrong maximum of the transition density for
 hierarchical models

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index c00e9e4..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From 37fc2d74a3e5736184c9dbbe634084d8a08f779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 41/60] fix: Rao-Blackwellized smoothing used the last element
 of the measurement storage

st.y can be longer than the trajectory (T given, or measure() called within
the run).
---
 pyparticleest/models/rbpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/rbpf.py b/pyparticleest/models/rbpf.py
index 81c6612..9985861 100644
--- a/pyparticleest/models/rbpf.py
+++ b/pyparticleest/models/rbpf.py
@@ -418,8 +418,8 @@ class RBPSBase(RBPFBase, interfaces.FFBSiRS):
             xin = st.traj[i + 1].pa.part[:, :self.lxi].reshape((M, self.lxi, 1))
             self.cond_predict(particles, xin, u=st.u[i], t=st.t[i])
 
-        if (st.y[-1] is not None):
-            self.measure(particles, y=st.y[-1], t=st.t[-1])
+        if (st.y[T - 1] is not None):
+            self.measure(particles, y=st.y[T - 1], t=st.t[T - 1])
 
         straj[-1] = TrajectoryStep(ParticleApproximation(particles),
                                    st.traj[-1].ancestors)
-- 
2.43.0


From 8822362a90f6c19dc6bdc123bc6e5cc81811afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 42/60] fix: log p(x0) of mixed linear/nonlinear models failed
 for known initial states

A zero covariance (the default for Pxi0 and Pz0) raised LinAlgError.
---
 pyparticleest/models/mlnlg.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 3257e45..b83677f 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -735,8 +735,10 @@ class MixedNLGaussianSampled(RBPSBase):
         (xil, zl, Pl) = self.get_states(particles)
         (z0, P0) = self.get_rb_initial(xil)
         lpxi0 = self.eval_logp_xi0(xil)
-        lpz0 = numpy.empty((N,))
+        lpz0 = numpy.zeros((N,))
         for i in range(N):
+            if (not numpy.any(P0[i])):
+                continue
             z0_diff = zl[i] - z0[i]
             l1 = z0_diff.dot(z0_diff.T) + Pl[i]
             P0cho = scipy.linalg.cho_factor(P0[i], check_finite=False)
@@ -766,6 +768,8 @@ class MixedNLGaussianSampled(RBPSBase):
         lpxi0_grad = self.eval_logp_xi0_grad(xil)
         lpz0 = 0.0
         for i in range(N):
+            if (not numpy.any(P0[i])):
+                continue
             z0_diff = zl[i] - z0[i]
             l1 = z0_diff.dot(z0_diff.T) + Pl[i]
             P0cho = scipy.linalg.cho_factor(P0[i], check_finite=False)
@@ -1127,6 +1131,13 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         """
         N = len(xil)
         res = numpy.empty((N,))
+        if (not numpy.any(self.Pxi0)):
+            for i in range(N):
+                if (numpy.array_equal(numpy.ravel(xil[i]), numpy.ravel(self.xi0))):
+                    res[i] = 0.0
+                else:
+                    res[i] = -numpy.Inf
+            return res
         Pchol = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             res[i] = kalman.lognormpdf_cho(xil[i] - self.xi0, Pchol)
@@ -1154,6 +1165,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         N = len(xil)
         (xi0_grad, Pxi0_grad) = self.get_xi_intitial_grad(N)
         lpxi0_grad = numpy.zeros(len(self.params))
+        if (not numpy.any(self.Pxi0)):
+            return lpxi0_grad
         Pxi0cho = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             tmp = xil[i] - self.xi0
-- 
2.43.0


From 76fb956e43eaf77814a802d03a97c8b68d31f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 43/60] fix: drawing from a particle approximation underflowed
 for small log-weights

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 655d200..238ce6f 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1143,7 +1143,7 @@ class ParticleApproximation(object):
 
         Returns:
          (array-like) sampled particle"""
-        return self.part[sample(numpy.exp(self.w), 1)[0]]
+        return self.part[sample(numpy.exp(self.w - numpy.max(self.w)), 1)[0]]
 
     def find_best_particles(self, n=1):
         """
-- 
2.43.0


From a146a596b49dea26b5db0d91d64a3b2a9353451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 44/60] fix: history passed with a measurement of the current
 step included that step

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 238ce6f..40af0b8 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -997,7 +997,7 @@ class ParticleTrajectory(object):
             if (y is None):
                 return
 
-            self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
+            self.pf.measure(traj=self.traj[:-1], ancestors=self.traj[-1].ancestors,
                             pa=self.traj[-1].pa, uvec=self.uvec,
                             yvec=self.yvec, tvec=self.tvec,
                             cur_ind=self.ind, inplace=True)
-- 
2.43.0


From 3adb863346360cc1f316a93c7ba4e81f1ab871dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 45/60] fix: hierarchical models scored the linear state in
 single step densities

---
 pyparticleest/models/hierarchial.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 3b731bb..024911d 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -135,6 +135,27 @@ class HierarchicalBase(RBPSBase):
 
         return lpxi + lpz
 
+    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
+        """
+        Return the log-pdf value for the possible future nonlinear states
+        'next' given input u.
+
+        Args:
+         - part  (array-like): Model specific representation
+           of all particles, with first dimension = N (number of particles)
+         - future_parts (array-like): particle estimates for t+1
+         - find (array-like): index in future_parts for each particle in part
+         - ut (array-like): input signals for {0:T}
+         - yt (array-like): measurements for {0:T}
+         - tt (array-like): time stamps for {0:T}
+         - cur_ind (int): index of current timestep (in ut, yt and tt)
+
+        Returns:
+         (array-like) with first dimension = N, logp(xi_{t+1}|x_t^i)
+        """
+        return self.logp_xnext_xi(part, future_parts[find][:, :self.lxi],
+                                  ut[cur_ind], tt[cur_ind]).ravel()
+
     def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
         """
         Sampled linear state conditioned on future_trajs
-- 
2.43.0


From 2f551848782a250f088fdf9e1044988c9bb447e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 46/60] fix: PSAEM replaced the conditioned trajectory in the
 caller's filter options

---
 pyparticleest/paramest/paramest.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 174e0c1..ad14ce1 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,6 +228,10 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
+        # The conditioned trajectory is replaced in each iteration, don't modify
+        # the options supplied by the user
+        filter_options = dict(filter_options)
+
         ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
@@ -332,6 +336,10 @@ class ParamEstimationPSAEM2(Simulator):
         alltrajs = None
         weights = numpy.empty((max_iter * num_part,))
 
+        # The conditioned trajectory is replaced in each iteration, don't modify
+        # the options supplied by the user
+        filter_options = dict(filter_options)
+
         datalen = 0
         for i in range(max_iter):
             self.set_params(params_local)
-- 
2.43.0


From 01d9a3222fe150272a985efb36ae3a4c5095a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 47/60] fix: CPFYAS only accepted conditioned trajectories with
 a single particle

---
 pyparticleest/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 40af0b8..dba2b05 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -771,7 +771,7 @@ class CPFYAS(CPFAS):
         resampled = True
 
         partn = self.model.propose_from_y(self.N, y=yvec[cur_ind + 1], t=tvec[cur_ind + 1])
-        partn[-1] = self.ctraj[cur_ind + 1].pa.part
+        partn[-1] = self.ctraj[cur_ind + 1].pa.part[0]
 
         find = numpy.asarray(range(self.N))
 
@@ -810,7 +810,7 @@ class CPFYAS(CPFAS):
 
         assert(not inplace)
         part = self.model.propose_from_y(self.N, y=yvec[cur_ind], t=tvec[cur_ind])
-        part[-1] = self.ctraj[cur_ind].pa.part
+        part[-1] = self.ctraj[cur_ind].pa.part[0]
         pa = ParticleApproximation(part)
         return pa
 
-- 
2.43.0


From da6e81a1fcee6ebc197d2386a34d2c2fd025e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 48/60] fix: Instrumenter did not count the measurements of SIR
 filters

---
 pyparticleest/utils/intrument.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index f8e8680..47d6c4a 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -106,6 +106,11 @@ class Instrumenter(object):
         self.oc.cnt_measure += len(particles)
         return self.model.measure_full(particles, traj, uvec, yvec, tvec, ancestors)
 
+    def measure(self, particles, y, t):
+        """ Return the log-pdf value of the measurement """
+        self.oc.cnt_measure += len(particles)
+        return self.model.measure(particles=particles, y=y, t=t)
+
     def copy_ind(self, particles, new_ind=None):
         return self.model.copy_ind(particles, new_ind)
 
-- 
2.43.0


From 74518f41ea65813e58ff313e045446341d7fe615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 49/60] fix: hierarchical models without a constant measurement
 offset raised TypeError

---
 pyparticleest/models/hierarchial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 024911d..ab9ad37 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -53,7 +53,10 @@ class HierarchicalBase(RBPSBase):
         if (Cz is None):
             Cz = numpy.repeat(self.kf.C[numpy.newaxis, :, :], N, axis=0)
         if (hz is None):
-            hz = numpy.repeat(self.kf.h_k[numpy.newaxis, :, :], N, axis=0)
+            if (self.kf.h_k is None):
+                hz = N * (None,)
+            else:
+                hz = numpy.repeat(self.kf.h_k[numpy.newaxis, :, :], N, axis=0)
         if (Rz is None):
             Rz = numpy.repeat(self.kf.R[numpy.newaxis, :, :], N, axis=0)
 
-- 
2.43.0


From 545016a5e4e25623931b3ecf461cdca470a353b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 50/60] fix: LTV matrices given for one step were used for
 steps without them

---
 pyparticleest/models/ltv.py | 87 +++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 38 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 92751e1..9238ff8 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -133,6 +133,26 @@ class LTV(FFBSi, ParticleFiltering):
         """
         return (None, None, None)
 
+    def _pred_dynamics(self, u, t):
+        """
+        Matrices (A, f, Q) of a single step, using the stored values for those
+        not given by get_pred_dynamics
+        """
+        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
+        return (self.kf.A if A is None else A,
+                self.kf.f_k if f is None else f,
+                self.kf.Q if Q is None else Q)
+
+    def _meas_dynamics(self, y, t):
+        """
+        Measurement and matrices (y, C, h, R) of a single step, using the stored
+        values for those not given by get_meas_dynamics
+        """
+        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
+        return (y, self.kf.C if C is None else C,
+                self.kf.h_k if h is None else h,
+                self.kf.R if R is None else R)
+
     def update(self, particles, u, t, noise):
         """ Propagate estimate forward in time
 
@@ -150,11 +170,10 @@ class LTV(FFBSi, ParticleFiltering):
         # Update linear estimate with data from measurement of next non-linear
         # state
         (zl, Pl) = self.get_states(particles)
-        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
-        self.kf.set_dynamics(A=A, Q=Q, f_k=f)
+        (A, f, Q) = self._pred_dynamics(u=u, t=t)
         for i in range(len(zl)):
             # Predict z_{t+1}
-            (zl[i], Pl[i]) = self.kf.predict(zl[i], Pl[i])
+            (zl[i], Pl[i]) = self.kf.predict_full(zl[i], Pl[i], A, f, Q)
 
         # Predict next states conditioned on eta_next
         self.set_states(particles, zl, Pl)
@@ -199,12 +218,11 @@ class LTV(FFBSi, ParticleFiltering):
 
 
         (zl, Pl) = self.get_states(particles)
-        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
-        self.kf.set_dynamics(C=C, R=R, h_k=h)
+        (y, C, h, R) = self._meas_dynamics(y=y, t=t)
         lyz = numpy.empty((len(particles)))
         for i in range(len(zl)):
             # Predict z_{t+1}
-            lyz[i] = self.kf.measure(y, zl[i], Pl[i])
+            lyz[i] = self.kf.measure_full(y, zl[i], Pl[i], C, h, R)
 
         self.set_states(particles, zl, Pl)
         return lyz
@@ -279,10 +297,8 @@ class LTV(FFBSi, ParticleFiltering):
             if (future_trajs is not None):
                 zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
                 Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
-                self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
-                                              self.kf.f_k, self.kf.Q)
+                (A, f, Q) = self._pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, A, f, Q)
             else:
                 zs = zl[j]
                 Ps = Pl[j]
@@ -379,8 +395,7 @@ class LTV(FFBSi, ParticleFiltering):
         N = len(particles)
         (zl, Pl) = self.get_states(particles)
         (zn, Pn) = self.get_states(x_next)
-        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
-        self.kf.set_dynamics(A=A, Q=Q, f_k=f)
+        (A, f, Q) = self._pred_dynamics(u=u, t=t)
         self.t = t
         lpxn = numpy.empty(N)
 
@@ -388,9 +403,9 @@ class LTV(FFBSi, ParticleFiltering):
             lz = len(self.z0)
             lzP = lz + lz * lz
             Mz = particles[k][lzP:].reshape((lz, lz))
-            (l2, _A, _M_ext, _predict_err) = self.calc_l2(zn[k], Pn[k], zl[k], Pl[k], self.kf.A, self.kf.f_k, Mz)
-            (_tmp, ld) = numpy.linalg.slogdet(self.kf.Q)
-            tmp = numpy.linalg.solve(self.kf.Q, l2)
+            (l2, _A, _M_ext, _predict_err) = self.calc_l2(zn[k], Pn[k], zl[k], Pl[k], A, f, Mz)
+            (_tmp, ld) = numpy.linalg.slogdet(Q)
+            tmp = numpy.linalg.solve(Q, l2)
             lpxn[k] = -0.5 * (ld + numpy.trace(tmp))
 
         return lpxn
@@ -412,15 +427,14 @@ class LTV(FFBSi, ParticleFiltering):
         lparam = len(self.params)
         (zl, Pl) = self.get_states(particles)
         (zn, Pn) = self.get_states(x_next)
-        (A, f, Q) = self.get_pred_dynamics(u=u, t=t)
+        (A, f, Q) = self._pred_dynamics(u=u, t=t)
         (A_grad, f_grad, Q_grad) = self.get_pred_dynamics_grad(u=u, t=t)
         lpxn_grad = numpy.zeros(lparam)
         if (A_grad is None and f_grad is None and Q_grad is None):
             lpxn = self.eval_logp_xnext(particles, x_next, u, t)
         else:
-            self.kf.set_dynamics(A=A, Q=Q, f_k=f)
             lpxn = 0.0
-            Qcho = scipy.linalg.cho_factor(self.kf.Q, check_finite=False)
+            Qcho = scipy.linalg.cho_factor(Q, check_finite=False)
             ld = numpy.sum(numpy.log(numpy.diagonal(Qcho[0]))) * 2
 
             if (Q_grad is None):
@@ -430,7 +444,7 @@ class LTV(FFBSi, ParticleFiltering):
                 lz = len(self.z0)
                 lzP = lz + lz * lz
                 Mz = particles[k][lzP:].reshape((lz, lz))
-                (l2, l2_grad) = self.calc_l2_grad(zn[k], Pn[k], zl[k], Pl[k], self.kf.A, self.kf.f_k, Mz, A_grad, f_grad)
+                (l2, l2_grad) = self.calc_l2_grad(zn[k], Pn[k], zl[k], Pl[k], A, f, Mz, A_grad, f_grad)
                 tmp = scipy.linalg.cho_solve(Qcho, l2)
                 lpxn += -0.5 * (ld + numpy.trace(tmp))
 
@@ -454,15 +468,14 @@ class LTV(FFBSi, ParticleFiltering):
         """
         N = len(particles)
         self.t = t
-        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
-        self.kf.set_dynamics(C=C, R=R, h_k=h)
+        (y, C, h, R) = self._meas_dynamics(y=y, t=t)
         (zl, Pl) = self.get_states(particles)
         logpy = numpy.empty(N)
         for i in range(N):
             # Calculate l3 according to (19b)
-            l3 = self.calc_l3(y, zl[i], Pl[i])
-            (_tmp, ld) = numpy.linalg.slogdet(self.kf.R)
-            tmp = numpy.linalg.solve(self.kf.R, l3)
+            l3 = self.calc_l3(y, zl[i], Pl[i], C, h)
+            (_tmp, ld) = numpy.linalg.slogdet(R)
+            tmp = numpy.linalg.solve(R, l3)
             logpy[i] = -0.5 * (ld + numpy.trace(tmp))
 
         return logpy
@@ -481,15 +494,13 @@ class LTV(FFBSi, ParticleFiltering):
         """
         N = len(particles)
         lparam = len(self.params)
-        (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
+        (y, C, h, R) = self._meas_dynamics(y=y, t=t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=y, t=t)
         logpy_grad = numpy.zeros(lparam)
         if (C_grad is None and h_grad is None and R_grad is None):
             logpy = self.eval_logp_y(particles, y, t)
         else:
-
-            self.kf.set_dynamics(C=C, R=R, h_k=h)
-            Rcho = scipy.linalg.cho_factor(self.kf.R, check_finite=False)
+            Rcho = scipy.linalg.cho_factor(R, check_finite=False)
             ld = numpy.sum(numpy.log(numpy.diagonal(Rcho[0]))) * 2
             (zl, Pl) = self.get_states(particles)
             logpy = 0.0
@@ -500,7 +511,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C, h, C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -607,25 +618,25 @@ class LTV(FFBSi, ParticleFiltering):
                 l2_grad[j] += tmp + tmp.T
         return (l2, l2_grad)
 
-    def calc_l3(self, y, z, P):
+    def calc_l3(self, y, z, P, C, h):
         """ internal helper function """
         meas_diff = self.kf.measurement_diff(y.reshape((-1, 1)),
                                              z,
-                                             C=self.kf.C,
-                                             h_k=self.kf.h_k)
+                                             C=C,
+                                             h_k=h)
         l3 = meas_diff.dot(meas_diff.T)
-        l3 += self.kf.C.dot(P).dot(self.kf.C.T)
+        l3 += C.dot(P).dot(C.T)
         return l3
 
-    def calc_l3_grad(self, y, z, P, C_grad, h_grad):
+    def calc_l3_grad(self, y, z, P, C, h, C_grad, h_grad):
         """ internal helper function """
         lparam = len(self.params)
         meas_diff = self.kf.measurement_diff(y.reshape((-1, 1)),
                                              z,
-                                             C=self.kf.C,
-                                             h_k=self.kf.h_k)
+                                             C=C,
+                                             h_k=h)
         l3 = meas_diff.dot(meas_diff.T)
-        l3 += self.kf.C.dot(P).dot(self.kf.C.T)
+        l3 += C.dot(P).dot(C.T)
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
@@ -635,6 +646,6 @@ class LTV(FFBSi, ParticleFiltering):
             for j in range(lparam):
                 tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
+                tmp = C_grad[j].dot(P).dot(C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From ba2773cd7e30d1f19269a3cfef18afcca20947e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 51/60] fix: measurements were preprocessed twice when their
 log-density has no gradient

---
 pyparticleest/models/ltv.py   | 8 ++++----
 pyparticleest/models/mlnlg.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 9238ff8..a4397bf 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,8 +494,8 @@ class LTV(FFBSi, ParticleFiltering):
         """
         N = len(particles)
         lparam = len(self.params)
-        (y, C, h, R) = self._meas_dynamics(y=y, t=t)
-        (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=y, t=t)
+        (yp, C, h, R) = self._meas_dynamics(y=y, t=t)
+        (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=yp, t=t)
         logpy_grad = numpy.zeros(lparam)
         if (C_grad is None and h_grad is None and R_grad is None):
             logpy = self.eval_logp_y(particles, y, t)
@@ -506,12 +506,12 @@ class LTV(FFBSi, ParticleFiltering):
             logpy = 0.0
 
             if (R_grad is None):
-                R_grad = numpy.zeros((len(self.params), len(y), len(y)))
+                R_grad = numpy.zeros((len(self.params), len(yp), len(yp)))
 
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C, h, C_grad, h_grad)
+                (l3, l3_grad) = self.calc_l3_grad(yp, zl[i], Pl[i], C, h, C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index b83677f..ab9215a 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1003,17 +1003,17 @@ class MixedNLGaussianSampled(RBPSBase):
         N = len(particles)
         logpy = 0.0
         lpy_grad = numpy.zeros(len(self.params))
-        (y, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
-        (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(particles=particles, y=y, t=t)
+        (yp, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
+        (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(particles=particles, y=yp, t=t)
         if (C_grad is None and h_grad is None and R_grad is None):
             logpy = self.eval_logp_y(particles, y, t)
         else:
             if (R_grad is None):
-                R_grad = N * (numpy.zeros((len(self.params), len(y), len(y))),)
+                R_grad = N * (numpy.zeros((len(self.params), len(yp), len(yp))),)
 
             (_xil, zl, Pl) = self.get_states(particles)
 
-            (l3, l3_grad) = self.calc_l3_grad(y, zl, Pl, Cz, hz, C_grad, h_grad)
+            (l3, l3_grad) = self.calc_l3_grad(yp, zl, Pl, Cz, hz, C_grad, h_grad)
 
             if (Rz_identical):
                 Rzcho = scipy.linalg.cho_factor(Rz[0], check_finite=False)
-- 
2.43.0


From c5201f72e521a68169e6eaa9dc6200ea28ae440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 52/60] fix: measure_full was passed the whole input storage
 instead of the inputs up to the current step

---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index dba2b05..aa61a1c 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -152,7 +152,8 @@ class ParticleFilter(object):
             pa = pa_out
 
         new_weights = self.model.measure_full(traj=traj, ancestors=ancestors,
-                                              particles=pa.part, uvec=uvec,
+                                              particles=pa.part,
+                                              uvec=uvec[:cur_ind + 1],
                                               yvec=yvec[:cur_ind + 1],
                                               tvec=tvec[:cur_ind + 1])
 
-- 
2.43.0


From 7d7b81da7ea26563aa53bdf063a1edb33458ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:05 +0000
Subject: [PATCH 53/60] fix: integer measurements raised in the expected
 measurement log-densities

---
 pyparticleest/models/ltv.py   | 4 ++--
 pyparticleest/models/mlnlg.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index a4397bf..30fb6f8 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -620,7 +620,7 @@ class LTV(FFBSi, ParticleFiltering):
 
     def calc_l3(self, y, z, P, C, h):
         """ internal helper function """
-        meas_diff = self.kf.measurement_diff(y.reshape((-1, 1)),
+        meas_diff = self.kf.measurement_diff(numpy.asarray(y, dtype=float).reshape((-1, 1)),
                                              z,
                                              C=C,
                                              h_k=h)
@@ -631,7 +631,7 @@ class LTV(FFBSi, ParticleFiltering):
     def calc_l3_grad(self, y, z, P, C, h, C_grad, h_grad):
         """ internal helper function """
         lparam = len(self.params)
-        meas_diff = self.kf.measurement_diff(y.reshape((-1, 1)),
+        meas_diff = self.kf.measurement_diff(numpy.asarray(y, dtype=float).reshape((-1, 1)),
                                              z,
                                              C=C,
                                              h_k=h)
diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index ab9215a..1e49a64 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -924,6 +924,7 @@ class MixedNLGaussianSampled(RBPSBase):
     def calc_l3(self, y, zl, Pl, Cl, hl):
         """ internal helper function """
         N = len(zl)
+        y = numpy.asarray(y, dtype=float)
         l3 = numpy.zeros((N, len(y), len(y)))
         for i in range(N):
             meas_diff = self.kf.measurement_diff(y, zl[i], Cl[i], hl[i])
@@ -933,6 +934,7 @@ class MixedNLGaussianSampled(RBPSBase):
     def calc_l3_grad(self, y, zl, Pl, Cl, hl, C_grad, h_grad):
         """ internal helper function """
         N = len(zl)
+        y = numpy.asarray(y, dtype=float)
         l3 = numpy.zeros((N, len(y), len(y)))
         diff_l3 = numpy.zeros((N, len(self.params), len(y), len(y)))
 
-- 
2.43.0


From 8a608e66ba53349ac21e8814ad1eb4e61505e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:05 +0000
Subject: [PATCH 54/60] fix: integer transition matrices or gradients were
 rejected by the compiled gradients

---
 pyparticleest/models/mlnlg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 1e49a64..b685ff2 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -814,8 +814,10 @@ class MixedNLGaussianSampled(RBPSBase):
         tmp2 = numpy.zeros((self.lxi + self.kf.lz, self.kf.lz), dtype=numpy.double, order='C')
         if (f_grad is not None):
             mlnlg_compute.compute_l2_grad_f(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
-                              perr, f_grad, tmp1)
+                              perr, numpy.asarray(f_grad, dtype=numpy.double), tmp1)
         if (A_grad is not None):
+            A = numpy.asarray(A, dtype=numpy.double)
+            A_grad = numpy.asarray(A_grad, dtype=numpy.double)
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
                               perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
         return (l2, diff_l2)
-- 
2.43.0


From 674108275f21040ed199350422cc913e1189f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:43 +0000
Subject: [PATCH 55/60] fix: integer nonlinear log-densities truncated the
 linear part of hierarchical models

---
 pyparticleest/models/hierarchial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index ab9ad37..ec29665 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -60,7 +60,7 @@ class HierarchicalBase(RBPSBase):
         if (Rz is None):
             Rz = numpy.repeat(self.kf.R[numpy.newaxis, :, :], N, axis=0)
 
-        lyz = numpy.empty_like(lyxi)
+        lyz = numpy.empty(N)
         for i in range(len(zl)):
             lyz[i] = self.kf.measure_full(numpy.asarray(y).reshape((-1, 1)),
                                           zl[i], Pl[i], Cz[i], hz[i], Rz[i])
@@ -277,7 +277,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         N = len(particles)
         lpxi = self.logp_xnext_xi_max(particles, u, t)
         (Az, _fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles, u, t)
-        lpz = numpy.empty_like(lpxi)
+        lpz = numpy.empty(N)
         (_xil, _zl, Pl) = self.get_states(particles)
         nx = len(Qz[0])
         for i in range(N):
-- 
2.43.0


From 9f169a12a7c845ca7adeb76ae55bcc8b91b6552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:35 +0000
Subject: [PATCH 56/60] fix: drawing indices with integer weights raised a
 casting error

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index aa61a1c..c460368 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -17,7 +17,7 @@ def sample(w, n):
     - n (int):  number of indices to sample
     """
 
-    wc = numpy.cumsum(w)
+    wc = numpy.cumsum(w, dtype=float)
     wc /= wc[-1] # Normalize
     u = (range(n) + numpy.random.rand(1)) / n
     return numpy.searchsorted(wc, u)
-- 
2.43.0


From 62997f45fa31aaa2992e363dbd72f2d6b3757988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:35 +0000
Subject: [PATCH 57/60] fix: the particle stochastic approximation EMs rejected
 the documented arrays of particle numbers

---
 pyparticleest/paramest/paramest.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index ad14ce1..2a79df3 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -232,16 +232,24 @@ class ParamEstimationPSAEM(Simulator):
         # the options supplied by the user
         filter_options = dict(filter_options)
 
-        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
             self.set_params(params_local)
 
-            self.simulate(num_part, M, filter=filter, filter_options=filter_options,
+            if (numpy.isscalar(num_part)):
+                nump = num_part
+            else:
+                if (i <= len(num_part)):
+                    nump = num_part[i - 1]
+                else:
+                    nump = num_part[-1]
+
+            self.simulate(nump, M, filter=filter, filter_options=filter_options,
                           smoother=smoother, meas_first=meas_first)
 
             if (raoblackwell == True):
+                ind = numpy.asarray(range(nump), dtype=int)
                 tmp = self.straj.calculate_ancestors(self.pt, ind)
                 w = numpy.exp(self.pt.traj[-1].pa.w)
                 w = numpy.copy(w / numpy.sum(w))
@@ -334,7 +342,7 @@ class ParamEstimationPSAEM2(Simulator):
 
         params_local = numpy.copy(param0)
         alltrajs = None
-        weights = numpy.empty((max_iter * num_part,))
+        weights = numpy.empty((max_iter,))
 
         # The conditioned trajectory is replaced in each iteration, don't modify
         # the options supplied by the user
@@ -344,7 +352,15 @@ class ParamEstimationPSAEM2(Simulator):
         for i in range(max_iter):
             self.set_params(params_local)
 
-            self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
+            if (numpy.isscalar(num_part)):
+                nump = num_part
+            else:
+                if (i < len(num_part)):
+                    nump = num_part[i]
+                else:
+                    nump = num_part[-1]
+
+            self.simulate(nump, 1, filter=filter, filter_options=filter_options,
                           smoother=smoother, smoother_options=smoother_options,
                           meas_first=meas_first)
 
-- 
2.43.0


From fe3ce83353f5093a24b91aa3a10c30b613ac4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:35 +0000
Subject: [PATCH 58/60] fix: the particle stochastic approximation EMs failed
 without filter options

---
 pyparticleest/paramest/paramest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 2a79df3..3b3ed81 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -230,7 +230,7 @@ class ParamEstimationPSAEM(Simulator):
 
         # The conditioned trajectory is replaced in each iteration, don't modify
         # the options supplied by the user
-        filter_options = dict(filter_options)
+        filter_options = dict(filter_options or {})
 
         i = 0;
         while (True):
@@ -346,7 +346,7 @@ class ParamEstimationPSAEM2(Simulator):
 
         # The conditioned trajectory is replaced in each iteration, don't modify
         # the options supplied by the user
-        filter_options = dict(filter_options)
+        filter_options = dict(filter_options or {})
 
         datalen = 0
         for i in range(max_iter):
-- 
2.43.0


From a34a0156ad9555728352602bdb20fa7fbbe78504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:39 +0000
Subject: [PATCH 59/60] fix: parameter sweeps of GradientTest with whole-number
 parameters

The swept value was stored in a copy of the current parameters, which for
integer parameters truncated it.
---
 pyparticleest/paramest/gradienttest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index a6d6036..3035b1c 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -40,7 +40,7 @@ class GradientTest(ParamEstimation):
             grad_logpxn = numpy.zeros((param_steps, len(self.params)))
             grad_logpx0 = numpy.zeros((param_steps, len(self.params)))
         for k in range(param_steps):
-            tmp = numpy.copy(self.params)
+            tmp = numpy.array(self.params, dtype=float)
             tmp[param_id] = param_vals[k]
             self.set_params(tmp)
             logpy[k] = self.model.eval_logp_y_fulltraj(self.straj,
-- 
2.43.0


From 0b44e43579af89f012d8e9bda59fcab44bfff624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:03 +0000
Subject: [PATCH 60/60] fix: constant f given as a column in nonlinear Gaussian
 models

f as a column was broadcast along the wrong axis: an error, or wrong states
without notice when there are as many particles as states. g and x0 already
accept columns.
---
 pyparticleest/models/nlg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 4b67a1d..1cd16f1 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -100,6 +100,9 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
     def __init__(self, lxi, f=None, g=None, Q=None, R=None):
         if (f is not None):
             self.f = numpy.copy(f)
+            if (self.f.size == lxi):
+                # Broadcast against particles, also if given as a column
+                self.f = self.f.reshape((-1,))
         else:
             self.f = None
         if (g is not None):
-- 
2.43.0

