From 9707fd439e01f2babdc07f9598284fc1530eef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:56 +0000
Subject: [PATCH 01/65] fix: solve for the true kriging weights and multipliers
 in the null-space route

The fallback used when the block kriging system cannot be solved dropped the
covariance of the constrained part of the weights. It also solved a triangular
system as if it were symmetric and used the wrong Lagrange multipliers for the
variance.
---
 gpmp/core/kriging.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gpmp/core/kriging.py b/gpmp/core/kriging.py
index f34b37d..bbcaa42 100644
--- a/gpmp/core/kriging.py
+++ b/gpmp/core/kriging.py
@@ -232,24 +232,27 @@ def _kriging_predictor_nullspace(model, xi, xt, return_type=0):
     KW = gnp.matmul(K, W)
     G = gnp.matmul(W.T, KW)  # SPD in contrast space
 
-    # Solve alpha = G^{-1} Wᵀ K(Xi,Xt)
-    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit))
     # Solve beta  = Rq^{-T} P(Xt)ᵀ  (enforces unbiasedness constraints)
-    beta = gnp.solve(Rq.T, Pt.T, assume_a="sym")
+    beta = gnp.solve(Rq.T, Pt.T)
+    # Solve alpha = G^{-1} Wᵀ (K(Xi,Xt) - K Q1 beta)
+    Q1beta = gnp.matmul(Q1, beta)
+    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit - gnp.matmul(K, Q1beta)))
 
-    lambda_t = gnp.matmul(W, alpha) + gnp.matmul(Q1, beta)
+    lambda_t = gnp.matmul(W, alpha) + Q1beta
+    # Lagrange multipliers: Rq mu = Q1ᵀ (K(Xi,Xt) - K lambda)
+    mu = gnp.solve(Rq, gnp.matmul(Q1.T, Kit - gnp.matmul(K, lambda_t)))
 
     if return_type == -1:
         zt_posterior_variance = None
     elif return_type == 0:
         v0 = model.covariance(xt, xt, model.covparam, pairwise=True)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu))
         zt_posterior_variance = v0 - gnp.einsum("i..., i...", LM, RHS)
     elif return_type == 1:
         V0 = model.covariance(xt, xt, model.covparam, pairwise=False)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu))
         zt_posterior_variance = V0 - gnp.matmul(LM.T, RHS)
     else:
         raise ValueError("return_type must be in {-1,0,1}")
-- 
2.43.0


From 614ff37a846381e67ed8a641f6319482f6b9793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:38 +0000
Subject: [PATCH 02/65] fix: return infinity from the likelihoods when NumPy
 cannot factorise the covariance

NumPy signals a failed factorisation with LinAlgError, which is not a
RuntimeError. The likelihoods therefore raised with the NumPy backend and
returned infinity with the PyTorch backend.
---
 gpmp/core/likelihood.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpmp/core/likelihood.py b/gpmp/core/likelihood.py
index 4eb6179..9e7c1ae 100644
--- a/gpmp/core/likelihood.py
+++ b/gpmp/core/likelihood.py
@@ -44,7 +44,9 @@ def negative_log_likelihood_zero_mean(model, covparam, xi, zi):
     n = K.shape[0]
     try:
         Kinv_zi, C = gnp.cholesky_solve(K, zi)
-    except RuntimeError:
+    except Exception as exc:
+        if not (isinstance(exc, RuntimeError) or gnp._is_linalg_exception(exc)):
+            raise
         return gnp.safe_inf()
     norm2 = gnp.einsum("i..., i...", zi, Kinv_zi)
     ldetK = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
@@ -120,7 +122,9 @@ def negative_log_restricted_likelihood(model, covparam, xi, zi):
     G = compute_contrast_covariance(W, K)  # (n-q, n-q)
     try:
         WKWinv_Wzi, C = gnp.cholesky_solve(G, Wzi)
-    except RuntimeError:
+    except Exception as exc:
+        if not (isinstance(exc, RuntimeError) or gnp._is_linalg_exception(exc)):
+            raise
         return gnp.safe_inf()
     norm2 = gnp.einsum("i..., i...", Wzi, WKWinv_Wzi)
     ldetWKW = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
-- 
2.43.0


From d83404ae5de0763d4e05b5fbdb00c24b3a1680e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:51 +0000
Subject: [PATCH 03/65] fix: keep the Matern kernels finite at very large
 distances

The polynomial overflowed while the exponential underflowed, so the kernel
returned NaN instead of zero.
---
 gpmp/kernel/matern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpmp/kernel/matern.py b/gpmp/kernel/matern.py
index 8ce0002..029f1f6 100644
--- a/gpmp/kernel/matern.py
+++ b/gpmp/kernel/matern.py
@@ -25,7 +25,7 @@ def matern32_kernel(h):
     """
     nu = 3.0 / 2.0
     c = 2.0 * sqrt(nu)
-    t = c * h
+    t = gnp.minimum(c * h, 800.0)  # exp(-t) is zero beyond, avoid inf * 0
     return (1.0 + t) * gnp.exp(-t)
 
 
@@ -54,14 +54,15 @@ def maternp_kernel(p: int, h):
     gln = gnp.compute_gammaln(p)  # expects integer table access
     h = gnp.inftobigf(h)
     c = 2.0 * sqrt(p + 0.5)
-    twoch = 2.0 * c * h
+    ch = gnp.minimum(c * h, 800.0)  # exp(-ch) is zero beyond, avoid inf * 0
+    twoch = 2.0 * ch
     polynomial = gnp.ones(h.shape)
     for i in range(p):
         exp_log_combination = gnp.exp(
             gln[p + 1] - gln[2 * p + 1] + gln[p + i + 1] - gln[i + 1] - gln[p - i + 1]
         )
         polynomial += exp_log_combination * (twoch ** (p - i))
-    return gnp.exp(-c * h) * polynomial
+    return gnp.exp(-ch) * polynomial
 
 
 def maternp_covariance_ii_or_tt(x, p, param, pairwise=False):
-- 
2.43.0


From 9e06f9f47b56d7622c0059701f4288a35696ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:51 +0000
Subject: [PATCH 04/65] fix: centre points before the PyTorch distance
 computation

The squared distance was expanded without centring. Inputs far from the origin
lost all accuracy, unlike with the NumPy backend.
---
 gpmp/num/torch_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 91d6389..8698f91 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -789,11 +789,15 @@ def custom_sqrt(x):
 
 
 def cdist(x, y, zero_diagonal=True):
+    # distances are invariant to a common shift: centre to limit cancellation
+    center = x.detach().to(_torch_dtype).mean(0, keepdim=True)
     if x is y:
+        x = y = x - center
         # use view method: requires contiguous tensor
         x_norm = (x**2).sum(1).view(-1, 1)
         distances = x_norm + x_norm.t() - 2.0 * torch.mm(x, x.t())
     else:
+        x, y = x - center, y - center
         x_norm = (x**2).sum(1).view(-1, 1)
         y_norm = (y**2).sum(1).view(1, -1)
         distances = x_norm + y_norm - 2.0 * torch.mm(x, y.t())
-- 
2.43.0


From 445e5be61d62bebbcd95af8861b023a397302e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:26 +0000
Subject: [PATCH 05/65] fix: penalise large variances in the power-law prior

The penalty above the variance cut-off was added to the log-prior instead of
being subtracted, so very large variances were rewarded.
---
 gpmp/kernel/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/priors.py b/gpmp/kernel/priors.py
index 6eca6a5..08747fa 100644
--- a/gpmp/kernel/priors.py
+++ b/gpmp/kernel/priors.py
@@ -125,7 +125,7 @@ def log_prior_power_law(
     log_prior_lengths = (
         -lambda_lengthscales * gnp.sum(p) - gnp.sum(extra_low) - gnp.sum(extra_high)
     )
-    return log_prior_sigma2 + extra_sigma2 + log_prior_lengths
+    return log_prior_sigma2 - extra_sigma2 + log_prior_lengths
 
 
 def log_prior_reference(model, covparam, xi):
-- 
2.43.0


From aea0d1cc2d78a0e59359ad207caf382aed68dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:05 +0000
Subject: [PATCH 06/65] fix: accept constant inputs when computing length-scale
 limits with PyTorch

The finiteness test received a plain float, which PyTorch rejects.
---
 gpmp/kernel/bounds.py        | 2 +-
 gpmp/kernel/prior_helpers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/kernel/bounds.py b/gpmp/kernel/bounds.py
index b10eb65..49c98a4 100644
--- a/gpmp/kernel/bounds.py
+++ b/gpmp/kernel/bounds.py
@@ -34,7 +34,7 @@ def empirical_bounds_factory(
     bounds.append((gnp.log(var_lower_factor * emp_var), gnp.log(var_upper_factor * emp_var)))
     for j in range(d):
         min_gap = _minimum_nonzero_gap_distance_1d(xi[:, j])
-        if gnp.isfinite(min_gap):
+        if gnp.isfinite(gnp.asarray(min_gap)):
             rho_lower = length_lower_factor * min_gap
             bounds.append((neg_inf, -gnp.log(rho_lower)))
         else:
diff --git a/gpmp/kernel/prior_helpers.py b/gpmp/kernel/prior_helpers.py
index 8d4d255..3178519 100644
--- a/gpmp/kernel/prior_helpers.py
+++ b/gpmp/kernel/prior_helpers.py
@@ -53,7 +53,7 @@ def _componentwise_logrho_min_from_xi(xi):
     for j in range(d):
         xj = xi[:, j]
         min_gap = _minimum_nonzero_gap_distance_1d(xi[:, j])
-        vals.append(gnp.log(min_gap) if gnp.isfinite(min_gap) else -gnp.inf)
+        vals.append(gnp.log(min_gap) if gnp.isfinite(gnp.asarray(min_gap)) else -gnp.inf)
         ranges.append(gnp.max(xj) - gnp.min(xj))
     return gnp.asarray(vals), gnp.asarray(ranges)
 
-- 
2.43.0


From b78d7156e99bd99573e52fd361b3e33762251bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:24 +0000
Subject: [PATCH 07/65] fix: return the best visited point when the optimiser
 ends on NaN

---
 gpmp/kernel/parameter_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 721f3c1..88472b3 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -260,7 +260,7 @@ def autoselect_parameters(
     )
 
     # ensure returning best seen
-    if r.fun > best_criterion:
+    if best_params is not None and not r.fun <= best_criterion:  # worse or NaN
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From 71039fbacd972b2c970cd6c04c49b7a817dfb08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:24 +0000
Subject: [PATCH 08/65] fix: survive trial points where the criterion cannot be
 evaluated with PyTorch

---
 gpmp/num/torch_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 8698f91..1e7f822 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -588,7 +588,10 @@ class DifferentiableSelectionCriterion:
         if self._f_value is None:
             raise ValueError("Call 'evaluate_pre_grad(p)' before 'gradient(p)'")
 
-        if not torch.equal(asarray(p), self._p_value):
+        # NaN parameters can be proposed after a failed evaluation
+        if not torch.allclose(
+            asarray(p), self._p_value, rtol=0.0, atol=0.0, equal_nan=True
+        ):
             raise ValueError(
                 "The input 'p' in 'gradient' must be the same as in 'evaluate'"
             )
@@ -600,6 +603,8 @@ class DifferentiableSelectionCriterion:
             allow_unused=allow_unused,
         )[0]
         if gradients is None:
+            if not torch.isfinite(self._f_value):  # failed evaluation
+                return torch.full_like(self._p_value, float("nan"))
             raise RuntimeError("Gradient is None.")
         return gradients
 
-- 
2.43.0


From e1b7c0846de743bf0517cf92ae1fe9ff79202680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:24 +0000
Subject: [PATCH 09/65] fix: do not toggle requires_grad on the caller's
 parameters in batch criteria

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 1e7f822..14f057e 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -653,7 +653,7 @@ class BatchDifferentiableSelectionCriterion:
     @staticmethod
     def _prepare_param(param: TensorLike, *, req_grad: bool = False) -> torch.Tensor:
         """Convert to tensor and set `requires_grad` (no dtype/device casting)."""
-        param = asarray(param)
+        param = asarray(param).detach().clone()
         param.requires_grad_(req_grad)
         return param
 
-- 
2.43.0


From 7793a9f2b546024011e018733322940f7710007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:18 +0000
Subject: [PATCH 10/65] fix: survive batches where the criterion cannot be
 evaluated with PyTorch

---
 gpmp/num/torch_backend.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 14f057e..af1843d 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -700,8 +700,18 @@ class BatchDifferentiableSelectionCriterion:
         total, n = 0.0, 0
         for xb, zb in self._batches():
             bs = xb.shape[0]
-            loss = self.crit(p, xb, zb) * bs
-            g = torch.autograd.grad(loss, p, retain_graph=False)[0]
+            try:
+                loss = self.crit(p, xb, zb) * bs
+            except Exception as exc:
+                if not _is_linalg_exception(exc):
+                    raise
+                loss = safe_inf() * bs
+            failed = not torch.isfinite(loss)
+            g = torch.autograd.grad(
+                loss, p, retain_graph=False, allow_unused=bool(failed)
+            )[0]
+            if g is None:
+                g = torch.full_like(p, float("nan"))
             if grad is None:
                 grad = g
             else:
-- 
2.43.0


From f52e0790351d2066e7ed132417503ee87d3f0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:36 +0000
Subject: [PATCH 11/65] fix: return the point whose criterion value is the best
 one visited

---
 gpmp/kernel/parameter_selection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 88472b3..7959885 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -260,7 +260,12 @@ def autoselect_parameters(
     )
 
     # ensure returning best seen
-    if best_params is not None and not r.fun <= best_criterion:  # worse or NaN
+    # (r.fun can be NaN, or the value of a trial point other than r.x)
+    is_best = r.fun <= best_criterion and any(
+        J <= best_criterion and np.array_equal(p, r.x)
+        for p, J in zip(history_params, history_criterion)
+    )
+    if best_params is not None and not is_best:
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From f645dad8acfdcded1d31a46ca104e0592246efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:20 +0000
Subject: [PATCH 12/65] fix: keep automatic bounds around starts beyond the
 safety limits

---
 gpmp/kernel/parameter_selection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 7959885..c3bc44f 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -201,8 +201,13 @@ def autoselect_parameters(
     if bounds is None and bounds_auto:
         bounds = [
             (
-                max(param - bounds_delta, safe_lower),
-                min(param + bounds_delta, safe_upper),
+                # the safety limits do not apply to a start beyond them
+                max(param - bounds_delta, safe_lower)
+                if param >= safe_lower
+                else param - bounds_delta,
+                min(param + bounds_delta, safe_upper)
+                if param <= safe_upper
+                else param + bounds_delta,
             )
             for param in p0
         ]
-- 
2.43.0


From 43f5ed90cd48944f983eff12f443695b08f2335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:47 +0000
Subject: [PATCH 13/65] fix: cut k-fold indices at the fold boundaries with
 PyTorch

---
 gpmp/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 17f3b8d..adfa446 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -192,8 +192,8 @@ class Dataset:
                 gnp.full((n_splits - r,), base, dtype=int),
             ]
         )
-        bounds = gnp.cumsum(sizes, axis=0)[:-1]
-        folds = gnp.split(idx, bounds)
+        ends = [int(b) for b in gnp.cumsum(sizes, axis=0)]
+        folds = [idx[a:b] for a, b in zip([0] + ends[:-1], ends)]
 
         out: List[Tuple[Idx, Idx]] = []
         for k in range(n_splits):
-- 
2.43.0


From 126cb652d97c405675951a7f16dee8d032f6272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:47 +0000
Subject: [PATCH 14/65] fix: honour negative indices in sharded data sets and
 refuse invalid ones

---
 gpmp/dataloader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index adfa446..b315180 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -104,6 +104,10 @@ class Dataset:
 
     def __getitem__(self, idx: int) -> Tuple[Array, Array]:
         """Return ``(x[idx], z[idx])`` without full-array concatenation."""
+        if idx < 0:
+            idx += self.size
+        if not (0 <= idx < self.size):
+            raise IndexError("Sample index out of range")
         shard_idx = bisect.bisect_right(self._shard_bounds, idx)
         start = 0 if shard_idx == 0 else self._shard_bounds[shard_idx - 1]
         local_idx = idx - start
@@ -127,6 +131,9 @@ class Dataset:
         if indices.ndim != 1:
             raise ValueError("Subset indices must be 1D")
 
+        indices = gnp.where(indices < 0, indices + self.size, indices)
+        if ((indices < 0) | (indices >= self.size)).any():
+            raise IndexError("Subset index out of range")
         indices = gnp.sort(indices)  # enforce increasing order
         xs = []
         zs = []
-- 
2.43.0


From 3f378d2b685e4bd209a916d055ea41a4a3d34fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:47 +0000
Subject: [PATCH 15/65] fix: stop infinite loaders that have no batch to yield

---
 gpmp/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index b315180..8b5a7c0 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -409,7 +409,7 @@ class DataLoader:
                 yield self._fetch_batch(batch_idx)
 
             self._epoch += 1
-            if not self._infinite:
+            if not self._infinite or len(self) == 0:
                 break
 
     def _fetch_batch(self, batch_idx: Idx) -> Tuple[Array, Array]:
-- 
2.43.0


From 79ef409217321f95f9f6e82f0a6a3bf85f617d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:47 +0000
Subject: [PATCH 16/65] fix: divide data-set variances by the number of
 samples, as gnp.var does

---
 gpmp/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 8b5a7c0..8300d00 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -276,7 +276,7 @@ class Dataset:
             else:
                 total_var += shard_var
             n += data.shape[0]
-        return total_var / (n - 1)
+        return total_var / n
 
     def _reduce_std(self, x_or_z: str) -> Array:
         return gnp.sqrt(self._reduce_var(x_or_z))
-- 
2.43.0


From 4a5335f7c457f2e3bff6c0057fe0636f2936da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:47 +0000
Subject: [PATCH 17/65] fix: scale by the same standard deviation with both
 backends

---
 gpmp/dataloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 8300d00..afb99f8 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -562,7 +562,9 @@ class Normalizer:
 
     @staticmethod
     def fit(x: Array) -> "Normalizer":
-        return Normalizer(x.mean(axis=0, keepdims=True), x.std(axis=0, keepdims=True))
+        return Normalizer(
+            x.mean(axis=0, keepdims=True), gnp.std(x, axis=0, keepdims=True)
+        )
 
 
 class RobustScaler:
@@ -634,7 +636,7 @@ class ObservationScaler:
 
     @staticmethod
     def fit(z: Array) -> "ObservationScaler":
-        return ObservationScaler(z.mean(), z.std())
+        return ObservationScaler(z.mean(), gnp.std(z))
 
 
 # ======================================================================
-- 
2.43.0


From 000692a1a08a60b32b6972cde3f1de05486f0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:32 +0000
Subject: [PATCH 18/65] fix: ignore empty shards in data-set extrema

---
 gpmp/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index afb99f8..ba87643 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -230,6 +230,8 @@ class Dataset:
         lst = getattr(self, f"{x_or_z}_list")
         first = True
         for data in lst:
+            if data.shape[0] == 0:
+                continue
             shard_min = gnp.min(data, axis=0)
             if first:
                 global_min = shard_min
@@ -242,6 +244,8 @@ class Dataset:
         lst = getattr(self, f"{x_or_z}_list")
         first = True
         for data in lst:
+            if data.shape[0] == 0:
+                continue
             shard_max = gnp.max(data, axis=0)
             if first:
                 global_max = shard_max
-- 
2.43.0


From 23bf1de06bc2a60246cff167d2deb8129e8fec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:47 +0000
Subject: [PATCH 19/65] fix: store parameter values as floating-point numbers

---
 gpmp/parameter/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 6cb37c2..2949518 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,7 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        self._values = gnp.asarray(new_values)
+        self._values = gnp.asarray(new_values, dtype=float)
         self.dim = len(self._values)
 
     @property
-- 
2.43.0


From b57879e721e137ed180286d8cc61dcb1707bc120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:47 +0000
Subject: [PATCH 20/65] fix: do not alias the container when a parameter is
 read by name with PyTorch

---
 gpmp/parameter/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 2949518..c5b2ee6 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -176,7 +176,7 @@ class Param:
         self, name: str, return_view: bool = False
     ) -> Union[float, gnp.ndarray]:
         idx = self.names.index(name)
-        return self._values[idx : idx + 1] if return_view else self._values[idx]
+        return self._values[idx : idx + 1] if return_view else gnp.copy(self._values)[idx]
 
     def set_by_name(self, name: str, new_value: float) -> None:
         idx = self.names.index(name)
-- 
2.43.0


From d46d991282779396dbff88292962ae325a1ae811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:23 +0000
Subject: [PATCH 21/65] fix: keep the Robbins-Monro adaptation factor positive
 until the end of burn-in

---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 69f1162..c9a3a85 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -259,7 +259,7 @@ class MetropolisHastings:
         returns base * final_frac.
 
         """
-        cosine_component = math.cos(math.pi * n / n_total)
+        cosine_component = 0.5 * (1.0 + math.cos(math.pi * n / n_total))
         return base * (final_frac + (1 - final_frac) * cosine_component)
 
     def _validate_scheduler_args(self, n_steps_total: int, burnin: int):
-- 
2.43.0


From 93fd77d4dd6660552031fe6b277a9864fcb13065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:23 +0000
Subject: [PATCH 22/65] fix: run long burn-in periods with a single chain

---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index c9a3a85..b25a1b1 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -567,7 +567,7 @@ class MetropolisHastings:
             else:
                 raise ValueError("adaptation_method must be 'RM' or 'Haario'.")
             # Early stopping diagnostics: check if we have enough samples and convergence is achieved
-            if diag and self.global_iter >= n_diag_samples:
+            if diag and self.n_chains >= 2 and self.global_iter >= n_diag_samples:
                 rates = self.compute_sliding_rates(self.options.sliding_rate_width)
                 i0 = max(0, self.global_iter - n_diag_samples)
                 i1 = self.global_iter
-- 
2.43.0


From 9e5c191210c719ddaf6dc1dd44d27b9b363c6a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:23 +0000
Subject: [PATCH 23/65] fix: compute the Kolmogorov-Smirnov fractions with
 PyTorch

---
 gpmp/mcmc/mh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index b25a1b1..3a779f0 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -1027,7 +1027,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_multi = gnp.to_scalar(gnp.sum(sigA) / sigA.size)
+        frac_sig_multi = gnp.to_scalar(gnp.sum(sigA) / math.prod(sigA.shape))
 
         # Single-block check.
         if single_block_size is None:
@@ -1043,7 +1043,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_single = gnp.to_scalar(gnp.sum(sigB) / sigB.size)
+        frac_sig_single = gnp.to_scalar(gnp.sum(sigB) / math.prod(sigB.shape))
 
         # Convergence is declared if the fraction of significant comparisons is low.
         ok = (frac_sig_multi < fraction_threshold) and (
-- 
2.43.0


From 542f5e7c72904115c20a5615bf6acea6733ae3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:23 +0000
Subject: [PATCH 24/65] fix: record the log-density of the initial states

---
 gpmp/mcmc/mh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 3a779f0..52b2a8e 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -432,6 +432,7 @@ class MetropolisHastings:
                     c,
                     log_target_x_current=prev_log_target,
                 )
+                self.log_target_values[c, t - 1] = log_target_prev
                 self.log_target_values[c, t] = log_target_next
             self.global_iter += 1
             if show_global_progress:
-- 
2.43.0


From 3a8c94021e7b6d74e9fe0647cf230deed9cfa94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:23 +0000
Subject: [PATCH 25/65] fix: drop the steps not run from the traces when
 burn-in stops early

---
 gpmp/mcmc/mh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 52b2a8e..bd128bd 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -688,6 +688,10 @@ class MetropolisHastings:
             self.run_adaptive(n_remain)
 
         self.global_total = self.global_iter
+        # Burn-in may have stopped early: drop the steps that were not run
+        self.x = self.x[:, : 1 + self.global_iter]
+        self.accept = self.accept[:, : 1 + self.global_iter]
+        self.log_target_values = self.log_target_values[:, : 1 + self.global_iter]
         if self.options.show_global_progress:
             self._print_final_time(self.global_total, self.start_time)
 
-- 
2.43.0


From 6ccadb705dd92bfd1d51efadb979bbe211b57ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:55 +0000
Subject: [PATCH 26/65] fix: draw multivariate normal samples from the library
 generator

multivariate_normal.rvs used the global generators of SciPy and PyTorch, so
set_seed did not control Metropolis-Hastings proposals.
---
 gpmp/num/numpy_backend.py | 9 +++++----
 gpmp/num/torch_backend.py | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index 44a90ce..e9b5738 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -513,9 +513,9 @@ class multivariate_normal:
     def rvs(mean=0.0, cov=1.0, n=1):
         # Check if cov is a scalar or 1x1 array, and use norm if so
         if isscalar(cov) or (isinstance(cov, numpy.ndarray) and cov.size == 1):
-            return normal.rvs(mean, numpy.sqrt(cov), size=n).astype(
-                _np_dtype, copy=False
-            )
+            return normal.rvs(
+                mean, numpy.sqrt(cov), size=n, random_state=_np_rng
+            ).astype(_np_dtype, copy=False)
 
         # For dxd covariance matrix, use multivariate_normal
         cov = numpy.asarray(cov)
@@ -524,7 +524,8 @@ class multivariate_normal:
         d = cov.shape[0]
         mean_array = multivariate_normal._mean_array(mean, d)
         return numpy.asarray(
-            scipy_mvnormal.rvs(mean=mean_array, cov=cov, size=n), dtype=_np_dtype
+            scipy_mvnormal.rvs(mean=mean_array, cov=cov, size=n, random_state=_np_rng),
+            dtype=_np_dtype,
         )
 
     @staticmethod
diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index af1843d..39e9ad5 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -1033,7 +1033,8 @@ class multivariate_normal:
                 mean, device=var.device
             ).reshape(())
             dist = Normal(mean_s, var.sqrt())
-            return dist.sample((n,))
+            with torch.no_grad():
+                return dist.loc + dist.scale * randn(n)
 
         # matrix covariance
         if cov_t.ndim != 2 or cov_t.shape[0] != cov_t.shape[1]:
@@ -1041,7 +1042,8 @@ class multivariate_normal:
         d = cov_t.shape[0]
         mean_vec = multivariate_normal._mean_vector(mean, d, cov_t.device)
         dist = MultivariateNormal(mean_vec, covariance_matrix=cov_t)
-        return dist.sample((n,))
+        with torch.no_grad():
+            return dist.loc + randn(n, d) @ dist.scale_tril.T
 
     @staticmethod
     def logpdf(x, mean=0.0, cov=1.0):
-- 
2.43.0


From 9da84a9aa5fe7193455f86a6a412da57d6d9acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:30 +0000
Subject: [PATCH 27/65] fix: accept a float log-density in single
 Metropolis-Hastings steps with PyTorch

---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index bd128bd..874021d 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -386,7 +386,7 @@ class MetropolisHastings:
         Single Metropolis–Hastings update for chain chain_idx.
         If symmetric=False, includes reverse-proposal terms in acceptance.
         """
-        if log_target_x_current is None or gnp.isnan(log_target_x_current):
+        if log_target_x_current is None or math.isnan(log_target_x_current):
             try:
                 log_target_x_current = gnp.to_scalar(self.log_target(x_current))
             except Exception:
-- 
2.43.0


From e5c2a15fb65c3329e6cc07e644e8b5bdf93aa94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:09 +0000
Subject: [PATCH 28/65] fix: keep SMC weights finite for large log-densities

A log-density above about 709 made the particle weights infinite, and the run
ended in the debugger while resampling.
---
 gpmp/mcmc/smc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index d4e35c7..09efea6 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -220,7 +220,12 @@ class ParticlesSet:
 
     def reweight(self, update_logpx_and_w=True):
         logpx_new = self.logpdf_function(self.x).reshape(-1)
-        self.w_tmp = self.w * gnp.exp(logpx_new - self.logpx)
+        log_ratio = logpx_new - self.logpx
+        log_ratio_max = gnp.to_scalar(gnp.max(log_ratio))
+        if log_ratio_max > 300.0:
+            # Only relative weights matter: avoid overflow in exp and in squares
+            log_ratio = log_ratio - log_ratio_max
+        self.w_tmp = self.w * gnp.exp(log_ratio)
         if update_logpx_and_w:
             self.logpx = logpx_new
             self.w = gnp.copy(self.w_tmp)
-- 
2.43.0


From ab7bd5876977eb908fd4ea381f16379be5dec7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:09 +0000
Subject: [PATCH 29/65] fix: let ESS tempering advance when the parameter range
 is short

The root search stopped within 0.05 of the next parameter and could return the
current one again and again, so that the run never ended.
---
 gpmp/mcmc/smc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 09efea6..c6c0e86 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -902,7 +902,6 @@ class SMC:
             Next computed logpdf_param.
 
         """
-        tolerance = 0.05
         eta0 = float(eta0)
         current_logpdf_param = float(current_logpdf_param)
         target_logpdf_param = float(target_logpdf_param)
@@ -952,7 +951,7 @@ class SMC:
                     RuntimeWarning,
                 )
                 return target_logpdf_param
-            next_logpdf_param = brentq(compute_delta_eta, low, high, xtol=tolerance)
+            next_logpdf_param = brentq(compute_delta_eta, low, high)
 
             return next_logpdf_param
 
-- 
2.43.0


From db0421acd18912634d90223033c93c071a4b6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:09 +0000
Subject: [PATCH 30/65] fix: ignore particles outside both supports when
 choosing the next SMC level

One particle of zero density made the level probability NaN, and the
dichotomy on the parameter never ended.
---
 gpmp/mcmc/smc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index c6c0e86..bce60a2 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -980,12 +980,12 @@ class SMC:
             Computed mean value.
 
         """
-        return gnp.mean(
-            gnp.exp(
-                logpdf_function(self.particles.x, new_logpdf_param)
-                - logpdf_function(self.particles.x, current_logpdf_param)
-            )
-        )
+        logpx_new = logpdf_function(self.particles.x, new_logpdf_param)
+        logpx_current = logpdf_function(self.particles.x, current_logpdf_param)
+        ratio = gnp.exp(logpx_new - logpx_current)
+        # Particles outside both supports (-inf minus -inf) do not contribute
+        ratio = gnp.where(gnp.isnan(ratio), gnp.zeros(ratio.shape), ratio)
+        return gnp.mean(ratio)
 
     def compute_next_logpdf_param_p0(
         self,
-- 
2.43.0


From 0af3cd975adce6ca36bd9cbd23e3b98f10f97ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:09 +0000
Subject: [PATCH 31/65] fix: end the dichotomy on the SMC level when p0 cannot
 be attained

With few particles the level probability jumps over p0 and the dichotomy
never ended.
---
 gpmp/mcmc/smc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index bce60a2..6b77307 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -1053,6 +1053,10 @@ class SMC:
 
             if abs(p - p0) < tolerance:
                 break
+            if mid == low or mid == high:
+                # p0 cannot be attained: move on, past the current parameter
+                mid = high if low == current_logpdf_param else low
+                break
             if p < p0:
                 high = mid
             else:
-- 
2.43.0


From ff1b41b7beb207f3b352a751e758f4f7681bfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:09 +0000
Subject: [PATCH 32/65] fix: reweight restarted particles when initial and
 target parameters coincide

The restart left them uniformly distributed on the initial box.
---
 gpmp/mcmc/smc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 6b77307..f14d4c2 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -804,7 +804,7 @@ class SMC:
         current_logpdf_param = initial_logpdf_param
         self.log_data["logpdf_param_sequence"] = [initial_logpdf_param]
 
-        while current_logpdf_param != target_logpdf_param:
+        while True:
             next_logpdf_param = self.compute_next_logpdf_param(
                 logpdf_parameterized_function,
                 current_logpdf_param,
@@ -827,6 +827,8 @@ class SMC:
 
             self.step(logpdf_parameterized_function, next_logpdf_param, debug=debug)
             current_logpdf_param = next_logpdf_param
+            if current_logpdf_param == target_logpdf_param:
+                break
 
         self.log_data["logpdf_param_sequence"] = []
         self.log_data["restart_iteration"] = 0
-- 
2.43.0


From 370aecdbfedf2cafb14486454dd8b235784d11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:09 +0000
Subject: [PATCH 33/65] fix: add jitter to the proposal covariance of SMC
 particles

The fallback for indefinite covariance matrices used a module which is not
imported.
---
 gpmp/mcmc/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index f14d4c2..71eb693 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -402,7 +402,7 @@ class ParticlesSet:
                 self.config.jitter_max_iterations
             ):  # Try iterations of jittering
                 jitter = self.config.jitter_initial_value * (10**i)
-                C_jittered = C + jitter * np.eye(C.shape[0])  # Add jitter
+                C_jittered = C + jitter * gnp.eye(C.shape[0])  # Add jitter
                 try:
                     eps = ParticlesSet.multivariate_normal_rvs(
                         C_jittered, self.n, self.rng
-- 
2.43.0


From cd8da056f361cb6073b605158db74f318fc3a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:09 +0000
Subject: [PATCH 34/65] fix: account for the volume of the initial box in
 subset simulation

The first stage probability was divided by the volume of the box, so that only
boxes of volume one gave the right probability.
---
 gpmp/mcmc/smc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 71eb693..2ea7772 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -1441,6 +1441,9 @@ def run_subset_simulation(
 
     stage_probs = gnp.empty(len(thresholds) - 1)
 
+    # Mean density on the initial box, where particles are uniformly distributed
+    base_density = gnp.mean(gnp.exp(log_px(smc.particles.x)))
+
     for k in range(1, len(thresholds)):
         uk = thresholds[k]
         uk_prev = thresholds[k - 1]
@@ -1456,7 +1459,7 @@ def run_subset_simulation(
 
         # Compute conditional probability p_{u_k | u_{k-1}}
         w_sum = gnp.sum(smc.particles.w)
-        stage_probs[k - 1] = w_sum
+        stage_probs[k - 1] = w_sum / base_density if k == 1 else w_sum
 
         if debug:
             print(f"    p_{{{uk:.2f} | {uk_prev:.2f}}} - {w_sum:.2f}")
-- 
2.43.0


From 7e0dd42a3053c62e13d70647a796df0e67066de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:40 +0000
Subject: [PATCH 35/65] fix: compute the effective sample size of very small
 weights

The squares of weights below 1e-160 vanish, and the effective sample size was
reported to be zero.
---
 gpmp/mcmc/smc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 2ea7772..954a1f6 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -232,11 +232,11 @@ class ParticlesSet:
 
     def ess(self):
         """https://en.wikipedia.org/wiki/Effective_sample_size"""
-        normalization = gnp.sum(self.w_tmp**2)
+        normalization = gnp.sum(self.w_tmp)
         if normalization == 0.0:
             return 0.0
         else:
-            return gnp.sum(self.w_tmp) ** 2 / normalization
+            return 1.0 / gnp.sum((self.w_tmp / normalization) ** 2)
 
     def resample(self, debug=False):
         """
-- 
2.43.0


From 3748ee5ff8051d7409581c67dab9711b9410d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:33 +0000
Subject: [PATCH 36/65] fix: accept initial states of shape (dim, n_chains)

The documented layout was rejected because the number of chains was taken for
the dimension.
---
 gpmp/mcmc/param_posterior.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index aaff887..c878d26 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -101,6 +101,7 @@ def _infer_dim(
     info: object,
     param_initial_states,
     box,
+    n_chains: Optional[int] = None,
 ) -> int:
     if param_initial_states is not None:
         theta = gnp.asarray(param_initial_states)
@@ -109,7 +110,10 @@ def _infer_dim(
         if theta.ndim == 1:
             return int(theta.shape[0])
         if theta.ndim == 2:
-            return int(theta.shape[1])
+            r, c = int(theta.shape[0]), int(theta.shape[1])
+            if n_chains is not None and r not in (1, n_chains) and c == n_chains:
+                return r  # (dim, n_chains)
+            return c
         raise ValueError("param_initial_states must be scalar, 1D or 2D.")
 
     if info is not None:
@@ -416,7 +420,7 @@ def sample_from_selection_criterion_mh(
         require_differentiable=False,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains=n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
@@ -595,7 +599,7 @@ def sample_from_selection_criterion_nuts(
         require_differentiable=True,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains=n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
-- 
2.43.0


From 37dec014449d97fafd1d189c7e7419799335350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:33 +0000
Subject: [PATCH 37/65] fix: use the normalized initial box in SMC sampling of
 a criterion

Bounds common to all parameters raised an error, or gave particles with one
parameter only.
---
 gpmp/mcmc/param_posterior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index c878d26..75178fc 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -732,7 +732,9 @@ def sample_from_selection_criterion_smc(
         raise ValueError("init_box must be provided for SMC.")
 
     dim = _infer_dim(info, None, init_box)
-    _, _, _, _ = _normalize_bounds(init_box, dim, box_name="init_box")
+    _, _, lower_init_np, upper_init_np = _normalize_bounds(
+        init_box, dim, box_name="init_box"
+    )
 
     lower_b = upper_b = None
     if sampling_box is not None:
@@ -768,7 +770,7 @@ def sample_from_selection_criterion_smc(
         target_logpdf_param=final_temperature,
         compute_next_logpdf_param_method="ess",
         min_ess_ratio=min_ess_ratio,
-        init_box=init_box,
+        init_box=[lower_init_np, upper_init_np],
         n_particles=n_particles,
         mh_steps=mh_steps,
         debug=debug,
-- 
2.43.0


From 6abd8bbe9a6ed48d683926303d65a909c807845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:33 +0000
Subject: [PATCH 38/65] fix: give zero density to points where the criterion
 fails in SMC sampling

An exception ended the run, also for points outside the sampling box, and NaN
ended in the debugger.  The other samplers already reject such points.
---
 gpmp/mcmc/param_posterior.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 75178fc..40d6e0a 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -743,7 +743,11 @@ def sample_from_selection_criterion_smc(
         )
 
     def _criterion_scalar(theta):
-        return gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        try:
+            v = gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        except Exception:
+            return gnp.inf
+        return v if v == v else gnp.inf
 
     def logpdf_temp(x, temperature):
         x = gnp.asarray(x)
-- 
2.43.0


From a29d5314be28443f04abc4ab39645fabdcfab0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:33 +0000
Subject: [PATCH 39/65] fix: keep SVGD particles in the sampling box when
 options are given

---
 gpmp/mcmc/param_posterior.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 40d6e0a..6a2fd3d 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -41,6 +41,7 @@ Input conventions
 
 from __future__ import annotations
 
+from dataclasses import replace
 from typing import Callable, Optional, Tuple
 
 import gpmp.config as config
@@ -989,6 +990,8 @@ def sample_from_selection_criterion_svgd(
             log_every=log_every,
             jitter=jitter,
         )
+    elif options.sampling_box is None and sampling_box is not None:
+        options = replace(options, sampling_box=sampling_box)
 
     particles, info_svgd = svgd_sample(
         log_prob=log_prob,
-- 
2.43.0


From afb8f99b1d5fa0d837c693e335820ab14390bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 40/65] fix: keep moving SVGD particles which reach the
 boundary of the box

With NumPy, finite differences across the boundary gave them a zero score, and
they stayed there.
---
 gpmp/mcmc/param_posterior.py | 3 +++
 gpmp/mcmc/svgd.py            | 7 ++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 6a2fd3d..e487435 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -965,6 +965,9 @@ def sample_from_selection_criterion_svgd(
     else:
         n_particles_eff = int(n_particles)
 
+    if options is None or options.sampling_box is None:
+        # svgd_step projects particles to the box
+        lower_b = upper_b = None
     log_prob = _make_log_prob_nuts(
         crit,
         lower_b,
diff --git a/gpmp/mcmc/svgd.py b/gpmp/mcmc/svgd.py
index 6c0ad93..817b243 100644
--- a/gpmp/mcmc/svgd.py
+++ b/gpmp/mcmc/svgd.py
@@ -295,12 +295,9 @@ def svgd_step(
     )
 
     def tempered_log_prob(theta):
+        # No test of the box here: particles are projected, and finite differences
+        # at particles on its boundary need the values on both sides
         theta = gnp.asarray(theta, dtype=gnp_dtype).reshape(-1)
-        if lower_b is not None:
-            if bool(gnp.to_np(gnp.any(theta < lower_b))) or bool(
-                gnp.to_np(gnp.any(theta > upper_b))
-            ):
-                return gnp.safe_neginf()
         return gnp.asarray(log_prob(theta), dtype=gnp_dtype).reshape(()) / float(
             temperature
         )
-- 
2.43.0


From fa03bd30314de28c44f1bd2c66508fd6decbc387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:26 +0000
Subject: [PATCH 41/65] fix: move SVGD particles on the boundary when options
 also give a box

---
 gpmp/mcmc/param_posterior.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index e487435..f0affa5 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -965,13 +965,11 @@ def sample_from_selection_criterion_svgd(
     else:
         n_particles_eff = int(n_particles)
 
-    if options is None or options.sampling_box is None:
-        # svgd_step projects particles to the box
-        lower_b = upper_b = None
+    # No box here: svgd_step projects particles to the box
     log_prob = _make_log_prob_nuts(
         crit,
-        lower_b,
-        upper_b,
+        None,
+        None,
         temperature=1.0,
     )
 
@@ -993,7 +991,7 @@ def sample_from_selection_criterion_svgd(
             log_every=log_every,
             jitter=jitter,
         )
-    elif options.sampling_box is None and sampling_box is not None:
+    elif sampling_box is not None:
         options = replace(options, sampling_box=sampling_box)
 
     particles, info_svgd = svgd_sample(
-- 
2.43.0


From 47e6a1c7683cbc06dec19cbebaddf400dcfb8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 42/65] fix: use scipy trapezoid in fast_univariate_stats

np.trapz was removed from NumPy.
---
 gpmp/modeldiagnosis/param_stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index b040a78..0ce5bb2 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -39,7 +39,7 @@ from __future__ import annotations
 from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple
 
 import numpy as np
-from scipy.integrate import cumulative_trapezoid
+from scipy.integrate import cumulative_trapezoid, trapezoid
 from scipy.optimize import minimize_scalar
 
 import gpmp.num as gnp
@@ -94,12 +94,12 @@ def fast_univariate_stats(
     logw -= np.max(logw)  # stabilize exp
     w = np.exp(logw)
 
-    Z = np.trapz(w, xs)
+    Z = trapezoid(w, xs)
     if not np.isfinite(Z) or Z <= 0.0:
         raise ValueError("Normalization failed in fast_univariate_stats.")
 
-    mean_val = float(np.trapz(xs * w, xs) / Z)
-    second = float(np.trapz((xs**2) * w, xs) / Z)
+    mean_val = float(trapezoid(xs * w, xs) / Z)
+    second = float(trapezoid((xs**2) * w, xs) / Z)
     variance = float(second - mean_val**2)
 
     cdf = cumulative_trapezoid(w, xs, initial=0.0) / Z
-- 
2.43.0


From 99c29df27c106a5f4a79a9a7413fb29dab016010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 43/65] fix: compute PIT values from flattened backend arrays

---
 gpmp/modeldiagnosis/performance.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index b69d7c3..bd0ef62 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -129,9 +129,8 @@ def compute_performance(
         out["loo_Q2"] = 1 - press / tss
 
         if compute_pit:
-            zloov_arr = gnp.asarray(zloov)
-            scale = gnp.sqrt(gnp.clip(zloov_arr, 0.0, gnp.inf))
-            out["loo_pit"] = gnp.normal.cdf(zi_arr, loc=zloom, scale=scale)
+            scale = gnp.sqrt(gnp.clip(_as_1d(zloov), 0.0, gnp.inf))
+            out["loo_pit"] = gnp.normal.cdf(zi_vec, loc=_as_1d(zloom), scale=scale)
 
     if xtzt is not None:
         xt, zt = xtzt
@@ -167,8 +166,8 @@ def compute_performance(
         out["test_R2"] = 1 - rss / tss
 
         if compute_pit:
-            scale = gnp.sqrt(gnp.clip(zpv, 0.0, gnp.inf))
-            out["test_pit"] = gnp.normal.cdf(zt_arr, loc=zpm, scale=scale)
+            scale = gnp.sqrt(gnp.clip(_as_1d(zpv), 0.0, gnp.inf))
+            out["test_pit"] = gnp.normal.cdf(zt_vec, loc=zpm_vec, scale=scale)
 
     return out
 
-- 
2.43.0


From dd7508647d6b75a23d52eb5478b4d12d19868974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 44/65] fix: keep row and column labels in DataFrame selections

---
 gpmp/misc/dataframe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 0b963d1..154eb1b 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -43,18 +43,18 @@ class DataFrame:
         if isinstance(key, tuple):
             row_key, col_key = key
             if isinstance(row_key, slice) and isinstance(col_key, slice):
-                return DataFrame(self.data[row_key, col_key], self.rownames[row_key], self.colnames[col_key])
+                return DataFrame(self.data[row_key, col_key], self.colnames[col_key], self.rownames[row_key])
             elif isinstance(row_key, slice):
-                return DataFrame(self.data[row_key, self.colnames.index(col_key)], self.rownames[row_key], [col_key])
+                return DataFrame(self.data[row_key, [self.colnames.index(col_key)]], [col_key], self.rownames[row_key])
             elif isinstance(col_key, slice):
-                return DataFrame(self.data[self.rownames.index(row_key), col_key], [row_key], self.colnames[col_key])
+                return DataFrame(self.data[[self.rownames.index(row_key)], col_key], self.colnames[col_key], [row_key])
             else:
                 return self.data[self.rownames.index(row_key), self.colnames.index(col_key)]
         elif isinstance(key, str):
             if key in self.rownames:
-                return DataFrame(self.data[self.rownames.index(key), :], [key], self.colnames)
+                return DataFrame(self.data[[self.rownames.index(key)], :], self.colnames, [key])
             elif key in self.colnames:
-                return DataFrame(self.data[:, self.colnames.index(key)], self.rownames, [key])
+                return DataFrame(self.data[:, [self.colnames.index(key)]], [key], self.rownames)
             else:
                 raise KeyError(f"Key '{key}' not found in row or column names")
         else:
-- 
2.43.0


From 32b10fff6abb06247b9faf59e3b5599ca81a8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 45/65] fix: format NaN values in tables

---
 gpmp/misc/dataframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 154eb1b..474ce63 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -16,7 +16,9 @@ def ftos(x, fp=3):
     if gnp.isarray(x):
         x = gnp.to_scalar(x)
 
-    if x == float('inf'):
+    if x != x:
+        return "NaN"
+    elif x == float('inf'):
         return "+Inf"
     elif x == float('-inf'):
         return "-Inf"
-- 
2.43.0


From 493b7041c5dd316e6502365c9e9271a98323a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 46/65] fix: do not append to the label lists given to
 DataFrame

---
 gpmp/misc/dataframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 474ce63..49a269e 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -38,8 +38,8 @@ def ftos(x, fp=3):
 class DataFrame:
     def __init__(self, data, colnames, rownames):
         self.data = np.array(data)
-        self.rownames = rownames
-        self.colnames = colnames
+        self.rownames = list(rownames)
+        self.colnames = list(colnames)
         
     def __getitem__(self, key):
         if isinstance(key, tuple):
-- 
2.43.0


From 516ae935d792321bf0819424b3784adbe7d892d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 47/65] fix: divide by sigma, not its square, in
 delta_over_sigma

---
 gpmp/modeldiagnosis/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/modeldiagnosis/report.py b/gpmp/modeldiagnosis/report.py
index 6f8bce3..cfe2822 100644
--- a/gpmp/modeldiagnosis/report.py
+++ b/gpmp/modeldiagnosis/report.py
@@ -212,7 +212,7 @@ def model_diagnosis_disp(
         rownames_zi = ["zi"]
     else:
         rownames_zi = [f"zi_{j}" for j in range(int(zi.shape[1]))]
-    df_zi = describe_array(zi, rownames_zi, 1.0 / param_values[0])
+    df_zi = describe_array(zi, rownames_zi, 1.0 / np.sqrt(param_values[0]))
 
     n, d = int(xi.shape[0]), int(xi.shape[1])
     rownames_xi = [f"xi_{j}" for j in range(d)]
-- 
2.43.0


From af7c726fef1ee978765d270e70dc726a9daf2719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 48/65] fix: use the bounds of the plotted parameter in cross
 sections

---
 gpmp/modeldiagnosis/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 5343a00..2524ce1 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -184,7 +184,7 @@ def plot_selection_criterion_crosssections(
 
         for ax_i, param_idx in enumerate(ind):
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(ax_i, opt_value, param_box)
+            p_values = _grid_for_param(param_idx, opt_value, param_box)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
@@ -214,9 +214,9 @@ def plot_selection_criterion_crosssections(
     if ind_pooled is not None:
         ind_pooled = list(ind_pooled)
         fig, ax = plt.subplots(figsize=(8, 6))
-        for i, param_idx in enumerate(ind_pooled):
+        for param_idx in ind_pooled:
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(i, opt_value, param_box_pooled)
+            p_values = _grid_for_param(param_idx, opt_value, param_box_pooled)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
-- 
2.43.0


From 430b5df87ceab1ba060d5bdf933bd34805039382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:18 +0000
Subject: [PATCH 49/65] fix: normalize the criterion before taking its
 exponential in statistics

---
 gpmp/modeldiagnosis/param_stats.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index 0ce5bb2..f8d5de9 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -344,8 +344,14 @@ def selection_criterion_statistics(
 
         sp = make_single_param_criterion_function(selection_criterion, covparam, j)
 
+        res = minimize_scalar(lambda x: _to_float(sp(float(x))), bounds=(lo, hi), method="bounded")
+        mode_val = float(res.x) if getattr(res, "success", False) else float(opt)
+        ref_val = _to_float(sp(mode_val))
+        if not np.isfinite(ref_val):
+            ref_val = 0.0
+
         def log_pdf_scalar(x: float) -> float:
-            return -_to_float(sp(float(x)))
+            return ref_val - _to_float(sp(float(x)))  # avoid underflow and overflow
 
         dist = Unnormalized1DDistribution(log_pdf_scalar, bounds=(lo, hi))
 
@@ -357,9 +363,6 @@ def selection_criterion_statistics(
         q75 = float(dist.quantile(0.75))
         q90 = float(dist.quantile(0.9))
 
-        res = minimize_scalar(lambda x: _to_float(sp(float(x))), bounds=(lo, hi), method="bounded")
-        mode_val = float(res.x) if getattr(res, "success", False) else float(opt)
-
         if verbose:
             print(f"param {j}: mean={mean_val:.6g} var={var_val:.6g} mode={mode_val:.6g}")
 
-- 
2.43.0


From e5740c11513e6f373d8571d4528472a620fbd6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:38 +0000
Subject: [PATCH 50/65] fix: divide the torch normal density by the scale

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 39e9ad5..d9928d6 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -991,7 +991,7 @@ class normal:
     def pdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
         t = (x - loc) / scale
-        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2)
+        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2) / scale
 
     @staticmethod
     def logpdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From ecb0b50092d2cdd92f7c2335d998cd116dbb191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:38 +0000
Subject: [PATCH 51/65] fix: compute the torch normal cdf and logcdf accurately
 in the tails

---
 gpmp/num/torch_backend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index d9928d6..a464ec7 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -978,14 +978,12 @@ class normal:
     @staticmethod
     def cdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
-        d = Normal(loc, scale)
-        return d.cdf(x)
+        return 0.5 * torch.special.erfc((loc - x) / (scale * sqrt(2.0)))
 
     @staticmethod
     def logcdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
-        d = Normal(loc, scale)
-        return log(d.cdf(x))
+        return torch.special.log_ndtr((x - loc) / scale)
 
     @staticmethod
     def pdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From 105ab88e17d16fe9ac251842d835cd57bf4627e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:38 +0000
Subject: [PATCH 52/65] fix: accept one interval per observation in the
 truncated CRPS

---
 gpmp/misc/scoringrules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpmp/misc/scoringrules.py b/gpmp/misc/scoringrules.py
index 7cae6c0..1a44077 100644
--- a/gpmp/misc/scoringrules.py
+++ b/gpmp/misc/scoringrules.py
@@ -134,6 +134,11 @@ def tcrps_gaussian(mu, sigma, z, a=-gnp.inf, b=gnp.inf):
     z = gnp.asarray(z)
     a = gnp.asarray(a)
     b = gnp.asarray(b)
+    args = [v.reshape(-1) for v in (mu, sigma, z, a, b)]
+    if len(args[3]) > 1 or len(args[4]) > 1:
+        n = max(len(v) for v in args)
+        args = [[v[i % len(v)].reshape(1) for v in args] for i in range(n)]
+        return gnp.concatenate([tcrps_gaussian(*v) for v in args])
     if gnp.isfinite(a) and gnp.isfinite(b):
         term1 = gnp.maximum(gnp.minimum(b, z) - a, 0.0)
         term2 = ei2_up(mu, sigma, b) - ei2_up(mu, sigma, a)
-- 
2.43.0


From eed52c081df142f0e59bd6d888606ba2d307a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:38 +0000
Subject: [PATCH 53/65] fix: take the largest distance to the sample in the
 fill distance

---
 gpmp/misc/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 65522ea..8814ebd 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -95,7 +95,7 @@ def filldist_approx(sample, box, n=int(1e6), x=None):
         n = x.shape[0]
     filldist = 0
     for i in range(n):
-        D = cdist(sample, x)
+        D = cdist(sample, x[i : i + 1])
         d = np.min(D)
         if d > filldist:
             filldist = d
-- 
2.43.0


From afb4b565af745f2ec2a7511fa2f59222627839c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:38 +0000
Subject: [PATCH 54/65] fix: build Latin hypercube designs of one point

---
 gpmp/misc/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 8814ebd..4e6a259 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -47,7 +47,7 @@ def mindist(sample):
         Minimum distance between any pair of points in the sample.
     """
     D = pdist(sample)
-    mindist = np.min(D)
+    mindist = np.min(D, initial=np.inf)
     return mindist
 
 
-- 
2.43.0


From 3777162c07f38c50846b8d993a2fd8912b715a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:38 +0000
Subject: [PATCH 55/65] fix: add all the terms of the Dette & Pepelyshev
 function

---
 gpmp/misc/testfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index 709e27a..707dd55 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -361,8 +361,8 @@ def detpep8d(x):
             xj = x[:, jj - 1]
             inner = inner + xj
 
-    new = ii * np.log(1 + inner)
-    outer = outer + new
+        new = ii * np.log(1 + inner)
+        outer = outer + new
 
     z = term1 + term2 + term3 + outer
 
-- 
2.43.0


From a5200dafe2638c971616f2eeae00da4f42bd2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:04:44 +0000
Subject: [PATCH 56/65] fix: accept vectors as right-hand sides in torch
 triangular solves

solve_triangular and cho_solve of the PyTorch backend refused the
one-dimensional right-hand sides that the NumPy backend accepts.
---
 gpmp/num/torch_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index a464ec7..920e75c 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -876,12 +876,12 @@ def solve_triangular(
         raise ValueError(f"Invalid trans={trans!r}; expected 0/1/2 or 'N'/'T'/'C'.")
     x = torch.linalg.solve_triangular(
         Aop,
-        B,
+        B.reshape(-1, 1) if B.ndim == 1 else B,
         upper=not lower,
         left=True,
         unitriangular=unit_diagonal,
     )
-    return x
+    return x.reshape(-1) if B.ndim == 1 else x
 
 
 def cho_factor(A, lower=False, overwrite_a=False, check_finite=True):
@@ -892,6 +892,8 @@ def cho_factor(A, lower=False, overwrite_a=False, check_finite=True):
 def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
     C, lower = c_and_lower
     b = asarray(b)
+    if b.ndim == 1:
+        return torch.cholesky_solve(b.reshape(-1, 1), C, upper=not lower).reshape(-1)
     return torch.cholesky_solve(b, C, upper=not lower)
 
 
-- 
2.43.0


From d1d540f7debc99917b320fff0e4206da33cf3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:06 +0000
Subject: [PATCH 57/65] fix: accept lists of levels in torch percentile

---
 gpmp/num/torch_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 920e75c..f1cf4cc 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -453,6 +453,8 @@ def percentile(
     if method != "linear":
         raise NotImplementedError("only 'linear' method supported in this wrapper")
 
+    if not torch.is_tensor(q):
+        q = torch.as_tensor(q, dtype=x.dtype, device=x.device)
     return torch.quantile(x, q / 100.0, dim=axis, keepdim=keepdims, out=out)
 
 
-- 
2.43.0


From b6180fd0f4e2362d8ecffccace43e74f3014505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:04 +0000
Subject: [PATCH 58/65] fix: solve with the transposed factor in torch
 solve_triangular

With trans=1 or 2 the operand was transposed but still read as if its
other triangle were stored, so a diagonal system was solved.
---
 gpmp/num/torch_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index f1cf4cc..d4df7e1 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -868,18 +868,21 @@ def solve_triangular(
     overwrite_b=False,
     check_finite=False,
 ):
+    upper = not lower
     if trans in (0, "N", "n"):
         Aop = A
     elif trans in (1, "T", "t"):
         Aop = A.mT
+        upper = lower
     elif trans in (2, "C", "c"):
         Aop = A.mH
+        upper = lower
     else:
         raise ValueError(f"Invalid trans={trans!r}; expected 0/1/2 or 'N'/'T'/'C'.")
     x = torch.linalg.solve_triangular(
         Aop,
         B.reshape(-1, 1) if B.ndim == 1 else B,
-        upper=not lower,
+        upper=upper,
         left=True,
         unitriangular=unit_diagonal,
     )
-- 
2.43.0


From 9c525f14b59116a385ad4b5c83fae3f480924d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:10 +0000
Subject: [PATCH 59/65] fix: read vectors as one variable in torch cov with
 rowvar=False

---
 gpmp/num/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index d4df7e1..5ddb46b 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -419,13 +419,13 @@ def cov(
     x = asarray(m, dtype=_resolve_torch_dtype(dtype))
     if x.ndim == 1:
         x = x.reshape(1, -1)
-    if not rowvar:
+    elif not rowvar:
         x = x.transpose(0, 1)
     if y is not None:
         y = asarray(y, dtype=_resolve_torch_dtype(dtype))
         if y.ndim == 1:
             y = y.reshape(1, -1)
-        if not rowvar:
+        elif not rowvar:
             y = y.transpose(0, 1)
         x = concatenate((x, y), axis=0)
 
-- 
2.43.0


From 30bbd36507dbe898d53cae9c30f202ca253967aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:09 +0000
Subject: [PATCH 60/65] fix: draw random initial states with the library
 generator

The random initial states of the Metropolis-Hastings, NUTS and SVGD
samplers came from the global NumPy stream, so chains were not
reproduced after gnp.set_seed.
---
 gpmp/mcmc/param_posterior.py | 6 +++---
 gpmp/mcmc/svgd.py            | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index f0affa5..648e948 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -46,7 +46,7 @@ from typing import Callable, Optional, Tuple
 
 import gpmp.config as config
 import gpmp.num as gnp
-from gpmp.misc.designs import randunif
+from gpmp.misc.designs import scale as box_scale
 
 from .mh import MHOptions, MetropolisHastings
 from .nuts import NUTSOptions, nuts_sample, plot_nuts_diagnostics
@@ -161,7 +161,7 @@ def _normalize_bounds(
         if int(lower_b.shape[0]) != dim or int(upper_b.shape[0]) != dim:
             raise ValueError(f"{box_name} bounds must match dimension.")
 
-    # randunif expects NumPy-like arrays/lists. gnp.to_np is a no-op on NumPy backend.
+    # box_scale expects NumPy-like arrays/lists. gnp.to_np is a no-op on NumPy backend.
     lower_np = gnp.to_np(lower_b)
     upper_np = gnp.to_np(upper_b)
     return lower_b, upper_b, lower_np, upper_np
@@ -227,7 +227,7 @@ def _random_initial_states(
     dim: int,
     n_chains: int,
 ) -> gnp.ndarray:
-    theta = randunif(dim, n_chains, [lower_np, upper_np])
+    theta = box_scale(gnp.to_np(gnp.rand(n_chains, dim)), [lower_np, upper_np])
     return gnp.asarray(theta, dtype=gnp_dtype)
 
 
diff --git a/gpmp/mcmc/svgd.py b/gpmp/mcmc/svgd.py
index 817b243..8580d0c 100644
--- a/gpmp/mcmc/svgd.py
+++ b/gpmp/mcmc/svgd.py
@@ -32,7 +32,7 @@ from dataclasses import dataclass
 from typing import Callable, Optional, Tuple
 
 import gpmp.num as gnp
-from gpmp.misc.designs import randunif
+from gpmp.misc.designs import scale as box_scale
 
 gnp_dtype = gnp.get_dtype()
 
@@ -407,7 +407,9 @@ def svgd_sample(
         _, _, lower_np, upper_np = _normalize_bounds(
             init_box, int(dim), box_name="init_box"
         )
-        particles = randunif(int(dim), int(n_particles), [lower_np, upper_np])
+        particles = box_scale(
+            gnp.to_np(gnp.rand(int(n_particles), int(dim))), [lower_np, upper_np]
+        )
         particles = gnp.asarray(particles, dtype=gnp_dtype)
     else:
         particles = gnp.asarray(particles_initial, dtype=gnp_dtype)
-- 
2.43.0


From 08a459fc88dac3cb73065259ec55191b84a14938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:52 +0000
Subject: [PATCH 61/65] fix: return a copy of the cached log-gamma table

compute_gammaln handed out a view of its cache, so writing into the
result changed every Matern covariance computed afterwards.
---
 gpmp/num/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/shared.py b/gpmp/num/shared.py
index 789dba9..fe4e49f 100644
--- a/gpmp/num/shared.py
+++ b/gpmp/num/shared.py
@@ -38,7 +38,7 @@ def compute_gammaln(up_to_p: int) -> ArrayLike:
         table = gnp.concatenate((table, tail))
         cache["table"] = table
 
-    return table[:n]
+    return gnp.copy(table[:n])
 
 
 def derivative_finite_diff(
-- 
2.43.0


From 1a9404c0d13e705f637838621ee6eb1651747365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:12:58 +0000
Subject: [PATCH 62/65] fix: plot posterior bands of PyTorch arrays

Figure.plotgp reversed its arguments with a negative step, which
PyTorch tensors do not accept.
---
 gpmp/plot/plotutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpmp/plot/plotutils.py b/gpmp/plot/plotutils.py
index d36f875..b6d8346 100644
--- a/gpmp/plot/plotutils.py
+++ b/gpmp/plot/plotutils.py
@@ -155,8 +155,9 @@ class Figure:
         if not show_ci_labels:
             ci_labels = [""] * 3
 
-        mean = mean.flatten()
-        x = x.flatten()
+        mean = gnp.to_np(mean).flatten()
+        variance = gnp.to_np(variance)
+        x = gnp.to_np(x).flatten()
 
         # Compute delta values using scipy.stats.norm.ppf for the given CI levels
         delta0 = [stats.norm.ppf((1 + level) / 2) for level in ci]
-- 
2.43.0


From 6226c0e10c34e84df1eeebd52ebee0fbdbcc251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:12:58 +0000
Subject: [PATCH 63/65] fix: compute the moving averages of the NUTS
 diagnostics plots

moving_average called gnp.convolve, which no backend provides, so the
plots failed for traces longer than the window.
---
 gpmp/mcmc/nuts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index e56f23b..3570374 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -1140,8 +1140,10 @@ def moving_average(y, window: int):
     if window <= 1:
         return y
 
-    w = gnp.ones(window, dtype=gnp_dtype) / window
-    return gnp.convolve(y, w, mode="valid")
+    import numpy as np
+
+    w = np.ones(window) / window
+    return np.convolve(gnp.to_np(y), w, mode="valid")
 
 
 def plot_nuts_diagnostics(
-- 
2.43.0


From 6df2cde212c1bf81963d37a285f6cfab2b2cf878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:12:58 +0000
Subject: [PATCH 64/65] fix: plot marginals in which all SVGD particles
 coincide

The test for a positive span came after the span had been replaced by
one, so the density estimate was computed for constant values and
raised an error.
---
 gpmp/mcmc/svgd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/svgd.py b/gpmp/mcmc/svgd.py
index 8580d0c..edfe5af 100644
--- a/gpmp/mcmc/svgd.py
+++ b/gpmp/mcmc/svgd.py
@@ -619,7 +619,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
             ax.set_xlabel(rf"$\theta_{{{int(param)+1}}}$")
@@ -654,7 +654,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
         ax.set_xlabel(r"$\theta_i$")
-- 
2.43.0


From cb78d077f9b7cbdac268fc631f3f7f9ed502f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:09:56 +0000
Subject: [PATCH 65/65] fix: give zero weight to SMC particles outside the old
 and new supports

---
 gpmp/mcmc/smc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 954a1f6..e03de47 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -220,7 +220,10 @@ class ParticlesSet:
 
     def reweight(self, update_logpx_and_w=True):
         logpx_new = self.logpdf_function(self.x).reshape(-1)
-        log_ratio = logpx_new - self.logpx
+        # Particles outside the new support get zero weight, wherever they come from
+        log_ratio = gnp.where(
+            logpx_new == -gnp.inf, -gnp.inf, logpx_new - self.logpx
+        )
         log_ratio_max = gnp.to_scalar(gnp.max(log_ratio))
         if log_ratio_max > 300.0:
             # Only relative weights matter: avoid overflow in exp and in squares
-- 
2.43.0

