From 9f2f1e5f702d74fa30bd381b3b1bf3ce3872077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:52 +0000
Subject: [PATCH 01/42] fix: lti.fir for single-tap filters and signals shorter
 than the filter

---
 philtorch/lti/filtering.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2078bef..aaa326a 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -185,18 +185,16 @@ def fir(
             groups=B,
         ).squeeze(0)
         if zi is not None:
-            zf = y[:, -M:]
-            y = y[:, :-M]
-            y = torch.cat([zi + y[:, :M], y[:, M:]], dim=1)
-            return y, zf
-        return y[:, :-M]
+            y = y + F.pad(zi, (0, N))
+            return y[:, :N], y[:, N:]
+        return y[:, :N]
 
     if zi is None:
         zf = None
         padded_x = F.pad(x, (M, 0))
     else:
         padded_x = torch.cat([zi.flip(1), x], dim=1)
-        zf = padded_x[:, -M:].flip(1)
+        zf = padded_x[:, N:].flip(1)
 
     y = F.conv1d(
         padded_x.unsqueeze(0),
-- 
2.43.0


From 3dfbd1f8da25fdef42f4094fde559662f3f12ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:35 +0000
Subject: [PATCH 02/42] fix: transposed LTI forms conjugated complex
 coefficients

---
 philtorch/lti/filtering.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index aaa326a..c1f7a37 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -127,7 +127,7 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
             b = F.pad(b, (0, n - b.size(-1)), value=0.0)
         if a.size(-1) < n - 1:
             a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
-        A = companion(a).mT.conj()
+        A = companion(a).mT
         B = b[..., 1:] - b[..., :1] * a
     else:
         raise ValueError(
@@ -180,7 +180,7 @@ def fir(
     if transpose:
         y = F.conv_transpose1d(
             x.unsqueeze(0),
-            b.unsqueeze(1).conj(),
+            b.unsqueeze(1),
             stride=1,
             groups=B,
         ).squeeze(0)
@@ -305,10 +305,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -322,8 +322,8 @@ def _ssm_lfilter(
         case "tdf1":
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
-                partial(state_space_recursion, A.mT.conj(), zi, out_idx=0, **kwargs),
-                partial(fir, b.conj().broadcast_to((x.size(0), -1)), transpose=True),
+                partial(state_space_recursion, A.mT, zi, out_idx=0, **kwargs),
+                partial(fir, b.broadcast_to((x.size(0), -1)), transpose=True),
             )
         case _:
             raise ValueError(f"Unknown filter form: {form}")
@@ -383,10 +383,10 @@ def _diag_ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 diag_state_space,
-                A=A.mT.conj(),
-                B=B.conj(),
+                A=A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
-- 
2.43.0


From 02096533097d63d43490696c22c6140fb8b0ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:56 +0000
Subject: [PATCH 03/42] fix: polydiv for mixed batching, short dividends and
 gradients

---
 philtorch/poly.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 36e3532..851f92f 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -20,16 +20,20 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     """
     assert u.ndim >= 1 and v.ndim >= 1
 
-    # w has the common type
     m = u.size(-1) - 1
     n = v.size(-1) - 1
+    batch_shape = torch.broadcast_shapes(u.shape[:-1], v.shape[:-1])
+    r = u.expand(batch_shape + (-1,))
+    if m < n:
+        return r.new_empty(batch_shape + (0,)), r.clone()
+
     scale = v[..., 0].reciprocal()
-    r = u.clone()
     q = []
-    for k in range(0, m - n + 1):
-        d = scale * r[..., k]
+    for _ in range(0, m - n + 1):
+        d = scale * r[..., 0]
         q.append(d)
-        r[..., k : k + n + 1] -= d.unsqueeze(-1) * v
+        r = torch.cat(
+            [r[..., 1 : n + 1] - d.unsqueeze(-1) * v[..., 1:], r[..., n + 1 :]], dim=-1
+        )
 
-    r = r[..., m - n + 1 :]
     return torch.stack(q, dim=-1), r
-- 
2.43.0


From 700209b274523b09bf45c3554d0c2a9c1708dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 04/42] fix: diag_ssm long numerators with shared coefficients
 or short signals

---
 philtorch/lti/filtering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index c1f7a37..7b91269 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -346,12 +346,14 @@ def _diag_ssm_lfilter(
         zi = None
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
-            direct_filt = partial(fir, q)
+            direct_filt = partial(fir, q.broadcast_to((x.size(0), -1)))
             delay = b.size(-1) - a.size(-1)
             b = r
         else:
             rev_q, rev_r = polydiv(b.flip(-1), F.pad(a.flip(-1), (0, 1), value=1.0))
-            direct_filt = partial(fir, rev_q.flip(-1))
+            direct_filt = partial(
+                fir, rev_q.flip(-1).broadcast_to((x.size(0), -1))
+            )
             delay = 0
             b = rev_r.flip(-1)
     else:
@@ -400,7 +402,7 @@ def _diag_ssm_lfilter(
     y = results
 
     if delay > 0:
-        y = F.pad(y[:, :-delay], (delay, 0))
+        y = F.pad(y, (delay, 0))[:, : y.size(1)]
 
     if direct_filt is not None:
         y = y + direct_filt(x)
-- 
2.43.0


From 9f41254351b173e9f95ce3caed24633286085e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 05/42] fix: diagonalised models lost imaginary parts or
 returned complex output for real systems

---
 philtorch/lti/ssm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9bccf7f..3b39c00 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -729,6 +729,10 @@ def diag_state_space(
         zi = zi.unsqueeze(0).expand(batch_size, -1)
 
     x_orig = x
+    # the states of a real system are real, even if its eigenvalues are not
+    real_states = (A is not None or C is not None) and not any(
+        t is not None and t.is_complex() for t in (x, zi, A, B, C, D)
+    )
     if Vinv.is_complex():
         if not zi.is_complex():
             zi = zi + 0j  # Ensure zi is complex if Vinv is complex
@@ -823,7 +827,7 @@ def diag_state_space(
             dim=1,
         )
 
-    if C is not None and not C.is_complex():
+    if real_states:
         h = h.real
         zf = zf.real if return_zf else None
 
-- 
2.43.0


From f5a72c77a3e61327fcce6ece78345150cdeb37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 06/42] fix: matrices_cumdot multiplied composite-length
 sequences in the wrong order

---
 philtorch/mat.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 8fe0549..a6174a4 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -144,23 +144,23 @@ def matrices_cumdot(A: Tensor) -> Tensor:
     M = A.size(-3)
     if M == 1:
         return A
-    leading_dims = len(A.shape) - 3
-    factors = factorint(M, multiple=True)[::-1]
-    unfolded_A = A.unflatten(-3, factors)
-    return _mat_cumdot_runner(unfolded_A, leading_dims).flatten(leading_dims, -3)
+    factors = factorint(M, multiple=True)
+    return _mat_cumdot_runner(A, factors)
 
 
-def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
-    accums = torch.stack(list(accumulate(A.unbind(-3), torch.matmul)), dim=-3)
-    if A.dim() == leading_dims + 3:
-        return accums
+def _mat_cumdot_runner(A: Tensor, factors: list[int]) -> Tensor:
+    fac, *factors = factors
+    unfolded_A = A.unflatten(-3, (-1, fac))
+    accums = torch.stack(list(accumulate(unfolded_A.unbind(-3), torch.matmul)), dim=-3)
+    if len(factors) == 0:
+        return accums.flatten(-4, -3)
 
-    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims)
-    tmp = accums[..., 1:, :-1, :, :] @ higher_powers[..., :-1, None, :, :]
+    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], factors)
+    tmp = higher_powers[..., :-1, None, :, :] @ accums[..., 1:, :-1, :, :]
     return torch.cat(
         [
             accums[..., :1, :, :, :],
             torch.cat([tmp, higher_powers[..., 1:, None, :, :]], dim=-3),
         ],
         dim=-4,
-    )
+    ).flatten(-4, -3)
-- 
2.43.0


From fe4628e3242f6b5450c1b51d7d8503d119f37049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 07/42] fix: vandermonde rejected batched poles

---
 philtorch/mat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index a6174a4..4c32893 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -76,7 +76,10 @@ def vandermonde(poles: Tensor) -> Tensor:
     """
     if poles.size(-1) == 1:
         return torch.ones_like(poles).unsqueeze(-1)
-    return torch.vander(poles).mT
+    powers = torch.cumprod(
+        poles.unsqueeze(-2).expand(poles.shape[:-1] + (poles.size(-1) - 1, -1)), dim=-2
+    )
+    return torch.cat([powers.flip(-2), torch.ones_like(poles).unsqueeze(-2)], dim=-2)
 
 
 def matrix_power_accumulate(A: Tensor, n: int) -> Tensor:
-- 
2.43.0


From 7eff1f5b870cb907aed356c27e57533c23e0947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 08/42] fix: state_space took a shared input matrix for a batch
 of vectors when batch size equals order

---
 philtorch/lti/ssm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 3b39c00..529764a 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -464,13 +464,13 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {M,}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B
+            case (BM, F) if BM == M and F == features:
+                Bx = x @ B.T
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                Bx = x @ B.T
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
@@ -764,6 +764,9 @@ def diag_state_space(
                 if VinvB.dim() == 2:
                     VinvB = VinvB.unsqueeze(1)
                 VinvBx = x.unsqueeze(-1) * VinvB
+            case (BM, F) if BM == M and F == features:
+                VinvB = Vinv @ B
+                VinvBx = x @ VinvB.mT
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
@@ -774,9 +777,6 @@ def diag_state_space(
                     else torch.linalg.vecdot(Vinv.conj(), B.unsqueeze(1))
                 )
                 VinvBx = x.unsqueeze(-1) * VinvB.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                VinvB = Vinv @ B
-                VinvBx = x @ VinvB.mT
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
-- 
2.43.0


From 311da1918b066ec431d4ed4793752cae570aa8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 09/42] fix: lpv.state_space misread per-row time-varying C and
 D when batch size equals length

---
 philtorch/lpv/ssm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index c37294a..319202c 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -502,16 +502,16 @@ def state_space(
                 Dx = torch.linalg.vecdot(D.conj(), x)
             case (D_batch, F) if D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
-            case (DN, _) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
-                Dx = D * x.unsqueeze(-1)
             case (D_batch, DN) if D_batch == batch_size and DN == N:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
                 Dx = D * x
+            case (DN, _) if DN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
+                Dx = D * x.unsqueeze(-1)
             case (D_batch, _) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
@@ -556,10 +556,10 @@ def state_space(
                 Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
             case (_, CM) if CM == M:
                 Ch = h @ C.T
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
                 Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, _, CM) if C_batch == batch_size and CM == M:
                 Ch = h @ C.mT
             case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
-- 
2.43.0


From 665340740ff37dbc21e91b30f554690308907f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 10/42] fix: lpv.state_space misread per-row input matrices
 when length equals order

---
 philtorch/lpv/ssm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 319202c..f147a00 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -431,17 +431,17 @@ def state_space(
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BN, BM, F) if BN == N and BM == M and F == features:
                 Bx = torch.linalg.vecdot(B.conj(), x.unsqueeze(-2))
-            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
-                Bx = x.unsqueeze(-1) * B
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
                 Bx = torch.linalg.vecdot(
                     B.unsqueeze(1).conj(), x.unsqueeze(-2)
                 )  # (batch_size, N, M)
+            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
+                Bx = x.unsqueeze(-1) * B
             case (B_batch, BN, BM, F) if (
                 B_batch == batch_size and BM == M and BN == N and F == features
             ):
-- 
2.43.0


From 092ffcfd3a78d3499aed1249d3fec6d624809cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 11/42] fix: lpv.fir and lpv.allpole for single taps and
 signals shorter than the filter

---
 philtorch/lpv/filtering.py | 25 ++++++++-----------------
 philtorch/lpv/utils.py     |  2 +-
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 277b9c9..8e7dbde 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -64,17 +64,8 @@ def fir(
             ).unfold(1, shifted_b.size(2), 1),
         )
         if return_zf:
-            y, zf = torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
-            return (
-                torch.cat(
-                    [
-                        y[..., : b.size(2) - 1] + zi,
-                        y[..., b.size(2) - 1 :],
-                    ],
-                    dim=-1,
-                ),
-                zf,
-            )
+            y = y + F.pad(zi, (0, T))
+            return torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
         return y
 
     unfolded_x = torch.cat([zi.flip(1), x], dim=1).unfold(1, b.size(2), 1)
@@ -122,17 +113,17 @@ def allpole(
 
     if transpose:
         a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
-        x = torch.cat(
-            [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
-            + ([torch.zeros_like(zi)] if return_zf else []),
-            dim=1,
-        )
+        if return_zf:
+            x = F.pad(x, (0, a.size(2))) + F.pad(zi, (0, T))
         y = sample_wise_lpc(x, a)
         if return_zf:
             return torch.split_with_sizes(y, [T, a.size(2)], 1)
         return y
 
-    return sample_wise_lpc(x, a, zi=zi, return_zf=return_zf)
+    y = sample_wise_lpc(x, a, zi=zi)
+    if return_zf:
+        return y, torch.cat([zi.flip(1), y], dim=1)[:, T:].flip(1)
+    return y
 
 
 def lfilter(
diff --git a/philtorch/lpv/utils.py b/philtorch/lpv/utils.py
index ccbb084..b6e5e9f 100644
--- a/philtorch/lpv/utils.py
+++ b/philtorch/lpv/utils.py
@@ -29,5 +29,5 @@ def diag_shift(coef: Tensor, offset: int = 0, discard_end: bool = False) -> Tens
         .unflatten(-1, (M, T + M + offset - 1))
     )
     if discard_end:
-        y = y[..., : -(M - 1 + offset)]
+        y = y[..., :T]
     return y.mT
-- 
2.43.0


From dfd07265ae06832baba842c35453333228cd8893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 12/42] fix: transposed LPV forms conjugated complex
 coefficients

---
 philtorch/lpv/filtering.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 8e7dbde..1cd170d 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -57,7 +57,7 @@ def fir(
     if transpose:
         shifted_b = diag_shift(b, discard_end=not return_zf)
         y = torch.linalg.vecdot(
-            shifted_b.flip(2),
+            shifted_b.flip(2).conj(),
             F.pad(
                 x,
                 (shifted_b.size(2) - 1, 0 if not return_zf else shifted_b.size(2) - 1),
@@ -112,7 +112,7 @@ def allpole(
         return_zf = True
 
     if transpose:
-        a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
+        a = diag_shift(a, offset=1, discard_end=not return_zf)
         if return_zf:
             x = F.pad(x, (0, a.size(2))) + F.pad(zi, (0, T))
         y = sample_wise_lpc(x, a)
@@ -313,10 +313,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -346,14 +346,12 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT.conj(),
+                    A.mT,
                     zi,
                     out_idx=0,
                     **kwargs,
                 ),
-                partial(
-                    fir, b.conj().broadcast_to((x.size(0), -1, -1)), transpose=True
-                ),
+                partial(fir, b.broadcast_to((x.size(0), -1, -1)), transpose=True),
             )
         case _:
             raise ValueError(f"Unknown filter form: {form}")
-- 
2.43.0


From ddf0a84b7293a97cea8dcf5d1e6f0ad00c64896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 13/42] fix: lpv.lfilter tdf1 applied the denominator one step
 too early in the ssm backend

---
 philtorch/lpv/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 1cd170d..43df3f2 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -346,7 +346,8 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT,
+                    # the delay line holds values made with the previous step's coefficients
+                    A.mT.roll(1, dims=-3),
                     zi,
                     out_idx=0,
                     **kwargs,
-- 
2.43.0


From 570c79ee2685ba0da57ddfc95ae94f59b08b93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 14/42] fix: lfiltic for filters without past inputs or outputs

---
 philtorch/lti/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 7b91269..72d0175 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -92,8 +92,8 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
-    a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
+    b_mat = F.pad(b[..., 1:], (0, m), value=0.0).unfold(-1, m, 1)[..., :m, :]
+    a_mat = F.pad(a, (0, n), value=0.0).unfold(-1, n, 1)[..., :n, :]
     zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
     zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
     if zi_b.size(-1) < k:
-- 
2.43.0


From 7f9118bcb30de3cf3744db04aee9d8d3cabbf3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 15/42] fix: comb_filter state for delay 1, short signals and
 shared coefficient; works without the extension

---
 philtorch/lti/filtering.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 72d0175..e4fbaa9 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -8,8 +8,7 @@ from .ssm import state_space, state_space_recursion, diag_state_space
 from ..mat import companion
 from ..utils import chain_functions
 from ..poly import polydiv
-from .recur import linear_recurrence, LTIRecurrence
-from .. import EXTENSION_LOADED
+from .recur import linear_recurrence
 
 
 def comb_filter(
@@ -28,16 +27,13 @@ def comb_filter(
     assert a.dim() <= 1, "Denominator coefficients a must be at most 1D."
     assert x.dim() == 2, "Input signal x must be 2D."
     assert delay >= 0, "Delay must be non-negative."
+    if a.dim() == 1 and a.size(0) == 1:
+        a = a.squeeze(0)
     if a.dim() == 1:
         assert a.size(0) == x.size(
             0
         ), "The first dimension of a must match the batch size of x."
 
-    if delay == 1:
-        return linear_recurrence(
-            -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
-        )
-
     remainder = x.size(1) % delay
     if remainder != 0:
         x = F.pad(x, (0, delay - remainder))
@@ -46,28 +42,21 @@ def comb_filter(
     if a.dim() == 1:
         a = a.repeat_interleave(delay)
     if zi is not None:
-        return_zf = True
-        if zi.dim() == 1:
-            zi = zi.flip(0).repeat(x.size(0))
-        else:
-            zi = zi.flip(1).flatten()
+        past = zi.broadcast_to((x.size(0), delay)).flip(1)
+        zi = past.flatten()
     else:
-        return_zf = False
+        past = None
         zi = torch.zeros_like(a)
 
     y = (
-        (
-            linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
-            if EXTENSION_LOADED
-            else LTIRecurrence.apply(-a, zi, folded_x.flatten(0, 1))
-        )
+        linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
         .unflatten(0, (-1, delay))
         .mT.flatten(1, 2)
     )
     if remainder != 0:
         y = y[:, : -(delay - remainder)]
-    if return_zf:
-        return y, y[:, -delay:].flip(1)
+    if past is not None:
+        return y, torch.cat([past, y], dim=1)[:, -delay:].flip(1)
     return y
 
 
-- 
2.43.0


From 8c5fe210d7e6ba5f45d29a9f5e124dd181ef3edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 16/42] fix: filtfilt for forms df1/tdf1 and for numerators
 longer than the denominator

---
 philtorch/lti/filtering.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index e4fbaa9..4cba9a5 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -459,13 +459,28 @@ def filtfilt(
     else:
         ext = x
 
-    zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
-    x0 = ext[..., :1]
+    stateless = form in ("df1", "tdf1") or (
+        kwargs.get("backend") == "diag_ssm" and b.size(-1) > a.size(-1) + 1
+    )
+    if stateless:
+        # no initial state can be given here; starting at rest and filtering the
+        # deviation from the first sample is the same as starting in steady state
+        gain = b.sum(-1, keepdim=True) / (1 + a.sum(-1, keepdim=True))
+
+        def filt(s: Tensor) -> Tensor:
+            s0 = s[..., :1]
+            return lfilter(b, a, s - s0, form=form, **kwargs) + gain * s0
+
+    else:
+        if form == "df2" and a.size(-1) < ntaps - 1:
+            a = F.pad(a, (0, ntaps - 1 - a.size(-1)))
+        zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
 
-    y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
-    y0 = y[..., -1:]
+        def filt(s: Tensor) -> Tensor:
+            return lfilter(b, a, s, zi=zi * s[..., :1], form=form, **kwargs)[0]
 
-    y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+    y = filt(ext)
+    y = filt(y.flip(-1))
 
     if edge > 0:
         y = y[..., edge:-edge]
-- 
2.43.0


From d7ce430a87470680af90619150f2c5abab0731b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 17/42] fix: cubic_spline kernel grid for factors whose
 reciprocal is inexact

---
 philtorch/lti/interp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index d4b784b..1fb7c09 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -121,9 +121,9 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
 
     c = cspline(x, scipy_padding=scipy_padding, **kwargs)
 
-    kernel_idx = torch.arange(-2, 2, 1 / m, device=x.device, dtype=x.dtype).reshape(
-        4, m
-    )
+    kernel_idx = (
+        torch.arange(-2 * m, 2 * m, device=x.device, dtype=x.dtype) / m
+    ).reshape(4, m)
     kernel = _cubic_spline_kernel(kernel_idx).flip(0).T
 
     interped = F.conv1d(
-- 
2.43.0


From 4176bff3411fb9e0fff3e82deb77755fcf61c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 18/42] fix: compiled operators read out of bounds when
 argument sizes disagree

---
 philtorch/csrc/host_lti_recur.cpp  |  4 ++++
 philtorch/csrc/host_lti_recurN.cpp |  5 +++++
 philtorch/csrc/host_recur2.cpp     |  7 +++++++
 philtorch/csrc/host_recurN.cpp     | 14 ++++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index 96615f9..fa53c7a 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -48,6 +48,10 @@ at::Tensor lti_recur_cpu_impl(const at::Tensor &a,
                 "A must have the same scalar type as input");
     TORCH_CHECK(a.dim() <= 1, "A must be a vector or a scalar");
     TORCH_CHECK(zi.dim() == 1, "zi must be a vector");
+    TORCH_CHECK(x.dim() == 2, "x must be a matrix");
+    TORCH_CHECK(zi.size(0) == x.size(0), "zi and x must have the same batch size");
+    TORCH_CHECK(a.numel() == 1 || a.size(0) == x.size(0),
+                "A must have one element or one per batch");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 2ba902e..dfcf3ea 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -69,6 +69,11 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) && zi.size(1) == x.size(2),
+                "zi must have the batch and state sizes of x");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "First dimension of a 3D A must match the batch size of x");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
diff --git a/philtorch/csrc/host_recur2.cpp b/philtorch/csrc/host_recur2.cpp
index 2707dae..c919729 100644
--- a/philtorch/csrc/host_recur2.cpp
+++ b/philtorch/csrc/host_recur2.cpp
@@ -117,6 +117,13 @@ at::Tensor mat_recur_second_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) && zi.size(1) == x.size(2),
+                "zi must have the batch and state sizes of x");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Time dimension of A must match the time dimension of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "First dimension of a 4D A must match the batch size of x");
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 6c397c9..3964faf 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -193,6 +193,13 @@ at::Tensor mat_recur_N_order_cpu_impl(const at::Tensor &A, const at::Tensor &zi,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) && zi.size(1) == x.size(2),
+                "zi must have the batch and state sizes of x");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Time dimension of A must match the time dimension of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "First dimension of a 4D A must match the batch size of x");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
@@ -242,6 +249,13 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) && zi.size(1) == x.size(2),
+                "zi must have the batch and state sizes of x");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Time dimension of A must match the time dimension of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "First dimension of a 4D A must match the batch size of x");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
-- 
2.43.0


From d2d5fbc1b6a4f7454bfff66b36c9c49c296f1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 19/42] fix: 32-bit index overflow in the CPU recurrences on
 tensors of 2^31 or more elements

---
 philtorch/csrc/host_lti_recur.cpp  | 12 ++++++------
 philtorch/csrc/host_lti_recurN.cpp | 12 ++++++------
 philtorch/csrc/host_recurN.cpp     | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index fa53c7a..ec9d2fb 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -2,19 +2,19 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_linear_recurrence(int B, int T,
+void host_lti_batch_linear_recurrence(int64_t B, int64_t T,
                                       const scalar_t *a,
                                       scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t a_b = a[b];
         scalar_t *out_b = out + b * T;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a_b * out_b[t - 1];
         }
@@ -22,17 +22,17 @@ void host_lti_batch_linear_recurrence(int B, int T,
 }
 
 template <typename scalar_t>
-void host_lti_shared_linear_recurrence(int B, int T,
+void host_lti_shared_linear_recurrence(int64_t B, int64_t T,
                                        const scalar_t a,
                                        scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *out_b = out + b * T;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a * out_b[t - 1];
         }
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index dfcf3ea..15254be 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -2,20 +2,20 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_mat_recur_N_order(int B, int T, int N,
+void host_lti_batch_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
@@ -33,18 +33,18 @@ void host_lti_batch_mat_recur_N_order(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_lti_share_mat_recur_N_order(int B, int T, int N,
+void host_lti_share_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 3964faf..9e2a463 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -79,20 +79,20 @@ void host_batch_mat_recur_N_order(const scalar_t *Ax, scalar_t *out,
 }
 
 template <typename scalar_t>
-void host_batch_mat_recur_N_order_omp(int B, int T, int N,
+void host_batch_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * T * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A_b + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
@@ -111,18 +111,18 @@ void host_batch_mat_recur_N_order_omp(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_share_mat_recur_N_order_omp(int B, int T, int N,
+void host_share_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
-- 
2.43.0


From a44a79440ce358b2636f0c38aed82683ba0a645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 20/42] fix: fake kernels reported the input's strides, the
 operators return contiguous results

---
 philtorch/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7ea621d..fefc088 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -174,7 +174,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
@@ -195,7 +195,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
@@ -211,7 +211,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
@@ -228,7 +228,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
@@ -241,7 +241,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 1D, its length must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return x.new_empty(x.shape)
 
     torch.library.register_autograd(
         "philtorch::recur2",
-- 
2.43.0


From 16ccaf0d199eab28b610aaf31a7210ea3c969df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 21/42] fix: lpv.linear_recurrence truncated to the shorter of
 coefficients and signal

---
 philtorch/lpv/recur.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index 1dc9fcd..aab92ac 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -38,9 +38,9 @@ def linear_recurrence(
     """
     assert x.dim() == 2, f"Input x must be 2D, got {x.shape}"
     assert a.dim() in (1, 2), f"State matrix a must be 1D or 2D, got {a.shape}"
-    if a.dim() == 1 and a.size(0) != x.size(1):
+    if a.size(-1) != x.size(1):
         raise ValueError(
-            f"State matrix a must be 1D with the same length as x, got a: {a.size(0)}, x: {x.size(1)}"
+            f"State matrix a must have the same length as x, got a: {a.size(-1)}, x: {x.size(1)}"
         )
 
     batch_size, N = x.size(0), x.size(1)
-- 
2.43.0


From b6ca05bd5971810fec569ba6fe8fb62617423da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 22/42] fix: sos2pfe returned NaN, mixed up real and complex
 sections and lost terms of repeated complex poles

---
 philtorch/prototype/signal.py | 54 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index bd239ed..ca7ca10 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -183,8 +183,7 @@ def sos2pfe(
     b = b[:, 1:] / b[:, :1]
     a = a[:, 1:] / a[:, :1]
 
-    expsumlog = lambda x: x.log().sum(dim=-1).exp()
-    G0 = expsumlog(k0)
+    G0 = k0.prod(dim=-1)
 
     a1, a2 = a[:, 0], a[:, 1]
     b1, b2 = b[:, 0], b[:, 1]
@@ -202,7 +201,7 @@ def sos2pfe(
         ).flatten()
         * 0.5
     )
-    is_complex_root_ext = is_complex_root.repeat(2)
+    is_complex_root_ext = is_complex_root.repeat_interleave(2)
     unique_poles, multiplicity, is_complex = unique_roots(
         all_roots, tol=tol, rtype=rtype, is_complex=is_complex_root_ext
     )
@@ -216,18 +215,19 @@ def sos2pfe(
 
     if torch.any(~repeated_mask):
         non_repeated_poles = unique_poles[~repeated_mask]
-        numerator_val = expsumlog(
+        numerator_val = (
             non_repeated_poles[:, None] * non_repeated_poles[:, None]
             + non_repeated_poles[:, None] * b1
             + b2
-        )
+        ).prod(dim=-1)
 
         mask = repeated_mask.new_zeros(len(non_repeated_poles), len(unique_poles))
         mask[range(len(non_repeated_poles)), torch.where(~repeated_mask)[0]] = True
 
-        denominator_val = expsumlog(
-            (non_repeated_poles[:, None] - unique_poles)
-            ** torch.where(mask, 0, multiplicity)
+        denominator_val = (
+            ((non_repeated_poles[:, None] - unique_poles) ** multiplicity)
+            .masked_fill(mask, 1.0)
+            .prod(dim=-1)
         )
         non_repeated_residues = numerator_val / denominator_val
 
@@ -301,17 +301,28 @@ def sos2pfe(
             repeated_poles[~sub_complex_mask].real.repeat_interleave(
                 multiplicity[repeated_mask][~sub_complex_mask]
             ),
-            torch.stack(
-                sum(
-                    [repeated_residues[i] for i in torch.where(~sub_complex_mask)[0]],
-                    [],
+            (
+                torch.stack(
+                    sum(
+                        [
+                            repeated_residues[i]
+                            for i in torch.where(~sub_complex_mask)[0]
+                        ],
+                        [],
+                    )
+                ).real
+                if torch.any(~sub_complex_mask)
+                else G0.new_empty(0)
+            ),
+            (
+                torch.cat(
+                    [
+                        torch.arange(mult.item(), 0, -1, device=repeated_poles.device)
+                        for mult in multiplicity[repeated_mask][~sub_complex_mask]
+                    ],
                 )
-            ).real,
-            torch.cat(
-                [
-                    torch.arange(mult.item(), 0, -1, device=repeated_poles.device)
-                    for mult in multiplicity[repeated_mask][~sub_complex_mask]
-                ],
+                if torch.any(~sub_complex_mask)
+                else multiplicity.new_empty(0)
             ),
         )
         cplx_repeated = (
@@ -361,9 +372,10 @@ def sos2pfe(
     )
 
     assert len(cplx_poles) % 2 == 0, "Complex poles must be even."
-    cplx_poles = cplx_poles[::2]
-    cplx_residues = cplx_residues[::2]
-    cplx_powers = cplx_powers[::2]
+    upper_half = cplx_poles.imag > 0  # one of each conjugate pair
+    cplx_poles = cplx_poles[upper_half]
+    cplx_residues = cplx_residues[upper_half]
+    cplx_powers = cplx_powers[upper_half]
 
     return (
         (real_residues, cplx_residues),
-- 
2.43.0


From 4a24438bd4462f7bb609882e78defce0c28fb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 23/42] fix: prototype residue/roots/polyval for constants and
 monomials, unique_roots with rtype min/max

---
 philtorch/prototype/poly.py   | 8 ++++----
 philtorch/prototype/signal.py | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 4a715d6..79a64bc 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -31,11 +31,11 @@ def roots(p: Tensor) -> Tensor:
         raise ValueError("Input must be a rank-1 array.")
 
     # find non-zero array entries
-    non_zero = torch.nonzero(p).squeeze()
+    non_zero = torch.nonzero(p).squeeze(-1)
 
     # Return an empty array if polynomial is all zeros
     if non_zero.numel() == 0:
-        return torch.tensor([])
+        return p.new_zeros(0) + 0j
 
     # find the number of trailing zeros -- this is the number of roots at 0.
     trailing_zeros = p.numel() - non_zero[-1] - 1
@@ -51,7 +51,7 @@ def roots(p: Tensor) -> Tensor:
         A[0, :] = -p[1:] / p[0]
         roots = torch.linalg.eigvals(A)
     else:
-        roots = torch.tensor([])
+        roots = p.new_zeros(0) + 0j
 
     # tack any zeros onto the back of the array
     if trailing_zeros > 0:
@@ -122,7 +122,7 @@ def polyval(p: Tensor, x: Tensor) -> Tensor:
     """
     p = trim_zeros(p)
     if p.numel() == 1:
-        return p
+        return torch.zeros_like(x) + p[0]
     return reduce(lambda y, pv: y * x + pv, p.unbind(0))
 
 
diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index ca7ca10..90e7e33 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -14,11 +14,15 @@ def unique_roots(
     is_complex: Optional[Tensor] = None,
 ) -> tuple[Tensor, Tensor, Tensor]:
     """Determine unique roots and their multiplicities from a list of roots."""
+    def lexsorted(z: Tensor) -> Tensor:
+        z = z[z.imag.argsort(stable=True)]
+        return z[z.real.argsort(stable=True)]
+
     match rtype:
         case "max" | "maximum":
-            reduction = torch.max
+            reduction = lambda z: lexsorted(z)[-1]
         case "min" | "minimum":
-            reduction = torch.min
+            reduction = lambda z: lexsorted(z)[0]
         case "avg" | "mean":
             reduction = torch.mean
         case _:
-- 
2.43.0


From 320ee0a71246f8991251a73fcbcd8be2edcf8234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 24/42] fix: double backward of the scalar recurrence on
 signals of one sample

---
 philtorch/__init__.py  | 13 ++-----------
 philtorch/lti/recur.py | 13 ++-----------
 2 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index fefc088..7990e1b 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -118,17 +118,8 @@ def _lti_recur_backward(
     a, init, out = ctx.saved_tensors
     grad_a = grad_x = grad_init = None
 
-    bp_init = grad_out[:, -1]
-    flipped_grad_x = torch.cat(
-        [
-            bp_init.unsqueeze(1),
-            torch.ops.philtorch.lti_recur(
-                a.conj_physical(),
-                bp_init,
-                grad_out[:, :-1].flip(1),
-            ),
-        ],
-        dim=1,
+    flipped_grad_x = torch.ops.philtorch.lti_recur(
+        a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
     )
 
     if ctx.needs_input_grad[1]:
diff --git a/philtorch/lti/recur.py b/philtorch/lti/recur.py
index 6ac3094..e6e3622 100644
--- a/philtorch/lti/recur.py
+++ b/philtorch/lti/recur.py
@@ -29,17 +29,8 @@ class LTIRecurrence(Function):
         a, init, out = ctx.saved_tensors
         grad_a = grad_x = grad_init = None
 
-        bp_init = grad_out[:, -1]
-        flipped_grad_x = torch.cat(
-            [
-                bp_init.unsqueeze(1),
-                LTIRecurrence.apply(
-                    a.conj_physical(),
-                    bp_init,
-                    grad_out[:, :-1].flip(1),
-                ),
-            ],
-            dim=1,
+        flipped_grad_x = LTIRecurrence.apply(
+            a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
         )
 
         if ctx.needs_input_grad[1]:
-- 
2.43.0


From 8d65f4c7d4854fd5d3a493227e38518ea7b1632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 25/42] fix: lti.lfilter df2 took numerators of a wrong batch
 size for an output matrix

---
 philtorch/lti/filtering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 4cba9a5..85c1d45 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -239,6 +239,10 @@ def lfilter(
 
     assert b.dim() in (1, 2), "Numerator coefficients b must be 1D or 2D."
     assert a.dim() in (1, 2), "Denominator coefficients a must be 1D or 2D."
+    assert b.dim() == 1 or b.size(0) in (
+        1,
+        x.size(0),
+    ), "The first dimension of b must match the batch size of x."
 
     match backend:
         case "ssm":
-- 
2.43.0


From 769f6a6e4763681b199ffc2126a030a136f0034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 26/42] fix: filtfilt flattened signals of three or more
 dimensions

---
 philtorch/lti/filtering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 85c1d45..047cb4e 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -434,6 +434,7 @@ def filtfilt(
     Returns:
         Tensor: Zero-phase filtered output with the same shape as x.
     """
+    assert x.dim() in (1, 2), "Input signal x must be 1D or 2D."
     assert method in ("pad", "gust"), "Method must be either 'pad' or 'gust'."
 
     if method == "gust":
-- 
2.43.0


From 495a63e69f9538b17a8fe94e15fc9efaf77b12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 27/42] fix: operators returned a view with a storage offset
 for a single row, unlike their fake kernels

---
 philtorch/csrc/host_lti_recur.cpp  | 2 +-
 philtorch/csrc/host_lti_recurN.cpp | 2 +-
 philtorch/csrc/host_recur2.cpp     | 2 +-
 philtorch/csrc/host_recurN.cpp     | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index ec9d2fb..9c8781b 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -80,7 +80,7 @@ at::Tensor lti_recur_cpu_impl(const at::Tensor &a,
     }
 
     return output.slice(1, 1, output.size(1))
-        .contiguous(); // Remove the initial state from the output
+        .clone(at::MemoryFormat::Contiguous); // Remove the initial state from the output
 }
 
 TORCH_LIBRARY_IMPL(philtorch, CPU, m)
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 15254be..0ab5694 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -109,7 +109,7 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
                   out.mutable_data_ptr<scalar_t>()); });
     }
     return out.slice(1, 1, n_steps)
-        .contiguous(); // Remove the initial state from the output
+        .clone(at::MemoryFormat::Contiguous); // Remove the initial state from the output
 }
 
 TORCH_LIBRARY_IMPL(philtorch, CPU, m)
diff --git a/philtorch/csrc/host_recur2.cpp b/philtorch/csrc/host_recur2.cpp
index c919729..4a683c1 100644
--- a/philtorch/csrc/host_recur2.cpp
+++ b/philtorch/csrc/host_recur2.cpp
@@ -163,7 +163,7 @@ at::Tensor mat_recur_second_order_cpu_impl(const at::Tensor &A,
     }
     return out.reshape({n_batches, n_steps, 2})
         .slice(1, 1, n_steps)
-        .contiguous(); // Remove the initial state from the output
+        .clone(at::MemoryFormat::Contiguous); // Remove the initial state from the output
 }
 
 TORCH_LIBRARY(philtorch, m)
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 9e2a463..935164d 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -237,7 +237,7 @@ at::Tensor mat_recur_N_order_cpu_impl(const at::Tensor &A, const at::Tensor &zi,
                   n_batches); });
     }
     return out.slice(1, 1, n_steps)
-        .contiguous(); // Remove the initial state from the output
+        .clone(at::MemoryFormat::Contiguous); // Remove the initial state from the output
 }
 
 at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
@@ -291,7 +291,7 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
                   out.mutable_data_ptr<scalar_t>()); });
     }
     return out.slice(1, 1, n_steps)
-        .contiguous(); // Remove the initial state from the output
+        .clone(at::MemoryFormat::Contiguous); // Remove the initial state from the output
 }
 
 TORCH_LIBRARY_IMPL(philtorch, CPU, m)
-- 
2.43.0


From 9017f933b8d7a8d1827195f958cf95853eb2e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 28/42] fix: CUDA recurrence operators read out of bounds when
 argument sizes disagree

---
 philtorch/csrc/lti_recur.cu  |  4 ++++
 philtorch/csrc/lti_recur2.cu |  5 +++++
 philtorch/csrc/recur2.cu     | 11 +++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/philtorch/csrc/lti_recur.cu b/philtorch/csrc/lti_recur.cu
index 41e8554..28ce670 100644
--- a/philtorch/csrc/lti_recur.cu
+++ b/philtorch/csrc/lti_recur.cu
@@ -119,6 +119,10 @@ at::Tensor lti_recur_cuda_impl(const at::Tensor &a,
                 "A must have the same scalar type as input");
     TORCH_CHECK(a.dim() <= 1, "A must be a vector or a scalar");
     TORCH_CHECK(zi.dim() == 1, "zi must be a vector");
+    TORCH_CHECK(x.dim() == 2, "x must be a matrix");
+    TORCH_CHECK(zi.size(0) == x.size(0), "zi and x must have the same batch size");
+    TORCH_CHECK(a.numel() == 1 || a.size(0) == x.size(0),
+                "A must have one element or one per batch");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/lti_recur2.cu b/philtorch/csrc/lti_recur2.cu
index 8e7b405..a14c4ee 100644
--- a/philtorch/csrc/lti_recur2.cu
+++ b/philtorch/csrc/lti_recur2.cu
@@ -72,6 +72,11 @@ at::Tensor lti_mat_recur_second_order_cuda_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) && zi.size(1) == x.size(2),
+                "zi must have the batch and state sizes of x");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "First dimension of a 3D A must match the batch size of x");
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
diff --git a/philtorch/csrc/recur2.cu b/philtorch/csrc/recur2.cu
index 3e00077..4bdae36 100644
--- a/philtorch/csrc/recur2.cu
+++ b/philtorch/csrc/recur2.cu
@@ -70,11 +70,18 @@ at::Tensor mat_recur_second_order_cuda_impl(const at::Tensor &A,
                                             const at::Tensor &zi,
                                             const at::Tensor &x)
 {
-    TORCH_CHECK(zi.scalar_type() == zi.scalar_type(),
+    TORCH_CHECK(zi.scalar_type() == x.scalar_type(),
                 "zi must have the same scalar type as input");
-    TORCH_CHECK(A.scalar_type() == A.scalar_type(),
+    TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2 && zi.size(0) == x.size(0) && zi.size(1) == x.size(2),
+                "zi must have the batch and state sizes of x");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Time dimension of A must match the time dimension of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "First dimension of a 4D A must match the batch size of x");
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
-- 
2.43.0


From 2d68362f81b0b3d3f1f2d7ceee6694396bd3bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 29/42] fix: abstract evaluation of the operators accepted
 signals and states of the wrong rank

---
 philtorch/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7990e1b..eb0a1f6 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -151,6 +151,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
         torch._check(x.shape[2] == 2, "x must have last dimension of size 2.")
         torch._check(
@@ -171,6 +173,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
@@ -192,6 +196,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
         torch._check(x.shape[2] == 2, "x must have last dimension of size 2.")
         torch._check(
@@ -208,6 +214,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
@@ -224,6 +232,8 @@ if EXTENSION_LOADED:
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
         torch._check(A.ndim <= 1, "A must be 1D or scalar.")
+        torch._check(zi.ndim == 1, "zi must be 1D.")
+        torch._check(x.ndim == 2, "x must be 2D.")
         torch._check(
             zi.shape[0] == x.shape[0], "x and zi must have the same batch size."
         )
-- 
2.43.0


From ce2b5c059547d41d54b64d4c0f19654b406d89c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 30/42] fix: reverse over forward mode derivatives of the
 unrolled scalar recurrences at zero coefficients

---
 philtorch/lpv/recur.py |  6 +++++-
 philtorch/lti/recur.py | 11 ++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index aab92ac..84c8e42 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -2,6 +2,7 @@ import torch
 from torch import Tensor
 from torch.nn import functional as F
 from typing import Optional
+from itertools import accumulate
 
 
 def _scalar_recursion_loop(
@@ -75,7 +76,10 @@ def linear_recurrence(
     unrolled_x = x.unflatten(1, (-1, block_size))
     unrolled_a = a.unflatten(-1, (-1, block_size))
 
-    a_powers = torch.cumprod(unrolled_a[..., 1:].flip(-1), dim=-1).flip(-1)
+    # (torch.cumprod has no second derivatives at zero)
+    a_powers = torch.stack(
+        list(accumulate(unrolled_a[..., 1:].flip(-1).unbind(-1), torch.mul)), dim=-1
+    ).flip(-1)
     a_powered = a_powers[..., 0] * unrolled_a[..., 0]
     a_powers_plus_I = F.pad(a_powers, (0, 1), value=1.0)
 
diff --git a/philtorch/lti/recur.py b/philtorch/lti/recur.py
index e6e3622..9951fbb 100644
--- a/philtorch/lti/recur.py
+++ b/philtorch/lti/recur.py
@@ -3,6 +3,7 @@ from torch import Tensor
 from torch.autograd import Function
 from torch.nn import functional as F
 from typing import Optional, Any
+from itertools import accumulate
 
 
 class LTIRecurrence(Function):
@@ -140,13 +141,9 @@ def linear_recurrence(
 
     unrolled_x = x.unflatten(1, (-1, block_size))
 
-    a_powers = torch.cumprod(
-        (
-            a.expand(block_size)
-            if a.numel() == 1
-            else a.unsqueeze(1).expand(-1, block_size)
-        ),
-        dim=-1,
+    # (torch.cumprod has no second derivatives at zero)
+    a_powers = torch.stack(
+        list(accumulate([a.squeeze(0)] * block_size, torch.mul)), dim=-1
     )
     a_powered = a_powers[..., -1]
     a_powers_plus_I = F.pad(a_powers[..., :-1].flip(-1), (0, 1), value=1.0)
-- 
2.43.0


From 81a88c4786f6f567aedc7c052fd49ac567979f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 31/42] fix: reverse over forward mode derivatives of
 vandermonde at zero poles

---
 philtorch/mat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 4c32893..ed23bd9 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -76,8 +76,9 @@ def vandermonde(poles: Tensor) -> Tensor:
     """
     if poles.size(-1) == 1:
         return torch.ones_like(poles).unsqueeze(-1)
-    powers = torch.cumprod(
-        poles.unsqueeze(-2).expand(poles.shape[:-1] + (poles.size(-1) - 1, -1)), dim=-2
+    # (torch.cumprod has no second derivatives at zero)
+    powers = torch.stack(
+        list(accumulate([poles] * (poles.size(-1) - 1), torch.mul)), dim=-2
     )
     return torch.cat([powers.flip(-2), torch.ones_like(poles).unsqueeze(-2)], dim=-2)
 
-- 
2.43.0


From a77f8a99c3519dce1f7077107c08a19b7ce93ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 32/42] fix: lti.lfilter df2 returned a three-dimensional
 result for a numerator with a single row

---
 philtorch/lti/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 047cb4e..9c5e1cf 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -243,6 +243,8 @@ def lfilter(
         1,
         x.size(0),
     ), "The first dimension of b must match the batch size of x."
+    if b.dim() == 2 and b.size(0) == 1:
+        b = b.squeeze(0)
 
     match backend:
         case "ssm":
-- 
2.43.0


From d1f9abe8eb23e4ccaac3e3744533fd9b10d3a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 33/42] fix: lpv.lfilter took coefficients of a wrong batch
 size for output matrices

---
 philtorch/lpv/filtering.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 43df3f2..14a1abd 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -285,6 +285,17 @@ def _ssm_lfilter(
     **kwargs,
 ) -> Union[Tensor, tuple[Tensor, Tensor]]:
     """Apply a batch of time-invariant linear filters to input signal using state-space model."""
+    if b.dim() == 3 and b.size(0) == 1:
+        b = b.squeeze(0)
+    if a.dim() == 3 and a.size(0) == 1:
+        a = a.squeeze(0)
+    assert b.dim() == 2 or b.size(0) == x.size(
+        0
+    ), f"Batch size of b must match batch size of x, got b: {b.size(0)}, x: {x.size(0)}"
+    assert a.dim() == 2 or a.size(0) == x.size(
+        0
+    ), f"Batch size of a must match batch size of x, got a: {a.size(0)}, x: {x.size(0)}"
+
     if b.size(-1) < a.size(-1) + 1:
         b = F.pad(b, (0, a.size(-1) + 1 - b.size(-1)))
     elif b.size(-1) > a.size(-1) + 1:
-- 
2.43.0


From 5d240cea21e5f10e176d665fda0ef4559ff3b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 34/42] fix: lpv.linear_recurrence accepted more rows of
 coefficients than of signals

---
 philtorch/lpv/recur.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index 84c8e42..609ca7f 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -44,6 +44,11 @@ def linear_recurrence(
             f"State matrix a must have the same length as x, got a: {a.size(-1)}, x: {x.size(1)}"
         )
 
+    if a.dim() == 2 and a.size(0) > 1 and a.size(0) != x.size(0):
+        raise ValueError(
+            f"State matrix a must have the same batch size as x, got a: {a.size(0)}, x: {x.size(0)}"
+        )
+
     batch_size, N = x.size(0), x.size(1)
 
     assert init.dim() in (
-- 
2.43.0


From 411b0643743947a86f67c6092579ebf832028128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 35/42] fix: state_space added scalar and vector outputs when
 their sizes happened to broadcast

---
 philtorch/lpv/ssm.py | 4 ++++
 philtorch/lti/ssm.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index f147a00..c22625a 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -572,6 +572,10 @@ def state_space(
         Ch = h
 
     if Dx is not None:
+        if Ch.dim() != Dx.dim():
+            raise ValueError(
+                f"C and D must both give scalar outputs or both give vector outputs, got shapes {Ch.shape} and {Dx.shape}"
+            )
         y = Ch + Dx
     else:
         y = Ch
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 529764a..afc5ab3 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -583,6 +583,10 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         Ch = h
 
     if Dx is not None:
+        if Ch.dim() != Dx.dim():
+            raise ValueError(
+                f"C and D must both give scalar outputs or both give vector outputs, got shapes {Ch.shape} and {Dx.shape}"
+            )
         y = Ch + Dx
     else:
         y = Ch
-- 
2.43.0


From 5b14daf8ed15c6796647e25fc6d495314c578269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:11 +0000
Subject: [PATCH 36/42] fix: lpv.lfilter took numerators of a wrong length for
 output matrices when the signal has one sample

---
 philtorch/lpv/filtering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 14a1abd..6ff9b50 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -285,6 +285,9 @@ def _ssm_lfilter(
     **kwargs,
 ) -> Union[Tensor, tuple[Tensor, Tensor]]:
     """Apply a batch of time-invariant linear filters to input signal using state-space model."""
+    assert (
+        b.size(-2) == a.size(-2) == x.size(1)
+    ), "The number of time steps in b and a must match the input signal x."
     if b.dim() == 3 and b.size(0) == 1:
         b = b.squeeze(0)
     if a.dim() == 3 and a.size(0) == 1:
-- 
2.43.0


From 3db2c2093135c527b9ce28a7eeeed541f55d1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:11 +0000
Subject: [PATCH 37/42] fix: diag_state_space summed over initial states of a
 wrong size for models of order one

---
 philtorch/lti/ssm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index afc5ab3..9e3b750 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -731,6 +731,10 @@ def diag_state_space(
         zi = x.new_zeros(batch_size, M)
     elif zi.dim() == 1:
         zi = zi.unsqueeze(0).expand(batch_size, -1)
+    assert zi.shape == (
+        batch_size,
+        M,
+    ), f"Initial conditions zi must be of shape ({M},) or ({batch_size}, {M}), got {zi.shape}"
 
     x_orig = x
     # the states of a real system are real, even if its eigenvalues are not
-- 
2.43.0


From af4cfaf73ee1a96cc618f1c4710373a1e1954ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:11 +0000
Subject: [PATCH 38/42] fix: lfilter_zi took a batch of right-hand sides for a
 matrix when the ranks of a and b differ

---
 philtorch/lti/filtering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 9c5e1cf..24489a1 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -125,9 +125,8 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
 
     IminusA = torch.eye(n - 1, device=a.device, dtype=a.dtype) - A
 
-    if IminusA.ndim == 2 and B.ndim > 1:
-        IminusA = IminusA.expand(*B.shape[:-1], -1, -1)
-    zi = torch.linalg.solve(IminusA, B)
+    B = B.expand(torch.broadcast_shapes(B.shape, A.shape[:-1]))
+    zi = torch.linalg.solve(IminusA, B.unsqueeze(-1)).squeeze(-1)
     return zi
 
 
-- 
2.43.0


From 4cd65da9000d7aad04d7a9ab2c9c9d2ee53e70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:04 +0000
Subject: [PATCH 39/42] fix: residue and residuez returned an empty direct term
 of the global default dtype

---
 philtorch/prototype/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index 90e7e33..752a167 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -120,7 +120,7 @@ def residue(
     poles = roots(a)
 
     if b.numel() < a.numel():
-        k = torch.empty(0)
+        k = b.new_empty(0)
     else:
         k, b = polydiv(b, a)
 
@@ -152,7 +152,7 @@ def residuez(
     a_rev = a.flip(0)
 
     if len(b_rev) < len(a_rev):
-        k_rev = torch.empty(0)
+        k_rev = b.new_empty(0)
     else:
         k_rev, b_rev = polydiv(b_rev, a_rev)
 
-- 
2.43.0


From 1623e15b8ef4d603c1cedc7ce52765d187e7014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 40/42] fix: find_eigenvectors normalised by the first
 component, which vanishes for a pole at zero and for triangular matrices

---
 philtorch/mat.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index ed23bd9..30451f7 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -27,7 +27,13 @@ def find_eigenvectors(A: Tensor, eigenvalues: Tensor) -> Tensor:
     n = A.size(-1)
     I = torch.eye(n, device=A.device, dtype=A.dtype)
     W = A.unsqueeze(-3) - eigenvalues[..., None, None] * I
-    B, W = torch.split(W, [1, n - 1], dim=-1)
+    # the largest component of each eigenvector is set to one, since any other may vanish
+    Vh = torch.linalg.svd(W.detach())[2]
+    pivot = Vh[..., -1, :].abs().argmax(-1, keepdim=True)
+    rest = torch.arange(n - 1, device=A.device)
+    rest = rest + (rest >= pivot)
+    B = torch.take_along_dim(W, pivot.unsqueeze(-2), dim=-1)
+    W = torch.take_along_dim(W, rest.unsqueeze(-2), dim=-1)
 
     WtW = W.mT.conj() @ W
     WtB = W.mT.conj() @ -B
@@ -35,6 +41,8 @@ def find_eigenvectors(A: Tensor, eigenvalues: Tensor) -> Tensor:
     X = torch.linalg.solve(WtW, WtB)
     X = X.reshape(A.shape[:-2] + (n, n - 1))
     X = torch.cat([X.new_ones(X.shape[:-1] + (1,)), X], dim=-1)
+    order = torch.cat([pivot, rest], dim=-1).argsort(-1)
+    X = torch.take_along_dim(X, order, dim=-1)
     X = X / torch.linalg.vector_norm(X, dim=-1, keepdim=True)
     return X.mT
 
-- 
2.43.0


From c5d011df07fe8c75fa92d46720ebaf5e5a96f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 41/42] fix: diag_ssm long numerators divided by the last
 denominator coefficient by default; take the delayed split

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 24489a1..a56206c 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -331,7 +331,7 @@ def _diag_ssm_lfilter(
     x: Tensor,
     zi: Optional[Tensor] = None,
     form: str = "df2",
-    delayed_form: bool = False,
+    delayed_form: bool = True,
     **kwargs,
 ) -> Union[Tensor, tuple[Tensor, Tensor]]:
     """Apply a batch of time-invariant linear filters to input signal using state-space model."""
-- 
2.43.0


From 66edca78e734d3dd76edd9496d64009e2ee5c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:09 +0000
Subject: [PATCH 42/42] fix: lfilter_zi left broadcasting to linalg.solve,
 whose values and derivatives are wrong under vmap

---
 philtorch/lti/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index a56206c..e098f93 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -126,6 +126,8 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
     IminusA = torch.eye(n - 1, device=a.device, dtype=a.dtype) - A
 
     B = B.expand(torch.broadcast_shapes(B.shape, A.shape[:-1]))
+    # (solve with broadcast batches has wrong values and derivatives under vmap)
+    IminusA = IminusA.expand(B.shape + B.shape[-1:])
     zi = torch.linalg.solve(IminusA, B.unsqueeze(-1)).squeeze(-1)
     return zi
 
-- 
2.43.0

