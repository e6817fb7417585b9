From daf63f6ab8ec5016832a82739c7a6f700eb56acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 01/18] fix: decode integers with the scale they are encoded
 with
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

tlweSymIntDecrypt<P> divided the whole torus by plain_modulus while
tlweSymIntEncrypt<P> multiplies by P::Δ; at lvl2 and lvl3, where Δ leaves
padding above the message, decryption returned a different integer.
---
 include/tlwe.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index 4eb9406..d1dcef6 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -109,7 +109,12 @@ typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 template <class P>
 typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 {
-    return tlweSymIntDecrypt<P, P::plain_modulus>(c, key);
+    // same scale as tlweSymIntEncrypt, which may leave padding above the message
+    const typename P::T phase = tlweSymPhase<P>(c, key);
+    const typename P::T res =
+        static_cast<typename P::T>(std::round(phase / P::Δ)) %
+        P::plain_modulus;
+    return res >= P::plain_modulus / 2 ? res - P::plain_modulus : res;
 }
 
 template <class P, std::make_signed_t<typename P::T> μ>
-- 
2.43.0


From 33b3e28ed8cc47ba938b9c1f23d07b388887a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 02/18] fix: subset private key switching reads digits of the
 target's width

SubsetPrivKeySwitch took the digits of a target-level ciphertext with the
domain word length, shifting a 32-bit word by 61 bits for lvl21.
---
 include/keyswitch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 6d7d239..31361d6 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -329,7 +329,7 @@ void SubsetPrivKeySwitch(TRLWE<typename P::targetP> &res,
 
         for (int j = 0; j < P::t; j++) {
             const typename P::domainP::T aij =
-                (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
+                (aibar >> (std::numeric_limits<typename P::targetP::T>::digits -
                            (j + 1) * P::basebit)) &
                 mask;
 
-- 
2.43.0


From cada9665c05c061c3fabd040daed1c81bc1ebb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 03/18] fix: blind rotation of an encrypted test vector
 instantiates

---
 include/gatebootstrapping.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 20ae8a3..c39d8d6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -119,8 +119,7 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                 << bitwidth;
         if (ā == 0) continue;
         // Do not use CMUXFFT to avoid unnecessary copy.
-        CMUXFFTwithPolynomialMulByXaiMinusOne<typename P::targetP>(res,
-                                                                   bkfft[i], ā);
+        CMUXFFTwithPolynomialMulByXaiMinusOne<P>(res, bkfft[i], ā);
     }
 #endif
 }
-- 
2.43.0


From 84f11623a9e69cbef606d4d1adf43293cb66ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 04/18] fix: NTT gate bootstrapping names its target level

---
 include/gatebootstrapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index c39d8d6..1c717e6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -260,7 +260,7 @@ void GateBootstrapping(TLWE<typename iksP::domainP> &res,
 }
 
 template <class bkP, typename bkP::targetP::T μ, class iksP>
-void GateBootstrappingNTT(TLWE<typename iksP::tagetP> &res,
+void GateBootstrappingNTT(TLWE<typename iksP::targetP> &res,
                           const TLWE<typename bkP::domainP> &tlwe,
                           const EvalKey &ek)
 {
-- 
2.43.0


From b1a3cbe400ce51687fbbd40aeab69460a5fdebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 05/18] fix: ExtractSwitchAndHomMUX adds the offset of its
 message encoding

---
 src/gate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index 6e7976d..aac14e2 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -29,7 +29,7 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
         res[0][i] += and0[0][i];
         res[1][i] += and0[1][i];
     };
-    res[1][0] += lvl1param::n;
+    res[1][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From f13c5ed28e89a27b29df2ba7d0d28ead3dc4f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 06/18] fix: multiplexer without sample extraction covers every
 polynomial and its own domain

---
 include/gate.hpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index bd4bd2c..d126234 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -276,21 +276,21 @@ void HomMUXwoIKSandSE(TRLWE<typename bkP::targetP> &res,
 {
     TLWE<typename bkP::domainP> temp1;
     TLWE<typename bkP::domainP> temp0;
-    for (int i = 0; i <= bkP::domainP::n; i++) temp1[i] = cs[i] + c1[i];
-    for (int i = 0; i <= bkP::domainP::n; i++) temp0[i] = -cs[i] + c0[i];
-    temp1[lvl0param::n] -= bkP::domainP::μ;
-    temp0[lvl0param::n] -= bkP::domainP::μ;
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp1[i] = cs[i] + c1[i];
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp0[i] = -cs[i] + c0[i];
+    temp1[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
+    temp0[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
     TRLWE<typename bkP::targetP> and0;
     BlindRotate<bkP>(res, temp1, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
     BlindRotate<bkP>(and0, temp0, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
 
-    for (int i = 0; i < bkP::targetP::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += bkP::targetP::μ;
+    for (int k = 0; k <= bkP::targetP::k; k++)
+        for (int i = 0; i < bkP::targetP::n; i++) res[k][i] += and0[k][i];
+    res[bkP::targetP::k][0] += bkP::targetP::μ;
 }
 
 template <class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -312,11 +312,10 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k <= brP::targetP::k; k++)
+        for (int i = 0; i < brP::targetP::n; i++)
+            res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 template <class iksP, class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -341,11 +340,10 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k <= brP::targetP::k; k++)
+        for (int i = 0; i < brP::targetP::n; i++)
+            res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
-- 
2.43.0


From b8863e9258141c5c52e69e5aa52fc3a1f7ef5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 07/18] fix: horizontal packing lookup covers every mask
 polynomial

---
 include/cmuxmem.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/cmuxmem.hpp b/include/cmuxmem.hpp
index db86fed..8147990 100644
--- a/include/cmuxmem.hpp
+++ b/include/cmuxmem.hpp
@@ -75,25 +75,22 @@ void LROMUX(vector<TLWE<P>> &res,
             const TRLWE<P> &data)
 {
     TRLWE<P> temp, acc;
-    PolynomialMulByXaiMinusOne<P>(temp[0], data[0], 2 * P::n - (P::n >> 1));
-    PolynomialMulByXaiMinusOne<P>(temp[1], data[1], 2 * P::n - (P::n >> 1));
+    for (int k = 0; k < P::k + 1; k++)
+        PolynomialMulByXaiMinusOne<P>(temp[k], data[k],
+                                      2 * P::n - (P::n >> 1));
     trgswfftExternalProduct<P>(temp, temp, address[width_bit - 1]);
-    for (int i = 0; i < P::n; i++) {
-        // initialize acc
-        acc[0][i] = temp[0][i] + data[0][i];
-        acc[1][i] = temp[1][i] + data[1][i];
-    }
+    for (int k = 0; k < P::k + 1; k++)
+        for (int i = 0; i < P::n; i++)
+            // initialize acc
+            acc[k][i] = temp[k][i] + data[k][i];
 
     for (uint32_t bit = 2; bit <= width_bit; bit++) {
-        PolynomialMulByXaiMinusOne<P>(temp[0], acc[0],
-                                      2 * P::n - (P::n >> bit));
-        PolynomialMulByXaiMinusOne<P>(temp[1], acc[1],
-                                      2 * P::n - (P::n >> bit));
+        for (int k = 0; k < P::k + 1; k++)
+            PolynomialMulByXaiMinusOne<P>(temp[k], acc[k],
+                                          2 * P::n - (P::n >> bit));
         trgswfftExternalProduct<P>(temp, temp, address[width_bit - bit]);
-        for (int i = 0; i < P::n; i++) {
-            acc[0][i] += temp[0][i];
-            acc[1][i] += temp[1][i];
-        }
+        for (int k = 0; k < P::k + 1; k++)
+            for (int i = 0; i < P::n; i++) acc[k][i] += temp[k][i];
     }
 
     constexpr uint32_t word = 1 << (P::nbit - width_bit);
-- 
2.43.0


From 782de482a21160a175cb6318b699f084308dbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 08/18] fix: circuit bootstrapping with inverse adds the gadget
 to every block of rows

---
 include/circuitbootstrapping.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/circuitbootstrapping.hpp b/include/circuitbootstrapping.hpp
index 8406a78..c3fc5f6 100644
--- a/include/circuitbootstrapping.hpp
+++ b/include/circuitbootstrapping.hpp
@@ -154,10 +154,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
@@ -180,10 +179,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
-- 
2.43.0


From fb94a23ed911a6c89d0213da62f860be1d8b0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 09/18] fix: a fresh secret key also draws its level 3 key

---
 src/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cpp b/src/key.cpp
index decd903..7c24e17 100644
--- a/src/key.cpp
+++ b/src/key.cpp
@@ -12,10 +12,13 @@ lweKey::lweKey()
                                                    lvl1param::key_value_max);
     std::uniform_int_distribution<int32_t> lvl2gen(lvl2param::key_value_min,
                                                    lvl2param::key_value_max);
+    std::uniform_int_distribution<int32_t> lvl3gen(lvl3param::key_value_min,
+                                                   lvl3param::key_value_max);
     for (typename lvl0param::T &i : lvl0) i = lvl0gen(generator);
     for (typename lvlhalfparam::T &i : lvlhalf) i = lvlhalfgen(generator);
     for (typename lvl1param::T &i : lvl1) i = lvl1gen(generator);
     for (typename lvl2param::T &i : lvl2) i = lvl2gen(generator);
+    for (typename lvl3param::T &i : lvl3) i = lvl3gen(generator);
 }
 
 template <class P>
-- 
2.43.0


From 278aea954edbc714b80a7e9610cadd5c58cad53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 10/18] fix: annihilate coefficients smallest exponent first

Halving each word of a ciphertext halves the phase only up to half the torus.
With the exponents in descending order that ambiguity was left in every
coefficient that an earlier step had removed, so AnnihilateKeySwitching and
TLWE2TRLWEChengsPacking left large values in the coefficients they are meant
to remove. In ascending order (as in PackLWEsLSB) the ambiguity cancels.
---
 include/keyswitch.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 31361d6..7ac1458 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -244,7 +244,9 @@ void AnnihilateKeySwitching(TRLWE<P> &res, const TRLWE<P> &trlwe,
                             const AnnihilateKey<P> &ahk)
 {
     res = trlwe;
-    for (int i = 0; i < P::nbit; i++) {
+    // Smallest exponent first: halving is only exact up to half the torus, which
+    // cancels in the step that removes a coefficient and in all later ones.
+    for (int i = P::nbit - 1; i >= 0; i--) {
         TRLWE<P> evaledauto;
         for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
@@ -378,7 +380,8 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
         tlwe.resize(1<<l);
     }
     PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
-    for (int i = 0; i < P::nbit - l; i++) {
+    // Smallest exponent first, see AnnihilateKeySwitching
+    for (int i = P::nbit - l - 1; i >= 0; i--) {
         TRLWE<P> evaledauto;
         for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-- 
2.43.0


From 7553fed823262e584ef6f9cd2dcc248dde8970e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 11/18] fix: emplacebk2bkfft/ntt convert every element of the
 bootstrapping key

Only element [0] of the first domainP::n entries was converted, so a
ternary or k>1 domain key left the rest of the transformed key
uninitialised.
---
 include/cloudkey.hpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 01bcce3..8a24400 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -479,30 +479,34 @@ struct EvalKey {
         if constexpr (std::is_same_v<P, lvl01param>) {
             bkfftlvl01 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl01param>>();
-            for (int i = 0; i < lvl01param::domainP::n; i++)
-                (*bkfftlvl01)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][0]);
+            for (size_t i = 0; i < bklvl01->size(); i++)
+                for (size_t j = 0; j < (*bklvl01)[i].size(); j++)
+                    (*bkfftlvl01)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh1param>) {
             bkfftlvlh1 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh1param>>();
-            for (int i = 0; i < lvlh1param::domainP::n; i++)
-                (*bkfftlvlh1)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][0]);
+            for (size_t i = 0; i < bklvlh1->size(); i++)
+                for (size_t j = 0; j < (*bklvlh1)[i].size(); j++)
+                    (*bkfftlvlh1)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvl02param>) {
             bkfftlvl02 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl02param>>();
-            for (int i = 0; i < lvl02param::domainP::n; i++)
-                (*bkfftlvl02)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][0]);
+            for (size_t i = 0; i < bklvl02->size(); i++)
+                for (size_t j = 0; j < (*bklvl02)[i].size(); j++)
+                    (*bkfftlvl02)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh2param>) {
             bkfftlvlh2 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh2param>>();
-            for (int i = 0; i < lvlh2param::domainP::n; i++)
-                (*bkfftlvlh2)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][0]);
+            for (size_t i = 0; i < bklvlh2->size(); i++)
+                for (size_t j = 0; j < (*bklvlh2)[i].size(); j++)
+                    (*bkfftlvlh2)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][j]);
         }
         else
             static_assert(false_v<typename P::T>, "Not predefined parameter!");
@@ -513,25 +517,25 @@ struct EvalKey {
         if constexpr (std::is_same_v<P, lvl01param>) {
             bknttlvl01 = std::make_unique_for_overwrite<
                 BootstrappingKeyNTT<lvl01param>>();
-            for (int i = 0; i < lvl01param::domainP::n; i++)
+            for (size_t i = 0; i < bklvl01->size(); i++)
                 (*bknttlvl01)[i] = ApplyNTT2trgsw<lvl1param>((*bklvl01)[i][0]);
         }
         else if constexpr (std::is_same_v<P, lvlh1param>) {
             bknttlvlh1 = std::make_unique_for_overwrite<
                 BootstrappingKeyNTT<lvlh1param>>();
-            for (int i = 0; i < lvlh1param::domainP::n; i++)
+            for (size_t i = 0; i < bklvlh1->size(); i++)
                 (*bknttlvlh1)[i] = ApplyNTT2trgsw<lvl1param>((*bklvlh1)[i][0]);
         }
         else if constexpr (std::is_same_v<P, lvl02param>) {
             bknttlvl02 = std::make_unique_for_overwrite<
                 BootstrappingKeyNTT<lvl02param>>();
-            for (int i = 0; i < lvl02param::domainP::n; i++)
+            for (size_t i = 0; i < bklvl02->size(); i++)
                 (*bknttlvl02)[i] = ApplyNTT2trgsw<lvl2param>((*bklvl02)[i][0]);
         }
         else if constexpr (std::is_same_v<P, lvlh2param>) {
             bknttlvlh2 = std::make_unique_for_overwrite<
                 BootstrappingKeyNTT<lvlh2param>>();
-            for (int i = 0; i < lvlh2param::domainP::n; i++)
+            for (size_t i = 0; i < bklvlh2->size(); i++)
                 (*bknttlvlh2)[i] = ApplyNTT2trgsw<lvl2param>((*bklvlh2)[i][0]);
         }
         else
-- 
2.43.0


From 372af2d3748189119cd71745cb5929ae00d2b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 12/18] fix: subset key switching with several target
 polynomials

The subset key and the words it switches were taken as if the target had
one mask polynomial.
---
 include/cloudkey.hpp  | 3 ++-
 include/keyswitch.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 8a24400..21625c0 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -257,7 +257,8 @@ void subikskgen(SubsetKeySwitchingKey<P>& ksk,
                 const Key<typename P::domainP>& domainkey)
 {
     Key<typename P::targetP> subkey;
-    for (int i = 0; i < P::targetP::n; i++) subkey[i] = domainkey[i];
+    for (int i = 0; i < P::targetP::k * P::targetP::n; i++)
+        subkey[i] = domainkey[i];
     for (int i = 0;
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n; i++)
         for (int j = 0; j < P::t; j++)
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 7ac1458..a17a77e 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -170,7 +170,7 @@ void SubsetIdentityKeySwitch(TLWE<typename P::targetP> &res,
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n;
          i++) {
         const typename P::domainP::T aibar =
-            tlwe[i + P::targetP::n] + prec_offset;
+            tlwe[i + P::targetP::k * P::targetP::n] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
                 (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
-- 
2.43.0


From c2a824e19bd6e685e1855f1598de4e8c5e4431e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 13/18] fix: scalar-to-ring key switching with several domain
 polynomials

The key and the switch covered domainP::n words and took the body from
position n, which is a mask word when the domain has k>1.
---
 include/cloudkey.hpp  | 2 +-
 include/keyswitch.hpp | 8 ++++----
 include/params.hpp    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 21625c0..6b28a19 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -148,7 +148,7 @@ void tlwe2trlweikskgen(TLWE2TRLWEIKSKey<P>& iksk,
                        const Key<typename P::domainP>& domainkey,
                        const Key<typename P::targetP>& targetkey)
 {
-    for (int i = 0; i < P::domainP::n; i++)
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++)
         for (int j = 0; j < P::t; j++)
             for (uint32_t k = 0; k < (1 << P::basebit) - 1; k++) {
                 Polynomial<typename P::targetP> p = {};
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index a17a77e..486bb61 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -198,15 +198,15 @@ void TLWE2TRLWEIKS(TRLWE<typename P::targetP> &res,
     constexpr uint32_t target_digit =
         std::numeric_limits<typename P::targetP::T>::digits;
     if constexpr (domain_digit == target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n];
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n];
     else if constexpr (domain_digit > target_digit)
-        res[P::targetP::k][0] = (tlwe[P::domainP::n] +
+        res[P::targetP::k][0] = (tlwe[P::domainP::k * P::domainP::n] +
                                  (1ULL << (domain_digit - target_digit - 1))) >>
                                 (domain_digit - target_digit);
     else if constexpr (domain_digit < target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n]
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n]
                                 << (target_digit - domain_digit);
-    for (int i = 0; i < P::domainP::n; i++) {
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++) {
         const typename P::domainP::T aibar = tlwe[i] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
diff --git a/include/params.hpp b/include/params.hpp
index f72dd33..adf2701 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -159,7 +159,7 @@ template <class P>
 using TLWE2TRLWEIKSKey = std::array<
     std::array<std::array<TRLWE<typename P::targetP>, (1 << P::basebit) - 1>,
                P::t>,
-    P::domainP::n>;
+    P::domainP::k * P::domainP::n>;
 template <class P>
 using EvalAutoKey = std::array<HalfTRGSWFFT<P>, P::k>;
 template <class P>
-- 
2.43.0


From 905f72d00dfa070a14668c2b1310055a0ad9ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 14/18] fix: describe and compare the level 1 noise in
 lweParams
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

portablelvl1param left α uninitialised, so the saved parameters contained
an indeterminate value and its own serialize and comparison skipped it.
---
 include/lweParams.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 09f48e7..ddcdeaf 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -46,6 +46,7 @@ struct portablelvl1param {
           l(lvl1param::l),
           Bgbit(lvl1param::Bgbit),
           Bg(lvl1param::Bg),
+          α(lvl1param::α),
           approx_bit(std::numeric_limits<typename lvl1param::T>::digits)
     {
     }
@@ -53,13 +54,13 @@ struct portablelvl1param {
     template <class Archive>
     void serialize(Archive& archive)
     {
-        archive(nbit, n, l, Bgbit, Bg, approx_bit);
+        archive(nbit, n, l, Bgbit, Bg, α, approx_bit);
     }
 
     bool operator==(const portablelvl1param& in) const
     {
         return (nbit == in.nbit) && (n == in.n) && (l == in.l) &&
-               (Bgbit == in.Bgbit) && (Bg == in.Bg) &&
+               (Bgbit == in.Bgbit) && (Bg == in.Bg) && (α == in.α) &&
                (approx_bit == in.approx_bit);
     };
 };
-- 
2.43.0


From b8bf4a85f53bb8e0814bf62248528bd681e8131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 15/18] fix: serialize every member of EvalKey, IOpacket and
 lweParams

Loading silently dropped the level 2 to half key switching key, both
subset keys, the level 1 ports and the gadget bases.
---
 include/cloudkey.hpp  | 4 ++--
 include/io-packet.hpp | 3 ++-
 include/lweParams.hpp | 6 +++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 6b28a19..9ae3511 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -391,8 +391,8 @@ struct EvalKey {
         archive(params, bklvl01, bklvlh1, bklvl02, bklvlh2, bkfftlvl01,
                 bkfftlvlh1, bkfftlvl02, bkfftlvlh2, bknttlvl01, bknttlvlh1,
                 bknttlvl02, bknttlvlh2, iksklvl10, iksklvl1h, iksklvl20,
-                iksklvl21, iksklvl22, iksklvl31, privksklvl11, privksklvl21,
-                privksklvl22);
+                iksklvl2h, iksklvl21, iksklvl22, iksklvl31, subiksklvl21,
+                privksklvl11, privksklvl21, privksklvl22, subprivksklvl21);
     }
 
     // emplace keys
diff --git a/include/io-packet.hpp b/include/io-packet.hpp
index c31cc5c..cc5f927 100644
--- a/include/io-packet.hpp
+++ b/include/io-packet.hpp
@@ -32,7 +32,8 @@ struct IOpacket {
     template <class Archive>
     void serialize(Archive &archive)
     {
-        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles);
+        archive(tlwelvl0ports, tlwelvl1ports, trlwelvl2ports, trgswlvl2ports,
+                numCycles);
     }
 };
 }  // namespace TFHEpp
\ No newline at end of file
diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index ddcdeaf..565db83 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -203,9 +203,9 @@ struct lweParams {
     void serialize(Archive& archive)
     {
         archive(lvl0.n, lvl0.α, lvl0.approx_bit, lvl1.nbit, lvl1.n, lvl1.l,
-                lvl1.Bgbit, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n, lvl2.l,
-                lvl2.Bgbit, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
-                lvl10.α, lvl20.t, lvl20.basebit, lvl20.α, lvl21.t,
+                lvl1.Bgbit, lvl1.Bg, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n,
+                lvl2.l, lvl2.Bgbit, lvl2.Bg, /*lvl2.α,*/ lvl2.approx_bit,
+                lvl10.t, lvl10.basebit, lvl10.α, lvl20.t, lvl20.basebit, lvl20.α, lvl21.t,
                 lvl21.basebit, lvl22.t, lvl22.basebit /*lvl22.α*/);
     }
 
-- 
2.43.0


From 2fcbc52e8d88ec1668c54150e6251ab3b068e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 16/18] fix: convert negative 64-bit noise through a signed
 integer

Converting a negative double to an unsigned integer is undefined; half of
all 64-bit Gaussian samples took that path.
---
 include/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 3255a0b..b172075 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -132,7 +132,8 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
         static const double _2p64 = std::pow(2., 64);
         std::normal_distribution<double> distribution(0., 1.0);
         const double val = stdev * distribution(generator) * _2p64;
-        const uint64_t ival = static_cast<typename P::T>(val);
+        const uint64_t ival =
+            static_cast<typename P::T>(static_cast<int64_t>(val));
         return ival + center;
     }
     else
-- 
2.43.0


From ba5bac949ed48e21b0a7a394a3c8da72bfadd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 17/18] fix: CenteredBinomial uses each drawn bit once

The bit counter was never reset: one draw was taken per bit until the
counter wrapped, after which a bit came from an exhausted buffer as a
constant zero.
---
 include/utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils.hpp b/include/utils.hpp
index b172075..8a0002d 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -151,6 +151,7 @@ inline typename P::T CenteredBinomial(uint η)
     for (int i = 0; i < 2 * η; i++) {
         if (count >= 64) {
             buf = dist(generator);
+            count = 0;
         }
         acc += buf & 1;
         buf >>= 1;
-- 
2.43.0


From 79d3901d9b5df6ef346e8da3350b9665aa20cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 18/18] fix: ExtractSwitchAndHomMUX handles several mask
 polynomials

---
 src/gate.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index aac14e2..716b018 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -25,11 +25,9 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
     BlindRotate<lvl01param>(and0, c0, *ek.bkfftlvl01,
                             μpolygen<lvl1param, lvl1param::μ>());
 
-    for (int i = 0; i < lvl1param::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += lvl1param::μ;
+    for (int k = 0; k <= lvl1param::k; k++)
+        for (int i = 0; i < lvl1param::n; i++) res[k][i] += and0[k][i];
+    res[lvl1param::k][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0

