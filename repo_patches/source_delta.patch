From 6b4bd21aa761f93424862a223404e311e8a3c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 01/32] fix: aes_cmac: pad CMAC subkeys to the block size and
 derive them with the given cipher

---
 cipher/aes_cmac.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 55b1610..d92f462 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -22,7 +22,7 @@ def aes_cmac(key, M, CIPH=AES):
     block_size = ciph.block_size
     assert block_size == 16 # only 128 bit (16 octet) blocks supported!!
     
-    k1, k2 = subkey(key)
+    k1, k2 = subkey(key, CIPH)
     blocks, leftover = divmod(len(M), block_size)
   
     if leftover == 0 and blocks > 0:         # if last block is a complete block
@@ -54,8 +54,8 @@ def subkey(key, CIPH=AES):
     else:      # xor only if high bit set
         k2 = ((k1<<1) & 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF) ^ 0x87 
 
-    k1 = int_to_string(k1)
-    k2 = int_to_string(k2)
+    k1 = int_to_string(k1, padto=block_size)
+    k2 = int_to_string(k2, padto=block_size)
     return k1, k2
 
 def pad(octet_string, block_size=16):
-- 
2.43.0


From c2a26cc66ab2ec379c45c15029a5b4c1b3d8c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 02/32] fix: encoding: base 27/85/94 decoders honour padto

---
 cipher/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/encoding.py b/cipher/encoding.py
index 01e50a8..a580f3a 100644
--- a/cipher/encoding.py
+++ b/cipher/encoding.py
@@ -68,7 +68,7 @@ def b27encode(octet_string):
     
 def b27decode(text_string, padto=None):
     """Decode a text string 's' using 27 characters. """
-    return base_N_decode(text_string, _b27chars )
+    return base_N_decode(text_string, _b27chars, padto )
 
 _b85chars = "0123456789" \
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ" \
@@ -85,7 +85,7 @@ def b85encode(octet_string):
 
 def b85decode(text_string, padto=None):
     """Decode a text string 's' using 85 character alphabet. """
-    return base_N_decode(text_string, _b85chars )
+    return base_N_decode(text_string, _b85chars, padto )
     
 ascii_printable = ''.join( [chr(i) for i in range(33,127)] )    
 def b94encode(octet_string):
@@ -94,7 +94,7 @@ def b94encode(octet_string):
 
 def b94decode(text_string, padto=None):
     """Decode a text string using all ASCII non-space printable characters. """
-    return base_N_decode(text_string, ascii_printable )    
+    return base_N_decode(text_string, ascii_printable, padto )    
     
 if __name__ == '__main__':
     """ Examples of text encodings for 128 bit and 48 bits (USID and SID)
-- 
2.43.0


From 515ac0dc84df5a6f33f3ea700abe504d6d0d7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:02 +0000
Subject: [PATCH 03/32] fix: ChaCha20_AEAD.decrypt returns the tag of the
 received cipher text

---
 cipher/chacha_poly.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 7ec1698..aeab47e 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -553,8 +553,13 @@ class ChaCha20_AEAD(object):
         return (cipher_text, tag)
     
     def decrypt(self, aad, iv, cipher_text):
-        """ decrypt is same as encrypt """
-        return self.encrypt(aad, iv, cipher_text)
+        """ Returns the plain text and the tag calculated over the received
+            cipher text. The message is authentic if and only if this is the
+            tag that was received.
+        """
+        plain_text, ignored = ChaCha20_AEAD.encrypt(self, aad, iv, cipher_text)
+        same_cipher_text, tag = ChaCha20_AEAD.encrypt(self, aad, iv, plain_text)
+        return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
-- 
2.43.0


From 7c96e888977da755471f926b0d742596a9d66fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:02 +0000
Subject: [PATCH 04/32] fix: ChaCha_Poly_AEAD encrypt and decrypt work on
 Python 2

---
 cipher/chacha_poly.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index aeab47e..ac4f74d 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -562,16 +562,22 @@ class ChaCha20_AEAD(object):
         return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
-    """ """
+    """ AEAD with iv, cipher text and tag carried in one octet string """
+    tag_length = 16
+
     def encrypt(self, aad, iv, plain_text):
-        cipher_text, tag = super().encrypt(aad, iv, plain_text)
+        cipher_text, tag = ChaCha20_AEAD.encrypt(self, aad, iv, plain_text)
         return iv + cipher_text + tag
     
     def decrypt(self, aad, iv_cipher_text_tag):
-        iv = iv_cipher_text_tag[0:]
-        tag = iv_cipher_text_tag[-tag_length:]
-        plain_text, calculated_tag = super().encrypt(aad, iv, plain_text)
+        iv_length = 12 - len(self.constant)
+        assert len(iv_cipher_text_tag) >= iv_length + self.tag_length
+        iv = iv_cipher_text_tag[:iv_length]
+        cipher_text = iv_cipher_text_tag[iv_length:-self.tag_length]
+        tag = iv_cipher_text_tag[-self.tag_length:]
+        plain_text, calculated_tag = ChaCha20_AEAD.decrypt(self, aad, iv, cipher_text)
         assert tag == calculated_tag
+        return plain_text
 
 
     """
-- 
2.43.0


From 1ad2da12b7f80160157799a827ff7ffe0bd5e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:18 +0000
Subject: [PATCH 05/32] fix: ecc: negate and double handle the point at
 infinity, points of order two and keep coordinates reduced

---
 ecc/ecc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index e51ac1a..c539d81 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -62,12 +62,16 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
 
     def negate(curve, point):
         """ Negate a point """
-        return curve.point( point.x, -point.y )
+        if point == curve.IDENTITY:
+            return point
+        return curve.point( point.x, -point.y % curve.p )
 
     def double_point(curve, point):
         """Return a new point that is twice the old (X9.62 B.3)."""
         p = curve.p; a = curve.a; inv = curve.inverse
         x = point.x; y = point.y
+        if point == curve.IDENTITY or y % p == 0:  # infinity or a point of order two
+            return curve.IDENTITY
 
         l = ( (3*x*x + a) * inv(2*y) ) % p
         x3 = (l*l - 2*x) % p
-- 
2.43.0


From 5777bc073f742c22ed70e91d14be72bb78b4c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:18 +0000
Subject: [PATCH 06/32] fix: ecc: Edwards curve equation, identity, negation
 and scalar multiplication

---
 ecc/ecc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index c539d81..c0568dc 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -147,7 +147,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
         #return  (a*x**2 + y*y - 1 - d*x*x*y*y)  % p == 0
         xx = x*x
-        return  (a*xx - 1 + y*(1 - d*xx*y))  % p == 0
+        return  (a*xx - 1 + y*(y - d*xx*y))  % p == 0
 
     def add_points(curve, p1, p2):
         """ Add two points on the curve """
@@ -161,7 +161,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def negate(curve, p):
         """ Negate a point """
-        return curve.point(-p.x, p.y)
+        return curve.point(-p.x % curve.p, p.y)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old """
@@ -176,9 +176,11 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
         return curve.point(x2, y2)
 
     def scalar_multiple(curve, point, scalar):
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
         if scalar == 0:
             return curve.IDENTITY
-        q = curve.scalarmult(point, scalar/2)
+        q = curve.scalar_multiple(point, scalar/2)
         q = q + q
         if scalar & 1:
             q = q + point
@@ -186,7 +188,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def identity(curve):
         """ The additive identity """
-        return curve.point(0,-1)
+        return curve.point(0,1)
 
 class EdwardsCurveFp( TwistedEdwardsCurveFp ):
     """ An Edwards curve is a Twisted Edwards curve with a = 1
-- 
2.43.0


From 17bf0089d3b8c86258986ae97462bbfd72f307a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:47 +0000
Subject: [PATCH 07/32] fix: ecc: Montgomery curves have the point at infinity
 as identity; negation, opposite points and negative scalars

---
 ecc/ecc.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index c0568dc..7418b5c 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -204,6 +204,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     """
     def on_curve(curve, g):
         """ Is the point 'g' on the curve? """
+        if g == curve.IDENTITY: # point at infinity
+            return True
         x = g.x; y = g.y; a = curve.a; p = curve.p; x_sqrd = x*x
 
         return (y*y) % p == (x*x_sqrd + a*x_sqrd + x) % p
@@ -219,11 +221,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         a = curve.a; p = curve.p; inv = curve.inverse
 
         if x1 == x2:
-            if y1 == y2:
-                return p1.double()
+            if ( y1 + y2 ) % p == 0:
+                return curve.IDENTITY
             else:
-                assert y1 + y2 == 0
-                return p1
+                return p1.double()
         l = (y2-y1)*inv(x2-x1)
         x3 = l**2 - a - x1 - x2
         y3 = l*(x1 - x3) - y1
@@ -231,13 +232,17 @@ class MontgomeryCurveFp( EllipticCurveFp ):
 
     def negate(curve, p1):
         """ Negate a point """
-        return curve.point(-p1.x % p, p1.y)
+        if p1 == curve.IDENTITY:
+            return p1
+        return curve.point(p1.x, -p1.y % curve.p)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old
         """
         x1 = point.x; y1 = point.y; a = curve.a; inv = curve.inverse
         p = curve.p
+        if point == curve.IDENTITY or y1 % p == 0: # infinity or a point of order two
+            return curve.IDENTITY
 
         l = (3*x1*x1 + 2*a*x1 + 1)*inv(2*y1)
         x3 = l*l - a - 2*x1
@@ -245,6 +250,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         return curve.point(x3 % p, y3 % p)
 
     def scalar_multiple(curve, point, scalar):
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
         if scalar == 0:
             return curve.IDENTITY
         q = curve.scalar_multiple(point, scalar/2)
@@ -254,8 +261,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         return q
 
     def identity(curve):
-        """ The additive identity """
-        return curve.point(0,-1)
+        """ The additive identity, special values for the point at infinity.
+            Validation is disabled since on_curve needs this point.
+        """
+        return curve.point(None, None, validate=False)
 
     def montgomery_ladder(curve, scalar, point):
         """ Scalar multiplication on a Montgomery curve
-- 
2.43.0


From 7ae7ef93a6322c2934d3458f9d8d6cc3ffb838b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:47 +0000
Subject: [PATCH 08/32] fix: ecc: Montgomery ladders compute modulo p for
 scalars of any size

---
 ecc/ecc.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 7418b5c..9448bd5 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -271,16 +271,18 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         """
         x1 = point.x; a = curve.a; p = curve.p
 
+        if scalar < 0:
+            scalar = -scalar    # x is the same for -point and point
         x2,z2,x3,z3 = 1, 0, point.x, 1
-        for i in reversed(range(255)):
+        for i in reversed(range(scalar.bit_length())):
             bit = 1 & (scalar >> i)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-            x3, z3 = ((x2*x3 - z2*z3)**2,  x1*(x2*z3 - z2*x3)**2)
-            x2, z2 = ((x2**2 - z2**2)**2,  4*x2*z2*(x2**2 + a*x2*z2+z2**2))
+            x3, z3 = ((x2*x3 - z2*z3)**2 % p,  x1*(x2*z3 - z2*x3)**2 % p)
+            x2, z2 = ((x2**2 - z2**2)**2 % p,  4*x2*z2*(x2**2 + a*x2*z2+z2**2) % p)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-        return ( x2*z2**(p-2) ) % p
+        return ( x2*pow(z2, p-2, p) ) % p
 
     def montgomery_ladder2(curve, scalar, point):
         """
@@ -289,9 +291,11 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             plus common-subexpression elimination, plus assumption Z1=1.
         """
         x1 = point.x; a = curve.a; p = curve.p
-        a24 = (a - 2) / 4
-        x_2, z_2, x_3, z_3 = 0, 1, x_1, 1
-        for t in reversed(range(255)):
+        a24 = (a - 2) * curve.inverse(4)
+        if scalar < 0:
+            scalar = -scalar    # x is the same for -point and point
+        x_2, z_2, x_3, z_3 = 1, 0, x1, 1
+        for t in reversed(range(scalar.bit_length())):
             s_t = 1 & (scalar >> t)
             (x_2, x_3) = cswap(x_2, x_3, s_t)
             (z_2, z_3) = cswap(z_2, z_3, s_t)
@@ -304,13 +308,13 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             D = x_3 - z_3
             DA = D * A
             CB = C * B
-            x_3 = (DA + CB)**2
-            z_3 = x_1 * (DA - CB)**2
-            x_2 = AA * BB
-            z_2 = E * (AA + a24 * E)   #BB?
+            x_3 = (DA + CB)**2 % p
+            z_3 = x1 * (DA - CB)**2 % p
+            x_2 = AA * BB % p
+            z_2 = E * (AA + a24 * E) % p
             (x_2, x_3) = cswap (x_2, x_3, s_t)
             (z_2, z_3) = cswap (z_2, z_3, s_t)
-        return (x_2 * (z_2**(p - 1))) % p
+        return (x_2 * pow(z_2, p - 2, p)) % p
 
 def cswap(x2, x3, bit):
     """ Swap routine used by Montgomery Ladder """
-- 
2.43.0


From de966bab1c40c152e3a699873530b8f956d81336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:08 +0000
Subject: [PATCH 09/32] fix: curves: M383 has no oid attribute

---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index f5b4746..53dc4c2 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -693,6 +693,7 @@ class M383( MontgomeryCurveFp ):
     """ y**2 == x**3+2065150*x**2+x mod 2**383-187 """
     curveId = 'm383'
     strength = 190
+    oid = None
     p = 2**383-187
     a = 2065150
     xG = 0xc  #  12
-- 
2.43.0


From 88e0c1b3d9550094fe5284c6968faa265bca5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:08 +0000
Subject: [PATCH 10/32] fix: curves: M511 lacks its coefficient a

---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index 53dc4c2..61cc15d 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -719,6 +719,7 @@ class M511( MontgomeryCurveFp ):
     strength = 254
     oid = None
     p  = 2**511-187
+    a  = 530438
     xG = 5
     yG = 2500410645565072423368981149139213252211568685173608590070979264248275228603899706950518127817176591878667784247582124505430745177116625808811349787373477
     n  = 2**508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043
-- 
2.43.0


From 7fd8b32ae7251450fed2c60c0f1153bf8c4ba7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:08 +0000
Subject: [PATCH 11/32] fix: curves: curveId of secp521r1

---
 ecc/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 61cc15d..089bef7 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -405,7 +405,7 @@ class NIST_P384(SECP_384r1): # NIST renamed secp384r1
   
 class SECP_521r1( SmallWeierstrassCurveFp ):
     """ Suite B curve for 256 bit security """
-    curveId = 'secp256r1'
+    curveId = 'secp521r1'
     strength = 256
     oid = (1,3,132,0,35)  # {iso(1) identified-organization(3) certicom(132) curve(0) 35}
     # p = 2**251 - 1   #  a Mersenne prime
-- 
2.43.0


From 87f1f40b95dcbd649ca3a1f0298836edb9680aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:08 +0000
Subject: [PATCH 12/32] fix: curves: n of GOSTmsg05975te is the order of its
 generator

---
 ecc/curves.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 089bef7..7628d84 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -335,8 +335,7 @@ class GOSTmsg05975te( TwistedEdwardsCurveFp ):
     a = 1  # was e in msg
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
-    #???
-    n  = 0x40000000000000000000000000000000000000000000000000000000000000003673245b9af954ffb3cc5600aeb8afd33712561858965ed96b9dc310b80fdaf7
+    n  = q   # order of G; the order of the whole group is h*q
     xG = 0x12
     yG = 0x469AF79D1FB1F5E16B99592B77A01E2A0FDFB0D01794368D9A56117F7B38669522DD4B650CF789EEBF068C5D139732F0905622C04B2BAAE7600303EE73001A3D
     h = 4  # n = h*q
-- 
2.43.0


From 1c9d0421dea31c40fdeb7fe97f3b08651fb4064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:39 +0000
Subject: [PATCH 13/32] fix: curves: Ed25519 parameters were placeholders that
 do not describe a curve with its generator

---
 ecc/curves.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 7628d84..6f5df16 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -661,16 +661,18 @@ class Curve25519( MontgomeryCurveFp ):
     h  = 8
     
     
-class Ed25519( EdwardsCurveFp ):
-    """ (x**2 + y**2) % p == (1 + 121665/121666)*x**2 * y**2) % p """
+class Ed25519( TwistedEdwardsCurveFp ):
+    """ (-x**2 + y**2) % p == (1 - (121665/121666)*x**2 * y**2) % p
+        https://tools.ietf.org/html/rfc8032
+    """
     curveId = 'Ed25519'
     strength = 126
     oid = None
     p  = 2**255 - 19
-    d =  1      #  d = (121665/121666) % p
-    xG = 9
-    yG = 14781619447589544791020593568409986887264606134616475288964881837755586237401
-    yG = 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9
+    a = -1
+    d = 37095705934669439343138083508754565189542113879843219016388785533085940283555  # (-121665/121666) % p
+    xG = 15112221349535400772501151409588531511454012693041857206046113283949847762202
+    yG = 46316835694926478169428394003475163141307993866256225615783033603165251855960  # (4/5) % p
     n  = 2**252 + 27742317777372353535851937790883648493 
     h  = 8     
        
-- 
2.43.0


From bf770a8d1847fd7322dfaaad8939102b0cae0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 14/32] fix: ecc: int_to_string pads zero as well

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 9448bd5..4b144e2 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -328,8 +328,8 @@ def int_to_string( x, padto=None ):
         If 'padto' defined, result is zero padded to this length.
     """
     assert x >= 0
-    if x == 0: return chr(0)
     result = ""
+    if x == 0: result = chr(0)
     while x > 0:
         q, r = divmod( x, 256 )
         result = chr( r ) + result
-- 
2.43.0


From 4d2fbacb399d512e7a2a3d08f0812025c191ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 15/32] fix: ellipticcurve: point encodings used int_to_string
 without importing it

---
 ecc/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index eb6d2fc..2399a81 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -98,6 +98,7 @@ class Point(object):
     # === below should be refactored ===
     def encode(self, encode='raw'):
         """ Encode a point (usually for public keys) """
+        from ecc import int_to_string   # ecc imports this module
         if encode == 'raw':   # encode both x and y sequentially
             return int_to_string(self.x, padto=self.curve.coord_size) + int_to_string(self.y, padto=self.curve.coord_size)
         else:
@@ -105,10 +106,12 @@ class Point(object):
 
     def toOctets(self):
         """ Encode point as x coordinate """
+        from ecc import int_to_string   # ecc imports this module
         return int_to_string(self.x)
 
     def to_octetstring(self): # Used???
         """ Encode point as x and y octetstring """
+        from ecc import int_to_string   # ecc imports this module
         octetstring = int_to_string(self.x) + int_to_string(self.y)
         return octetstring
 
-- 
2.43.0


From a0b03479f51de0fbc49c4763127cc5420b37e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 16/32] fix: numbertheory: square_root_mod_prime works for
 large primes p = 1 mod 8

---
 ecc/numbertheory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 3b9fc68..b2ba26a 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -172,12 +172,14 @@ def square_root_mod_prime( a, p ):
         if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)/8, p ) ) % p
         raise RuntimeError, "Shouldn't get here."
     
-    for b in range( 2, p ):
+    b = 2
+    while b < p:        # range( 2, p ) does not work for large p
         if jacobi( b*b-4*a, p ) == -1:
             f = ( a, -b, 1 )
             ff = polynomial_exp_mod( ( 0, 1 ), (p+1)/2, f, p )
             assert ff[1] == 0
             return ff[0]
+        b = b + 1
     raise RuntimeError, "No b found."
 
 def modular_sqrt(a, p):
-- 
2.43.0


From ad8503a5dd04f693bb39d89276f1c5ec963758e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 17/32] fix: numbertheory: order_mod for x not reduced modulo m

---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index b2ba26a..6982aeb 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -448,7 +448,7 @@ def order_mod( x, m ):
     
     assert gcd( x, m ) == 1
     
-    z = x
+    z = x % m
     result = 1
     while z != 1:
         z = ( z * x ) % m
-- 
2.43.0


From a03def60ddbe4c018b92e56b6df4b43f41ec0624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 18/32] fix: galoisfield: is_element used an undefined name and
 left out zero

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 9abfa2a..fec6c0b 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -26,7 +26,7 @@ class GFp:
         return Element_of_GFp(self, value)
         
     def is_element(self, x):
-        return (p > x > 0)
+        return (self.p > x >= 0)
         
     def inverse(self, x):
         return inverse_mod(x, self.p)
-- 
2.43.0


From 71b345f5fe2638f32c575796f7a0d85ee19b7104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 19/32] fix: galoisfield: inverse of integers outside 0..p-1

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index fec6c0b..89d5a43 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -29,7 +29,7 @@ class GFp:
         return (self.p > x >= 0)
         
     def inverse(self, x):
-        return inverse_mod(x, self.p)
+        return inverse_mod(x % self.p, self.p)
 
 
 class Element_of_GFp:
-- 
2.43.0


From 0f933a241157809bc0ce983f4d2d944513e06aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 20/32] fix: galoisfield: exponentiation is modular, with
 negative exponents and as **

---
 fmath/galoisfield.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 89d5a43..85a6d29 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -67,10 +67,16 @@ class Element_of_GFp:
         return self.gf(int(other) * self.gf.inverse(self.value))
     
     def __xor__(self, other):
-        return self.gf(self.value ** int(other))
+        exponent = int(other)
+        if exponent < 0:
+            return self.gf(pow(self.gf.inverse(self.value), -exponent, self.gf.p))
+        return self.gf(pow(self.value, exponent, self.gf.p))
     
     def __rxor__(self, other):
-        return self.gf(int(other) ** self.value)
+        return self.gf(pow(int(other), self.value, self.gf.p))
+
+    __pow__ = __xor__
+    __rpow__ = __rxor__
     
     def __cmp__(self, other):
         if self.value == int(other) :
-- 
2.43.0


From 6f42d7f094a2c0a75d48ad0e9bb5553132ef83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 21/32] fix: hmac: pad the hash of long keys to the block size

---
 hash/hmac.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index d13b4ac..53a2910 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,9 +45,8 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)   # humm... this is odd, hash can be smaller than B
-        else:                   # should raise error on short key, but breaks tests :-(
-            key =key + (self.B-len(key)) * chr(0)
+            key = self.H(key)   # hash can be smaller than B
+        key =key + (self.B-len(key)) * chr(0)
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
         self.k_xor_opad = ''.join([chr(ord(bchar)^0x5C) for bchar in key])
         self.keyed = 1
-- 
2.43.0


From c8dd8a2efcbf85d8c66b2aa6a5bd4686ed8a095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 22/32] fix: pbkdf2: number of blocks is an integer

---
 hash/pbkdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/pbkdf2.py b/hash/pbkdf2.py
index 848d325..4661d41 100755
--- a/hash/pbkdf2.py
+++ b/hash/pbkdf2.py
@@ -22,7 +22,7 @@ def pbkdf2(password, salt, iterations, keySize, PRF=HMAC_SHA1):
 		raise 'keySize too long for PBKDF2'
 
 	prf = PRF(key=password)  # HMAC_SHA1
-	numBlocks = ceil(1.*keySize/prf.digest_size) # ceiling function
+	numBlocks = int(ceil(1.*keySize/prf.digest_size)) # ceiling function
 	key = ''
 	for block in range(1,numBlocks+1):
 		# Calculate F(P, salt, iterations, i)
-- 
2.43.0


From 12daef013cea3c708755e4a63b46d03871797253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 23/32] fix: prf_dot11: import the standard hmac module

---
 hash/prf_dot11.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index c5c5c66..847d467 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -7,6 +7,7 @@ The parameter 'prefix' is a string that shall be a unique label for each
 different purpose of the PRF.
 """
 
+from __future__ import absolute_import  # the library's hmac, not the one beside this file
 import hmac, sha        # available in any Python 2.x
 
 def PRF( key, prefix, data, number_of_bits):
-- 
2.43.0


From ed895a6fffd17a50b58e160a3ad9707cd61766dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 24/32] fix: tkip_key_mixing: setKey and setTA record which
 packet number the phase 1 key belongs to

---
 hash/tkip_key_mixing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 3a748b1..8b9b6a1 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -56,6 +56,7 @@ class TKIP_Mixer:
         # for readability of subroutines, make tk a list of 1 octet ints
         self.tk = [ord(byte) for byte in key]
         if self.ta != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn)
 
     def setTA(self, taBytes):
@@ -63,6 +64,7 @@ class TKIP_Mixer:
         if len(taBytes) != 6: raise 'Bad size for transmitterAddress'
         self.ta = [ord(byte) for byte in taBytes]
         if self.tk != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
 
     def setPnBytes(self, pnBytes):
-- 
2.43.0


From a52ab666a359d4f2b82d9645f8b49b2eef494cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:19 +0000
Subject: [PATCH 25/32] fix: permutation: orbit functions of the class could
 not be called

---
 analysis/permutation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analysis/permutation.py b/analysis/permutation.py
index 3b01743..7742e1b 100644
--- a/analysis/permutation.py
+++ b/analysis/permutation.py
@@ -7,6 +7,7 @@
 
 class permutation(object):
 
+    @staticmethod
     def map_orbits_of_permutation(permutation):
         """ Creates a dictionary of permutation orbits indexed by the first element of the cycle/orbit """
         gdict = {}     # a dictionary of the orbits indexed by the first orbit element
@@ -28,10 +29,11 @@ class permutation(object):
                 pass
         return gdict
 
-    def orbit_start_and_length(permutation):
+    @staticmethod
+    def orbit_start_and_length(elements):
         """ Returns a list of tuples (orbit start, orbit size) """
         v=[]
-        z=map_orbits_of_permutation(permutation)
+        z=permutation.map_orbits_of_permutation(elements)
         for i in z.keys():
             v.append( [i, len(z[i])] )
         return v
@@ -108,7 +110,7 @@ sms4_sbbytes = (0xd6,0x90,0xe9,0xfe,0xcc,0xe1,0x3d,0xb7,
 
 
 def main():
-    orbit_tuples = orbit_start_and_length(aes_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(aes_sbbytes)
     print
     print 'The AES sbox contains ',
     print len(orbit_tuples),
@@ -116,7 +118,7 @@ def main():
     print 'The AES sbox subgroups (start, length) are:'
     print orbit_tuples
     print
-    orbit_tuples = orbit_start_and_length(sms4_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(sms4_sbbytes)
     print 'The SMS4 sbox contains ',
     print len(orbit_tuples),
     print 'permutation subgroups'
-- 
2.43.0


From 1081eab60bdcbc9ff93d2b2a75b308fba7e8bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:10 +0000
Subject: [PATCH 26/32] fix: nonLinearity of a sequence of length one

---
 analysis/sbox_nonlinearity.py | 2 +-
 analysis/walshtransform.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/sbox_nonlinearity.py b/analysis/sbox_nonlinearity.py
index 42c758d..e173f20 100644
--- a/analysis/sbox_nonlinearity.py
+++ b/analysis/sbox_nonlinearity.py
@@ -49,7 +49,7 @@ def nonLinearity(t):
     """ Non-linearity of a binary sequence
     """
     wt = walshTransform(t)
-    nl = len(t)/2 - .5*max( [ abs(i) for i in wt ] )
+    nl = len(t)/2. - .5*max( [ abs(i) for i in wt ] )
     return nl
     
 def log2n(l):
diff --git a/analysis/walshtransform.py b/analysis/walshtransform.py
index b78c28e..60810ec 100644
--- a/analysis/walshtransform.py
+++ b/analysis/walshtransform.py
@@ -32,7 +32,7 @@ def binaryInnerProduct(a,b):
 def nonLinearity(t):
     """ A measure of the non-linearity of a binary sequence """
     wt = walshTransform(t)
-    nl = len(t)/2 - .5*max( [ abs(i) for i in wt ] )
+    nl = len(t)/2. - .5*max( [ abs(i) for i in wt ] )
     return nl
     
 def log2n(l):
-- 
2.43.0


From e3bb250308d0113e482e9ded660ef39714ae975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:58 +0000
Subject: [PATCH 27/32] fix: tkip_key_mixing: the first octets of the RC4 key
 are TSC1, its weak-key guard and TSC0 (IEEE test vectors)

---
 hash/tkip_key_mixing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 8b9b6a1..4f57933 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -124,9 +124,9 @@ def phase2KeyMixing(tk,p1k,pn):
     ppk[5] = (ppk[5] + rotR1(ppk[4])) & 0xFFFF
 
     rc4Key = range(16)
-    rc4Key[0] =  pn[0]
-    rc4Key[1] = (pn[0] | 0x20) & 0x7F
-    rc4Key[2] =  pn[1]
+    rc4Key[0] =  pn[1]
+    rc4Key[1] = (pn[1] | 0x20) & 0x7F
+    rc4Key[2] =  pn[0]
     rc4Key[3] = 0xFF &((ppk[5]^(tk[1]*256+tk[0]))>>1)
     for i in range(6):
         rc4Key[4+2*i] = ppk[i] & 0xff
-- 
2.43.0


From 1507838e10033f4f53c7d94425400e72d2e2918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:11 +0000
Subject: [PATCH 28/32] fix: hmac: setKey with a long key after update hashed
 the earlier data into the key

---
 hash/hmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index 53a2910..6d03935 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,7 +45,7 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)   # hash can be smaller than B
+            key = self.H_outer(key)   # hash can be smaller than B, H may hold earlier data
         key =key + (self.B-len(key)) * chr(0)
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
         self.k_xor_opad = ''.join([chr(ord(bchar)^0x5C) for bchar in key])
-- 
2.43.0


From 54f8567f24039817891c29f63d6ffc9200b7eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:55 +0000
Subject: [PATCH 29/32] fix: scalar multiples of Weierstrass points have
 reduced coordinates

When an intermediate result is the point at infinity (possible for even n), the
unreduced negative of the point became the result: (x, -y) instead of (x, p-y),
which does not compare equal to the same point.
---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 4b144e2..f143019 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -96,7 +96,7 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         assert e > 0
 
         e3 = 3 * e
-        negative_self = curve.point( point.x, -point.y )
+        negative_self = -point
         i = leftmost_bit( e3 ) / 2
         result = point
         while i > 1:
-- 
2.43.0


From 1264d9940090888f458786a0bc584f6447643843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:04 +0000
Subject: [PATCH 30/32] fix: ecc: Edwards and Montgomery scalar multiplication
 fails with scalars of about 1000 bits (recursion depth)

---
 ecc/ecc.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index f143019..5843459 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -178,12 +178,11 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
     def scalar_multiple(curve, point, scalar):
         if scalar < 0:
             return curve.scalar_multiple(-point, -scalar)
-        if scalar == 0:
-            return curve.IDENTITY
-        q = curve.scalar_multiple(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        q = curve.IDENTITY
+        for i in reversed(range(scalar.bit_length())):
+            q = q + q
+            if (scalar >> i) & 1:
+                q = q + point
         return q
 
     def identity(curve):
@@ -252,12 +251,11 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     def scalar_multiple(curve, point, scalar):
         if scalar < 0:
             return curve.scalar_multiple(-point, -scalar)
-        if scalar == 0:
-            return curve.IDENTITY
-        q = curve.scalar_multiple(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        q = curve.IDENTITY
+        for i in reversed(range(scalar.bit_length())):
+            q = q + q
+            if (scalar >> i) & 1:
+                q = q + point
         return q
 
     def identity(curve):
-- 
2.43.0


From 262769a11f4c4d1f6e4fb4b4f2e0f9a5010d9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:04 +0000
Subject: [PATCH 31/32] fix: numbertheory: jacobi fails with numbers of about
 2800 bits (recursion depth)

---
 ecc/numbertheory.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 6982aeb..5f9cc06 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -132,16 +132,18 @@ def jacobi( a, n ):
     assert n >= 3
     assert n%2 == 1
     a = a % n
-    if a == 0: return 0
-    if a == 1: return 1
-    a1, e = a, 0
-    while a1%2 == 0:
-        a1, e = a1/2, e+1
-    if e%2 == 0 or n%8 == 1 or n%8 == 7: s = 1
-    else: s = -1
-    if a1 == 1: return s
-    if n%4 == 3 and a1%4 == 3: s = -s
-    return s * jacobi( n % a1, a1 )
+    sign = 1
+    while a > 1:        # a loop, since recursion is too deep for large n
+        a1, e = a, 0
+        while a1%2 == 0:
+            a1, e = a1/2, e+1
+        if e%2 == 0 or n%8 == 1 or n%8 == 7: s = 1
+        else: s = -1
+        if a1 != 1 and n%4 == 3 and a1%4 == 3: s = -s
+        sign = sign * s
+        a, n = n % a1, a1
+    if a == 0 and n > 1: return 0
+    return sign
 
 
 def square_root_mod_prime( a, p ):
-- 
2.43.0


From f7c4bf6514a01dd8b8131f81ff7808c550055bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:04 +0000
Subject: [PATCH 32/32] fix: galoisfield: egcd fails with primes of about 1800
 bits (recursion depth)

---
 fmath/galoisfield.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 85a6d29..1fdde06 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -92,11 +92,11 @@ class Element_of_GFp:
          
 
 def egcd(a, b):
-    if a == 0:
-        return (b, 0, 1)
-    else:
-        g, y, x = egcd(b % a, a)
-        return (g, x - (b // a) * y, y)
+    x, y, u, v = 1, 0, 0, 1     # a loop, since recursion is too deep for large numbers
+    while b != 0:
+        q, a, b = a // b, b, a % b
+        x, y, u, v = u, v, x - q*u, y - q*v
+    return (a, x, y)
 
 def inverse_mod(a, m):
     g, x, y = egcd(a, m)
-- 
2.43.0

