From 7be1f62334a13ebdfb8f9e2290085ae37d3d217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 01/46] fix: SHAKE-128/256 hash algorithms need an explicit
 digest size

---
 pycose/algorithms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8a2b4c0..4725e9e 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -435,6 +435,10 @@ class Shake256(_HashAlg):
     fullname = "SHAKE-256"
     hash_cls = SHAKE256
 
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return cls.hash_cls(digest_size=64)
+
 
 @CoseAlgorithm.register_attribute()
 class Sha512(_HashAlg):
@@ -875,6 +879,10 @@ class Shake128(_HashAlg):
     fullname = "SHAKE-128"
     hash_cls = SHAKE128
 
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return cls.hash_cls(digest_size=32)
+
 
 @CoseAlgorithm.register_attribute()
 class Sha512Trunc256(_HashAlg):
-- 
2.43.0


From 4dc260a6b24408389a85a8eb248d1fb9f998409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 02/46] fix: repr() of a message without payload must not raise

---
 pycose/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 4a63441..90a7256 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from typing import Any, Callable
+from typing import Any, Callable, Optional
 
 from pycose.exceptions import CoseException
 
@@ -77,5 +77,8 @@ class _CoseAttribute(ABC):
         return f'<{self.fullname}: {self.identifier}>'
 
 
-def truncate(payload: bytes) -> str:
+def truncate(payload: Optional[bytes]) -> str:
+    if payload is None:
+        return 'None'
+
     return f'{payload[:5]} ... ({len(payload)} B)'
-- 
2.43.0


From 135c51a6b6614d0c15805c79017c9cd389c60336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 03/46] fix: get_attr() with a default must not report a
 duplicate attribute

---
 pycose/messages/cosebase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index d5b5754..b5980de 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -69,16 +69,16 @@ class CoseBase(metaclass=abc.ABCMeta):
         :returns: If found returns a header attribute else 'None' or the default value
         """
 
-        p_attr = self._phdr.get(attribute, default)
-        u_attr = self._uhdr.get(attribute, default)
+        in_phdr = attribute in self._phdr
+        in_uhdr = attribute in self._uhdr
 
-        if p_attr is not None and u_attr is not None:
+        if in_phdr and in_uhdr:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
-        if p_attr is not None:
-            return p_attr
+        if in_phdr:
+            return self._phdr[attribute]
         else:
-            return u_attr
+            return self._uhdr.get(attribute, default)
 
     @property
     def phdr(self) -> dict:
-- 
2.43.0


From 925ba263f76f503ce19cae47538e2300253a04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 04/46] fix: deleting the only key value of an OKP key must be
 refused

---
 pycose/keys/okp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 7950ef0..78d44ef 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -246,7 +246,7 @@ class OKPKey(CoseKey):
         if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
             if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
                 pass
-            if self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
-- 
2.43.0


From 87d9df2429041a80f9c0840914c41c4b73b4f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 05/46] fix: unknown parameters of EC2, OKP and symmetric keys
 must be deletable

---
 pycose/keys/ec2.py       | 10 ++++++----
 pycose/keys/okp.py       |  8 +++++---
 pycose/keys/symmetric.py |  4 +++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 57fcd4c..5bce4ab 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -278,12 +278,14 @@ class EC2Key(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != EC2KpCurve:
-            if self._key_transform(key) == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+
+        if kp != KpKty and kp != EC2KpCurve:
+            if kp == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
                 pass
-            elif self._key_transform(key) == EC2KpX and EC2KpD not in self.store:
+            elif kp == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (self._key_transform(key) == EC2KpX or self._key_transform(key) == EC2KpY) and EC2KpD in self.store:
+            elif (kp == EC2KpX or kp == EC2KpY) and EC2KpD in self.store:
                 super(EC2Key, self).__delitem__(EC2KpX)
                 super(EC2Key, self).__delitem__(EC2KpY)
                 return
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 78d44ef..90dd580 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -243,10 +243,12 @@ class OKPKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
-            if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+
+        if kp != KpKty and kp != OKPKpCurve:
+            if kp == OKPKpD and OKPKpX not in self.store:
                 pass
-            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif kp == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index a66fdae..d0bc4ac 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -71,7 +71,9 @@ class SymmetricKey(CoseKey):
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != SymKpK:
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+
+        if kp != KpKty and kp != SymKpK:
             super().__delitem__(key)
         else:
             raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalide COSE Symmetric Key")
-- 
2.43.0


From 4eb614b18147aa32f91279847d3c235824d2b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 06/46] fix: kty setter must look the value up among the key
 types

---
 pycose/keys/cosekey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 119840b..29ebb83 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -12,6 +12,7 @@ from pycose.algorithms import CoseAlgorithm
 from pycose.exceptions import CoseException, CoseIllegalKeyType, CoseIllegalAlgorithm, CoseIllegalKeyOps
 from pycose.headers import EphemeralKey, StaticKey
 from pycose.keys.keyops import KeyOps
+from pycose.keys.keytype import KTY
 from pycose.keys.keyparam import KpKty, KpKeyOps, KpAlg, KpKid, KpBaseIV, KeyParam
 
 if TYPE_CHECKING:
@@ -231,7 +232,7 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KpKty.from_id(kty)
+        self.store[KpKty] = KTY.from_id(kty)
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From 6c71acffafb8d8a4e7176cb707ac48984ef6db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 07/46] fix: refuse ECDSA with a key on another curve than the
 algorithm's

---
 pycose/algorithms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 4725e9e..6501029 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -179,14 +179,25 @@ class _Ecdsa(CoseAlgorithm, ABC):
     def get_hash_func(cls):
         raise NotImplementedError()
 
+    @classmethod
+    def _check_key_curve(cls, key: 'EC2') -> None:
+        expected = {NIST256p.name: 'P_256', NIST384p.name: 'P_384', NIST521p.name: 'P_521'}[cls.get_curve().name]
+
+        if key.crv.fullname != expected:
+            raise CoseException(f"Illegal curve for {cls.fullname}: {key.crv}")
+
     @classmethod
     def sign(cls, key: 'EC2', data: bytes) -> bytes:
+        cls._check_key_curve(key)
+
         sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())
 
         return sk.sign_deterministic(data, hashfunc=cls.get_hash_func())
 
     @classmethod
     def verify(cls, key: 'EC2', data: bytes, signature: bytes) -> bool:
+        cls._check_key_curve(key)
+
         p = Point(curve=cls.get_curve().curve, x=int(hexlify(key.x), 16), y=int(hexlify(key.y), 16))
 
         vk = VerifyingKey.from_public_point(p, cls.get_curve(), cls.get_hash_func(), validate_point=True)
-- 
2.43.0


From f095473deba3ddf67eb24868bfcce93f7be04ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 08/46] fix: generate the ephemeral key of a direct key
 agreement before deriving the CEK

---
 pycose/messages/recipient.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 69ab52a..2be333e 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -441,6 +441,10 @@ class DirectKeyAgreement(CoseRecipient):
         if alg in {EcdhSsHKDF256, EcdhSsHKDF512, EcdhEsHKDF256, EcdhEsHKDF512}:
             if ops == "encrypt":
                 peer_key = self.local_attrs.get(headers.StaticKey)
+
+                # if ephemeral and not set, generate ephemeral key pair
+                if self.key is None and peer_key is not None and alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
+                    self._setup_ephemeral_key(peer_key)
             else:
                 if alg in {EcdhSsHKDF256, EcdhSsHKDF512}:
                     peer_key = self.get_attr(headers.StaticKey)
@@ -452,6 +456,9 @@ class DirectKeyAgreement(CoseRecipient):
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
 
+        if self.key is None:
+            raise CoseException("Key cannot be None")
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 003f232c5a21f5b3f0a49cf9136f5e7cedd3fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 09/46] fix: MAC messages with wrapped content keys raised
 NameError and could not be verified

---
 pycose/algorithms.py          |  6 ++++++
 pycose/messages/macmessage.py |  6 ++++--
 pycose/messages/recipient.py  | 23 ++++++++++++++++++-----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 6501029..73f6a93 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -243,6 +243,12 @@ class _AesMac(CoseAlgorithm, ABC):
 
 
 class _HMAC(CoseAlgorithm, ABC):
+    @classmethod
+    def get_key_length(cls) -> int:
+        """ Length in bytes of a derived or transported key, the size of the hash (RFC 8152, section 9.1) """
+
+        return cls.get_hash_func().digest_size
+
     @classmethod
     @abstractmethod
     def get_digest_length(cls) -> int:
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 94befe8..e2eedd7 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -15,12 +15,14 @@ from typing import Optional, List, TYPE_CHECKING
 from pycose import utils, headers
 from pycose.exceptions import CoseException
 from pycose.keys.keyops import MacCreateOp
+from pycose.keys.keyparam import KpAlg, KpKeyOps
+from pycose.keys.symmetric import SymmetricKey
 from pycose.messages import cosemessage, maccommon
 from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyWrap, \
     KeyAgreementWithKeyWrap
 
 if TYPE_CHECKING:
-    from pycose.keys.symmetric import SK, SymmetricKey
+    from pycose.keys.symmetric import SK
 
 CBOR = bytes
 
@@ -94,7 +96,7 @@ class MacMessage(maccommon.MacCommon):
                 else:
                     key_bytes = r.payload
                 r.encrypt(target_algorithm)
-            self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
+            self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
 
         else:
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 2be333e..d5c1efd 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -6,6 +6,8 @@ import cbor2
 
 from pycose import headers, utils
 from pycose.algorithms import \
+    _AesMac, \
+    _HMAC, \
     CoseAlgorithm, \
     Direct, \
     RsaesOaepSha512, \
@@ -28,7 +30,7 @@ from pycose.algorithms import \
     EcdhSsA256KW
 from pycose.exceptions import CoseException, CoseMalformedMessage, CoseIllegalAlgorithm
 from pycose.keys.ec2 import EC2Key, EC2KpD
-from pycose.keys.keyops import DeriveKeyOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp, DeriveBitsOp
+from pycose.keys.keyops import DeriveKeyOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp, DeriveBitsOp, MacCreateOp, MacVerifyOp
 from pycose.keys.keyparam import KpAlg, KpKeyOps
 from pycose.keys.rsa import RSAKey
 from pycose.keys.symmetric import SymmetricKey
@@ -170,6 +172,17 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
 
+    @staticmethod
+    def _cek_params(target_alg: 'CoseAlgorithm', ops: str) -> dict:
+        """ Restrict a content key to the target algorithm and to what the operation uses it for. """
+
+        if issubclass(target_alg, (_HMAC, _AesMac)):
+            key_op = MacCreateOp if ops == "encrypt" else MacVerifyOp
+        else:
+            key_op = EncryptOp if ops == "encrypt" else DecryptOp
+
+        return {KpAlg: target_alg, KpKeyOps: [key_op]}
+
     def _setup_ephemeral_key(self, peer_key, optional_params: dict = None):
         self.key = EC2Key.generate_key(peer_key.crv, optional_params)
 
@@ -320,10 +333,10 @@ class KeyWrap(CoseRecipient):
             if self.payload == b'':
                 return None
             else:
-                return SymmetricKey(k=self.payload, optional_params={KpAlg: target_alg, KpKeyOps: [EncryptOp]})
+                return SymmetricKey(k=self.payload, optional_params=self._cek_params(target_alg, ops))
         else:
             return SymmetricKey(k=self.decrypt(target_alg),
-                                optional_params={KpAlg: target_alg, KpKeyOps: [DecryptOp]})
+                                optional_params=self._cek_params(target_alg, ops))
 
     def encrypt(self, target_alg: '_EncAlg') -> bytes:
         alg = self.get_attr(headers.Algorithm)
@@ -506,10 +519,10 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             if self.payload == b'':
                 return None
             else:
-                return SymmetricKey(k=self.payload, optional_params={KpAlg: target_alg, KpKeyOps: [EncryptOp]})
+                return SymmetricKey(k=self.payload, optional_params=self._cek_params(target_alg, ops))
         else:
             return SymmetricKey(k=self.decrypt(target_alg),
-                                optional_params={KpAlg: target_alg, KpKeyOps: [DecryptOp]})
+                                optional_params=self._cek_params(target_alg, ops))
 
     def encode(self, *args, **kwargs) -> list:
 
-- 
2.43.0


From 3455e930a102e49616465c49cc70e88450f96e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 10/46] fix: a malformed recipient must not make decoding drop
 all recipients

---
 pycose/messages/encmessage.py | 4 +---
 pycose/messages/macmessage.py | 7 ++-----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index cc43e07..c18abb6 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -26,11 +26,9 @@ class EncMessage(enccommon.EncCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'EncMessage':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = []
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index e2eedd7..220654a 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -37,11 +37,9 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = None
 
         return msg
 
@@ -57,8 +55,7 @@ class MacMessage(maccommon.MacCommon):
 
         super().__init__(phdr, uhdr, payload, external_aad, key, *args, **kwargs)
 
-        self._recipients = []
-        self.recipients = recipients
+        self.recipients = recipients if recipients is not None else []
 
     def encode(self, tag: bool = True, mac: bool = True, *args, **kwargs) -> CBOR:
         """ Encodes and protects the COSE_Mac message. """
-- 
2.43.0


From a2411a9762e1007ced5d38d73fe2ca0baad819c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 11/46] fix: assigning recipients must replace them instead of
 appending

---
 pycose/messages/encmessage.py | 2 +-
 pycose/messages/recipient.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index c18abb6..c29e038 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -133,7 +133,7 @@ class EncMessage(enccommon.EncCommon):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index d5c1efd..38bd095 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -147,7 +147,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def get_kdf_context(self, algorithm: '_EncAlg') -> 'CoseKDFContext':
         """
-- 
2.43.0


From 51cdd22f217bffc4e59c2b96ad7cb4eeb8f6347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 12/46] fix: nested recipients were dropped on decoding and not
 refused for direct recipients

---
 pycose/messages/recipient.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 38bd095..ecae0dc 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -77,6 +77,16 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         else:
             raise CoseException("No algorithm specified in recipient structure")
 
+    @classmethod
+    def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
+        msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+
+        # raw recipient structures, parsed by the recipient classes which are allowed to carry recipients
+        if len(cose_obj):
+            msg._recipients = cose_obj.pop(0)
+
+        return msg
+
     @classmethod
     def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
         found = False
@@ -429,7 +439,7 @@ class DirectKeyAgreement(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None")
 
-        if len(self.recipients) > 1:
+        if len(self.recipients):
             raise CoseMalformedMessage(f'Recipient class DIRECT_KEY_AGREEMENT cannot carry more recipients')
 
         # only the ephemeral sender key MUST be included in the header, for the static sender it is recommended by not
@@ -439,9 +449,6 @@ class DirectKeyAgreement(CoseRecipient):
 
         recipient = [self.phdr_encoded, self.uhdr_encoded, b'']
 
-        if len(self.recipients):
-            recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
-
         return recipient
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
-- 
2.43.0


From 3e9c93b9dfaeb4ef420c36cbd240622c30e1f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 13/46] fix: enforce the restrictions of the user's key in key
 wrap and key agreement with key wrap

---
 pycose/messages/recipient.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index ecae0dc..50472b1 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -361,7 +361,7 @@ class KeyWrap(CoseRecipient):
             key_ops = [WrapOp, EncryptOp]
             kek = SymmetricKey(k=self._compute_kek(target_alg, ops='encrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
-            kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
+            self.key.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
             kek.verify(RSAKey, alg, [WrapOp, EncryptOp])
@@ -378,7 +378,7 @@ class KeyWrap(CoseRecipient):
         if alg in {A128KW, A192KW, A256KW}:
             kek = SymmetricKey(k=self._compute_kek(target_alg, 'decrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
-            kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
+            self.key.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
             kek.verify(RSAKey, alg, [UnwrapOp, DecryptOp])
@@ -567,6 +567,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         key_bytes = self._compute_kek((self.get_attr(headers.Algorithm)).get_key_wrap_func(), peer_key, self.key, alg)
         wrap_func = alg.get_key_wrap_func()
 
@@ -584,6 +587,15 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
 
+        if peer_key is None:
+            raise CoseException("Unknown sender public key")
+
+        if self.key is None:
+            raise CoseException("Key cannot be None")
+
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
 
-- 
2.43.0


From f413d7c760059e7d3515d3ed14c7304eaeb6ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 14/46] fix: refuse ECDH between keys on different curves

---
 pycose/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 73f6a93..2d186ee 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -306,6 +306,9 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
 
     @classmethod
     def _ecdh(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2') -> bytes:
+        if private_key.crv.identifier != public_key.crv.identifier:
+            raise CoseException(f"Keys on different curves: {private_key.crv}, {public_key.crv}")
+
         d_value = int(hexlify(private_key.d), 16)
         x_value = int(hexlify(public_key.x), 16)
         y_value = int(hexlify(public_key.y), 16)
-- 
2.43.0


From f6706ae8c62d5a880c6875fc6937bf324ca0c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 15/46] fix: an empty protected header is part of the signature
 structure as a zero-length bstr

---
 pycose/messages/signer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index a186388..b434487 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -50,12 +50,12 @@ class CoseSignature(SignCommon):
         self._payload = value
 
     def _create_sig_structure(self, detached_payload: Optional[bytes] = None):
-        sign_structure = [self._parent.context, self._parent.phdr_encoded]
-
-        if len(self.phdr):
-            sign_structure.append(self.phdr_encoded)
-
-        sign_structure.append(self.external_aad)
+        # an empty protected header is always represented by a zero-length bstr (RFC 8152, section 4.4)
+        sign_structure = [
+            self._parent.context,
+            self._parent.phdr_encoded if len(self._parent.phdr) else b'',
+            self.phdr_encoded if len(self.phdr) else b'',
+            self.external_aad]
 
         if detached_payload is None:
             if self._parent.payload is None:
-- 
2.43.0


From e7c23adce8b8b9652f31503a88bcdcce488f226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 16/46] fix: keep leading zero bytes of the nonce and refuse a
 base IV without partial IV

---
 pycose/messages/enccommon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index f399270..e7c4c1a 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -82,11 +82,17 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
         nonce = self.get_attr(headers.IV)
 
         if nonce is None and self.key.base_iv != b'':
+            base_iv = self.key.base_iv
             partial_iv = self.get_attr(headers.PartialIV)
-            nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
-            nonce = nonce.to_bytes((nonce.bit_length() + 7) // 8, byteorder="big")
 
-        if nonce is None and self.key.base_iv == b'':
+            if partial_iv is not None:
+                if len(partial_iv) > len(base_iv):
+                    raise CoseException('Partial IV is longer than the base IV')
+
+                nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(base_iv, "big")
+                nonce = nonce.to_bytes(len(base_iv), byteorder="big")
+
+        if nonce is None:
             raise CoseException('No IV found')
 
         return nonce
-- 
2.43.0


From d569ad827f3118d32315da22be3f53df38fa047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 17/46] fix: honour the sign bit of a compressed EC2 public key

---
 pycose/keys/ec2.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 5bce4ab..b8c317e 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -115,6 +115,11 @@ class EC2Key(CoseKey):
         """
         transformed_dict = {KpKty: KtyEC2}
 
+        # compressed point: y only carries the sign bit (RFC 8152, section 13.1.1)
+        y_sign = None
+        if isinstance(y, bool):
+            y_sign, y = y, b''
+
         if optional_params is None:
             optional_params = {}
 
@@ -160,11 +165,15 @@ class EC2Key(CoseKey):
             else:
                 y = public_nums.y.to_bytes(self.crv.size, 'big')
 
+            if y_sign is not None and y_sign != bool(y[-1] & 1):
+                raise CoseInvalidKey("Sign bit of the y coordinate does not match the private key")
+
         if x and not y:
             # try to derive y from x
             key = ec.EllipticCurvePublicKey.from_encoded_point(self.crv.curve_obj,
-                                                               # don't care which of the two possible Y values we get
-                                                               b'\x03' +
+                                                               # without a sign bit, don't care which of the two
+                                                               # possible Y values we get
+                                                               (b'\x02' if y_sign is False else b'\x03') +
                                                                x  # or [::-1]?
                                                                )
             # Just to check the endianness of the conversions -- if we get the
-- 
2.43.0


From 06b6cfc87ecb7d8c30ca32ee6e772d63e66854f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 18/46] fix: verifying a chain of a single certificate raised
 TypeError

---
 pycose/extensions/x509.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 5c1aacb..81dcab4 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -74,9 +74,11 @@ class X5Chain:
             self.verify_chain({'digital_signature'})
 
     def verify_chain(self, key_usage: Set[str]):
+        chain = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
+
         val = CertificateValidator(
-            end_entity_cert=self.cert_chain[0],
-            intermediate_certs=self.cert_chain[1:],
+            end_entity_cert=chain[0],
+            intermediate_certs=chain[1:],
         )
         return val.validate_usage(key_usage)
 
-- 
2.43.0


From ce70908d8d282879ba6a79de0631c8f53e06655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 19/46] fix: multi-prime parameters of RSA keys were lost

---
 pycose/keys/rsa.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index c2d7b45..8985774 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -284,6 +284,46 @@ class RSAKey(CoseKey):
             raise TypeError("parameter dq must be of type 'bytes'")
         self.store[RSAKpQInv] = qinv
 
+    @property
+    def other(self) -> List[dict]:
+        return self.store.get(RSAKpOther, [])
+
+    @other.setter
+    def other(self, other: List[dict]):
+        if type(other) is not list:
+            raise TypeError("parameter other must be of type 'list'")
+        self.store[RSAKpOther] = other
+
+    @property
+    def r_i(self) -> bytes:
+        return self.store.get(RSAKpRi, b'')
+
+    @r_i.setter
+    def r_i(self, r_i: bytes):
+        if type(r_i) is not bytes:
+            raise TypeError("parameter r_i must be of type 'bytes'")
+        self.store[RSAKpRi] = r_i
+
+    @property
+    def d_i(self) -> bytes:
+        return self.store.get(RSAKpDi, b'')
+
+    @d_i.setter
+    def d_i(self, d_i: bytes):
+        if type(d_i) is not bytes:
+            raise TypeError("parameter d_i must be of type 'bytes'")
+        self.store[RSAKpDi] = d_i
+
+    @property
+    def t_i(self) -> bytes:
+        return self.store.get(RSAKpTi, b'')
+
+    @t_i.setter
+    def t_i(self, t_i: bytes):
+        if type(t_i) is not bytes:
+            raise TypeError("parameter t_i must be of type 'bytes'")
+        self.store[RSAKpTi] = t_i
+
     @property
     def key_ops(self) -> List[Type['KEYOPS']]:
         """ Returns the value of the :class:`~pycose.keys.keyparam.KpKeyOps` key parameter """
-- 
2.43.0


From 852c90eb6ea007ac8ef7cd404f319260a4d9d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 20/46] fix: X448 keys are 56 bytes long

---
 pycose/keys/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/curves.py b/pycose/keys/curves.py
index 056ecea..f817793 100644
--- a/pycose/keys/curves.py
+++ b/pycose/keys/curves.py
@@ -170,14 +170,14 @@ class X448(CoseCurve):
 
         **key_type**       *KtyOKP*
 
-        **size**           *57*
+        **size**           *56*
     """
 
     identifier = 5
     fullname = "X448"
     curve_obj = x448.X448PrivateKey
     key_type = KtyOKP
-    size = 57
+    size = 56
 
 
 @CoseCurve.register_attribute()
-- 
2.43.0


From 230edbd76fc5c33d57a7413318d0afadeb9a36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 21/46] fix: printing an RSA key must not reveal its private
 values

---
 pycose/keys/rsa.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 8985774..08a22d4 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -3,6 +3,7 @@ from typing import List, TYPE_CHECKING, Optional, Type, Union
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric import rsa
 
+from pycose import utils
 from pycose.exceptions import CoseInvalidKey, CoseIllegalKeyType, CoseIllegalKeyOps
 from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
@@ -355,7 +356,16 @@ class RSAKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __repr__(self):
-        hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
+        _key = self._key_repr()
+
+        for kp in ('RSAKpD', 'RSAKpP', 'RSAKpQ', 'RSAKpDP', 'RSAKpDQ', 'RSAKpQInv', 'RSAKpRi', 'RSAKpDi', 'RSAKpTi'):
+            if kp in _key and len(_key[kp]) > 0:
+                _key[kp] = utils.truncate(_key[kp])
+
+        if 'RSAKpOther' in _key:
+            _key['RSAKpOther'] = f"{len(_key['RSAKpOther'])} other primes"
+
+        hdr = f'<COSE_Key(RSAKey): {_key}>'
         return hdr
 
 
-- 
2.43.0


From 005ff3f3395974de1f8f70d79d808a64a2f5c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 22/46] fix: the KDF context must carry the recipient's
 protected header as encoded

---
 pycose/messages/context.py   | 13 ++++++++++---
 pycose/messages/recipient.py |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index d21e4b4..f42a04d 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Optional, Union
 
 import attr
 import cbor2
@@ -24,7 +24,7 @@ class PartyInfo:
 @attr.s(slots=True)
 class SuppPubInfo:
     _key_data_length: int = attr.ib()
-    protected: dict = attr.ib(factory=dict)
+    protected: Union[dict, bytes] = attr.ib(factory=dict)
     other: bytes = attr.ib(default=b'')
 
     @property
@@ -49,7 +49,14 @@ class SuppPubInfo:
     def encode(self) -> list:
         """ Encodes the supplementary public information. """
 
-        info = [self.key_data_length * 8, cbor2.dumps(self.protected, default=self._custom_cbor_encoder)]
+        if isinstance(self.protected, bytes):
+            protected = self.protected
+        elif len(self.protected):
+            protected = cbor2.dumps(self.protected, default=self._custom_cbor_encoder)
+        else:
+            protected = b''
+
+        info = [self.key_data_length * 8, protected]
         if self.other != b'':
             info.append(self.other)
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 50472b1..99e0634 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -177,7 +177,8 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         v_other = self.get_attr(headers.PartyVOther)
         v = PartyInfo(v_id, v_nonce, v_other)
 
-        supp_pub = SuppPubInfo(algorithm.get_key_length(), self.phdr, self.local_attrs.get(headers.SuppPubOther, b''))
+        protected = self.phdr_encoded if len(self.phdr) else b''
+        supp_pub = SuppPubInfo(algorithm.get_key_length(), protected, self.local_attrs.get(headers.SuppPubOther, b''))
         supp_priv = self.local_attrs.get(headers.SuppPrivOther, b'')
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
-- 
2.43.0


From 9f91300576451eacdcf12593a19240966a24b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 23/46] fix: KDF contexts must not share their default party
 information

---
 pycose/messages/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index f42a04d..b640a90 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -71,8 +71,8 @@ class SuppPubInfo:
 class CoseKDFContext:
     algorithm: '_EncAlg' = attr.ib()
     supp_pub_info: SuppPubInfo = attr.ib()
-    party_u_info: PartyInfo = attr.ib(default=PartyInfo())
-    party_v_info: PartyInfo = attr.ib(default=PartyInfo())
+    party_u_info: PartyInfo = attr.ib(factory=PartyInfo)
+    party_v_info: PartyInfo = attr.ib(factory=PartyInfo)
     supp_priv_info: bytes = attr.ib(default=b'')
 
     def encode(self) -> CBOR:
-- 
2.43.0


From dd05a4cd4514b206d8fb0d49c499c9be49d41cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 24/46] fix: use the salt header parameter in HKDF

---
 pycose/algorithms.py         | 5 +++--
 pycose/messages/recipient.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 2d186ee..d0895a6 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -321,10 +321,11 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
         return shared_key
 
     @classmethod
-    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext') -> bytes:
+    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext',
+                   salt: Optional[bytes] = None) -> bytes:
         shared_secret = cls._ecdh(curve, private_key, public_key)
 
-        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=None,
+        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=salt,
                    info=context.encode(),
                    backend=default_backend())
         return kdf.derive(shared_secret)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 99e0634..82dc76f 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -454,7 +454,8 @@ class DirectKeyAgreement(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  salt=self.get_attr(headers.Salt))
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> 'SK':
         alg = self.get_attr(headers.Algorithm)
@@ -544,7 +545,8 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  salt=self.get_attr(headers.Salt))
         return key_bytes
 
     def encrypt(self, target_alg) -> bytes:
-- 
2.43.0


From 49749ed6cd47658689f11d71534467c244dd6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 25/46] fix: a content key preset in a later recipient did not
 reach the earlier ones

---
 pycose/messages/encmessage.py | 5 ++++-
 pycose/messages/macmessage.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index c29e038..010a5e2 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -84,7 +84,10 @@ class EncMessage(enccommon.EncCommon):
             payload = super(EncMessage, self).encrypt()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients share one CEK: the one preset in a recipient, otherwise a new one
+            key_bytes = next((r.payload for r in self.recipients if r.payload != b''), None)
+            if key_bytes is None:
+                key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
             for r in self.recipients:
                 if r.payload == b'':
                     r.payload = key_bytes
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 220654a..664da4d 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -85,7 +85,10 @@ class MacMessage(maccommon.MacCommon):
             payload = super(MacMessage, self).compute_tag()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients share one CEK: the one preset in a recipient, otherwise a new one
+            key_bytes = next((r.payload for r in self.recipients if r.payload != b''), None)
+            if key_bytes is None:
+                key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
 
             for r in self.recipients:
                 if r.payload == b'':
-- 
2.43.0


From f106bc9467cd32443121855e7afd90df7619c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 26/46] fix: assigning key_ops must be all or nothing

---
 pycose/keys/cosekey.py   | 6 +++++-
 pycose/keys/ec2.py       | 4 ++--
 pycose/keys/okp.py       | 4 ++--
 pycose/keys/rsa.py       | 4 ++--
 pycose/keys/symmetric.py | 4 ++--
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 29ebb83..25d2c35 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -265,7 +265,11 @@ class CoseKey(MutableMapping, ABC):
     @key_ops.setter
     def key_ops(self, new_key_ops: List[Type['KEYOPS']]) -> None:
         if isinstance(new_key_ops, list):
-            self.store[KpKeyOps] = [KeyOps.from_id(k) for k in new_key_ops]
+            if len(new_key_ops):
+                self.store[KpKeyOps] = [KeyOps.from_id(k) for k in new_key_ops]
+            else:
+                # an empty list is no restriction, as in the constructor
+                self.store.pop(KpKeyOps, None)
         else:
             raise ValueError("Key operations should be a list with KeyOps values.")
 
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index b8c317e..62367d6 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -262,8 +262,8 @@ class EC2Key(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {EC2Key.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 90dd580..9461500 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -218,8 +218,8 @@ class OKPKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {OKPKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 08a22d4..94b4807 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -337,8 +337,8 @@ class RSAKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_bits: int, optional_params: dict = None) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index d0bc4ac..707bd04 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -106,8 +106,8 @@ class SymmetricKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {SymmetricKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_len: int, optional_params: dict = None) -> 'SymmetricKey':
-- 
2.43.0


From f7978c9b4400221f353900ceff9950b26f6cc215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 27/46] fix: a key must not be given the type of another kind
 of key

---
 pycose/keys/cosekey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 25d2c35..478ad5b 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -232,7 +232,12 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KTY.from_id(kty)
+        kty = KTY.from_id(kty)
+
+        if kty != self.kty:
+            raise CoseIllegalKeyType(f"Illegal key type for {self.__class__.__name__}: {kty}")
+
+        self.store[KpKty] = kty
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From 1aed7b9ae892ffcb9b83e8cbc85df547e26c3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 28/46] fix: refuse symmetric keys whose length does not fit
 the algorithm

RFC 8152 (sections 9 and 10) requires the key length to be validated. Without it a tag or
ciphertext made under one AES algorithm verified under the algorithm of another key size.
---
 pycose/algorithms.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index d0895a6..7df9129 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -216,6 +216,8 @@ class _AesMac(CoseAlgorithm, ABC):
 
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
+        if len(key.k) != cls.get_key_length():
+            raise CoseException('Key has the wrong length')
         encryptor = Cipher(AES(key.k),
                            modes.CBC(unhexlify(b''.join([b'00'] * 16))),
                            backend=default_backend()).encryptor()
@@ -335,11 +337,15 @@ class _AesGcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        if len(key.k) != cls.get_key_length():
+            raise CoseException("Key has the wrong length")
         cipher = AESGCM(key=key.k)
         return cipher.encrypt(nonce=nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        if len(key.k) != cls.get_key_length():
+            raise CoseException("Key has the wrong length")
         cipher = AESGCM(key=key.k)
         return cipher.decrypt(nonce=nonce, data=ciphertext, associated_data=aad)
 
@@ -353,11 +359,15 @@ class _AesCcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        if len(key.k) != cls.get_key_length():
+            raise CoseException("Key has the wrong length")
         cipher = AESCCM(key.k, tag_length=cls.get_tag_length())
         return cipher.encrypt(nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        if len(key.k) != cls.get_key_length():
+            raise CoseException("Key has the wrong length")
         cipher = AESCCM(key=key.k, tag_length=cls.get_tag_length())
         return cipher.decrypt(nonce, data=ciphertext, associated_data=aad)
 
-- 
2.43.0


From 4a985eedd18d162a75fc9881e712a4e2ea76b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 29/46] fix: refuse lists where a single algorithm is expected

---
 pycose/algorithms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 7df9129..08418e1 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -1,7 +1,7 @@
 from abc import ABC, abstractmethod
 from binascii import hexlify, unhexlify
 from hashlib import sha512, sha384, sha256
-from typing import TYPE_CHECKING, Optional, TypeVar
+from typing import Any, TYPE_CHECKING, Optional, TypeVar
 
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.backends import default_backend
@@ -42,6 +42,13 @@ class CoseAlgorithm(_CoseAttribute, ABC):
     def get_registered_classes(cls):
         return cls._registered_algorithms
 
+    @classmethod
+    def from_id(cls, attribute: Any, allow_unknown_attributes: bool = False) -> Any:
+        # an algorithm is a single value, there are no lists of algorithms
+        if isinstance(attribute, list):
+            raise CoseException(f"Unknown COSE attribute with value: [{cls.__name__} - {attribute}]")
+        return super().from_id(attribute, allow_unknown_attributes)
+
 
 class _HashAlg(CoseAlgorithm, ABC):
     #: Set in derived class to hash constructor
-- 
2.43.0


From b5eb2f1bba4110d03191b956054188e90da63f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 30/46] fix: deleting one coordinate of an EC2 key is all or
 nothing

---
 pycose/keys/ec2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 62367d6..6ad39b2 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -295,8 +295,10 @@ class EC2Key(CoseKey):
             elif kp == EC2KpX and EC2KpD not in self.store:
                 pass
             elif (kp == EC2KpX or kp == EC2KpY) and EC2KpD in self.store:
-                super(EC2Key, self).__delitem__(EC2KpX)
-                super(EC2Key, self).__delitem__(EC2KpY)
+                # a missing coordinate is a KeyError, and leaves the other one alone
+                super(EC2Key, self).__delitem__(kp)
+                self.store.pop(EC2KpX, None)
+                self.store.pop(EC2KpY, None)
                 return
             else:
                 return super(EC2Key, self).__delitem__(key)
-- 
2.43.0


From 2c283374688080c65261c8743543818f39310ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 31/46] fix: refuse EC2 coordinates of the wrong type also when
 they are empty or zero

---
 pycose/keys/ec2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 6ad39b2..41e6ee9 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -120,6 +120,9 @@ class EC2Key(CoseKey):
         if isinstance(y, bool):
             y_sign, y = y, b''
 
+        if any(type(value) is not bytes for value in (x, y, d)):
+            raise TypeError("EC2 coordinates and private key must be of type 'bytes'")
+
         if optional_params is None:
             optional_params = {}
 
-- 
2.43.0


From fde909587d77c0c35dbf41aaa3a7fb5b1eb077a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 32/46] fix: refuse messages whose header buckets are null when
 decoding

A null protected or unprotected bucket was silently taken for an empty one.
---
 pycose/messages/cosebase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index b5980de..7931219 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -22,6 +22,12 @@ class CoseBase(metaclass=abc.ABCMeta):
         phdr_encoded = cose_obj.pop(0)
         uhdr = cose_obj.pop(0)
 
+        if type(phdr_encoded) is not bytes:
+            raise TypeError("encoded protected header should be of type 'bytes'")
+
+        if type(uhdr) is not dict:
+            raise TypeError("unprotected header should be of type 'dict'")
+
         return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
-- 
2.43.0


From 7693b833c2387bae4521cf6fc5b85575e4f7128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 33/46] fix: refuse signatures and tags that are not byte
 strings when decoding

---
 pycose/messages/mac0message.py  | 3 +++
 pycose/messages/macmessage.py   | 3 +++
 pycose/messages/sign1message.py | 2 +-
 pycose/messages/signer.py       | 3 +++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pycose/messages/mac0message.py b/pycose/messages/mac0message.py
index 383c6cd..a71a0cc 100644
--- a/pycose/messages/mac0message.py
+++ b/pycose/messages/mac0message.py
@@ -26,6 +26,9 @@ class Mac0Message(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("authentication tag should be of type 'bytes'")
+
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 664da4d..36a51c7 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -37,6 +37,9 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("authentication tag should be of type 'bytes'")
+
         if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
diff --git a/pycose/messages/sign1message.py b/pycose/messages/sign1message.py
index d46448a..c6be58c 100644
--- a/pycose/messages/sign1message.py
+++ b/pycose/messages/sign1message.py
@@ -23,7 +23,7 @@ class Sign1Message(SignCommon):
     @classmethod
     def from_cose_obj(cls, cose_obj, allow_unknown_attributes: bool) -> 'Sign1Message':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
-        msg._signature = cose_obj.pop(0)
+        msg.signature = cose_obj.pop(0)
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index b434487..5380da3 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -19,6 +19,9 @@ class CoseSignature(SignCommon):
 
         msg: 'CoseSignature' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
+        if msg.signature is None:
+            raise TypeError("Signature must be of type 'bytes'")
+
         return msg
 
     def __init__(self,
-- 
2.43.0


From 1c1d009f46f2d2a169c62bf3793eed279aa55093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 34/46] fix: refuse signers and recipients that are not an
 array when decoding

Empty strings and maps in their place were taken for an empty list.
---
 pycose/messages/encmessage.py  | 5 ++++-
 pycose/messages/macmessage.py  | 5 ++++-
 pycose/messages/recipient.py   | 3 +++
 pycose/messages/signmessage.py | 6 +++++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 010a5e2..3447e56 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -27,8 +27,11 @@ class EncMessage(enccommon.EncCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         if len(cose_obj):
+            recipients = cose_obj.pop(0)
+            if not isinstance(recipients, list):
+                raise TypeError("recipients should be of type 'list'")
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
-                              in cose_obj.pop(0)]
+                              in recipients]
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 36a51c7..bbfbce8 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -41,8 +41,11 @@ class MacMessage(maccommon.MacCommon):
             raise TypeError("authentication tag should be of type 'bytes'")
 
         if len(cose_obj):
+            recipients = cose_obj.pop(0)
+            if not isinstance(recipients, list):
+                raise TypeError("recipients should be of type 'list'")
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
-                              in cose_obj.pop(0)]
+                              in recipients]
 
         return msg
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 82dc76f..703d4da 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -85,6 +85,9 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         if len(cose_obj):
             msg._recipients = cose_obj.pop(0)
 
+            if not isinstance(msg._recipients, list):
+                raise TypeError("recipients should be of type 'list'")
+
         return msg
 
     @classmethod
diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index e35df1e..d121707 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -31,8 +31,12 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
 
         msg: '_SignMessage' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
+        signatures = cose_obj.pop(0)
+        if not isinstance(signatures, list):
+            raise TypeError("signatures should be of type 'list'")
+
         signers = []
-        for r in cose_obj.pop(0):
+        for r in signatures:
             signers.append(CoseSignature.from_cose_obj(r, allow_unknown_attributes))
 
         msg.signers = signers
-- 
2.43.0


From c4255184e0567b514a1ffb13029252b68373cbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:33 +0000
Subject: [PATCH 35/46] fix: refuse wrapped-key recipients with a null
 ciphertext when decoding

---
 pycose/messages/recipient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 703d4da..3cfba30 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -285,7 +285,7 @@ class KeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f"Recipient class KEY_WRAP with alg {alg} must have a zero-length protected header")
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
@@ -509,7 +509,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.context = kwargs.get('context')
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-- 
2.43.0


From 9bb68f98f56a68bbac11be44d53378465d6f591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 36/46] fix: printing a key must not fail on unknown labels
 which read like a parameter name

---
 pycose/keys/cosekey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 478ad5b..45358ea 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -313,8 +313,9 @@ class CoseKey(MutableMapping, ABC):
                or attribute in map(lambda x: getattr(x, 'fullname'), supported)
 
     def _key_repr(self) -> dict:
+        # quote unknown labels, they can read like the name of a known parameter
         names = {
-            kp.__name__ if hasattr(kp, '__name__') else kp:
+            kp.__name__ if hasattr(kp, '__name__') else (repr(kp) if isinstance(kp, str) else kp):
                 self.store[kp].__name__ if hasattr(self.store[kp], '__name__') else self.store[kp] for kp
             in sorted(self.store, key=lambda item: item.identifier if hasattr(item, 'identifier') else 65536)}
 
-- 
2.43.0


From aa35d4155079ac434f258054c9bf001ba5007cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 37/46] fix: headers that hold CBOR tags or simple values can
 be assigned

---
 pycose/messages/cosebase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 7931219..862c9e3 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -1,4 +1,5 @@
 import abc
+import copyreg
 from copy import deepcopy
 from typing import Optional, Any, Dict, Type, Tuple, TypeVar
 
@@ -13,6 +14,10 @@ from pycose.keys.cosekey import KpKeyOps
 
 CBOR = bytes
 
+# headers can hold these, but the C implementation of cbor2 does not let copy make copies of them
+copyreg.pickle(cbor2.CBORTag, lambda tag: (cbor2.CBORTag, (tag.tag, tag.value)))
+copyreg.pickle(cbor2.CBORSimpleValue, lambda simple: (cbor2.CBORSimpleValue, (simple.value,)))
+
 
 class CoseBase(metaclass=abc.ABCMeta):
     """ Basic COSE information buckets. """
-- 
2.43.0


From 8131598c72f491dc0ee4294cb988b032ebedf4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 38/46] fix: keep no generated ephemeral key that does not
 belong to the header's

---
 pycose/messages/recipient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 3cfba30..705cc41 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -198,12 +198,12 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         return {KpAlg: target_alg, KpKeyOps: [key_op]}
 
     def _setup_ephemeral_key(self, peer_key, optional_params: dict = None):
-        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
-
         if self.get_attr(headers.EphemeralKey) is not None:
-            # public key was already set in the header bucket but we just generated a new ephemeral key.
+            # public key was already set in the header bucket, a newly generated ephemeral key does not belong to it.
             raise CoseException('Unrelated ephemeral public key found in COSE message header')
         else:
+            self.key = EC2Key.generate_key(peer_key.crv, optional_params)
+
             # strip private bytes from key
             ephemeral_public_key = dict(self.key)
             del ephemeral_public_key[EC2KpD]
-- 
2.43.0


From 029983beb27a53823e8c91212b5b2af7204676a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 39/46] fix: key material under a lower-case name or in the
 optional parameters was not checked

---
 pycose/keys/cosekey.py   | 10 ++++++++--
 pycose/keys/ec2.py       |  4 ++++
 pycose/keys/okp.py       |  4 ++++
 pycose/keys/rsa.py       |  5 +++++
 pycose/keys/symmetric.py |  4 ++++
 5 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 45358ea..604560d 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -67,15 +67,21 @@ class CoseKey(MutableMapping, ABC):
         elif parameter.fullname in cose_key:
             v = cose_key[parameter.fullname]
         else:
-            v = default
+            # names are accepted in any letter case
+            v = next((cose_key[k] for k in cose_key if cls._is_name_of(k, parameter)), default)
 
         return v
 
+    @staticmethod
+    def _is_name_of(label: Any, parameter: Type['KP']) -> bool:
+        return isinstance(label, str) and label.upper() == parameter.fullname.upper()
+
     @classmethod
     def _remove_from_dict(cls, cose_key: dict, parameter: Type['KP']):
         cose_key.pop(parameter, None)
         cose_key.pop(parameter.identifier, None)
-        cose_key.pop(parameter.fullname, None)
+        for label in [k for k in cose_key if cls._is_name_of(k, parameter)]:
+            del cose_key[label]
 
     @classmethod
     def from_dict(cls, received: dict) -> 'CK':
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 41e6ee9..2b95494 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -130,6 +130,10 @@ class EC2Key(CoseKey):
             # transform the key_attribute
             kp = EC2KeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material itself is checked below
+            if kp in (EC2KpCurve, EC2KpX, EC2KpY, EC2KpD):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 9461500..317b5c1 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -134,6 +134,10 @@ class OKPKey(CoseKey):
             # translate the key_attribute
             kp = OKPKeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material itself is checked below
+            if kp in (OKPKpCurve, OKPKpX, OKPKpD):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 94b4807..6c6ea95 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -168,6 +168,11 @@ class RSAKey(CoseKey):
             # transform the key_attribute
             kp = RSAKeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material itself is checked below
+            if kp in (RSAKpN, RSAKpE, RSAKpD, RSAKpP, RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpOther, RSAKpRi, RSAKpDi,
+                      RSAKpTi):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 707bd04..74290f2 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -52,6 +52,10 @@ class SymmetricKey(CoseKey):
             # translate the key_attribute
             kp = SymmetricKeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material itself is checked below
+            if kp in (SymKpK,):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
-- 
2.43.0


From 251b3cea87a81e12f52f41e6419095bda74b7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 40/46] fix: refuse recipients with different preset content
 keys

---
 pycose/messages/encmessage.py | 2 ++
 pycose/messages/macmessage.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 3447e56..9abd026 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -91,6 +91,8 @@ class EncMessage(enccommon.EncCommon):
             key_bytes = next((r.payload for r in self.recipients if r.payload != b''), None)
             if key_bytes is None:
                 key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            if any(r.payload not in (b'', key_bytes) for r in self.recipients):
+                raise CoseException('The recipients of a message share one content key')
             for r in self.recipients:
                 if r.payload == b'':
                     r.payload = key_bytes
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index bbfbce8..bc83e60 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -96,6 +96,8 @@ class MacMessage(maccommon.MacCommon):
             if key_bytes is None:
                 key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
 
+            if any(r.payload not in (b'', key_bytes) for r in self.recipients):
+                raise CoseException('The recipients of a message share one content key')
             for r in self.recipients:
                 if r.payload == b'':
                     r.payload = key_bytes
-- 
2.43.0


From 7443272c8dc3b39406bcacdbf6d4c35c5143056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 41/46] fix: check that an EC2 public key belongs to the
 private key also when Python runs with -O

The check was an assert statement, which python -O removes, so a key with
unrelated private and public parts was accepted there.
---
 pycose/keys/ec2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 2b95494..76414e0 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -163,12 +163,14 @@ class EC2Key(CoseKey):
                                                 curve=self.crv.curve_obj,
                                                 backend=default_backend()).public_key().public_numbers()
             if x:
-                assert x == public_nums.x.to_bytes(self.crv.size, 'big')
+                if x != public_nums.x.to_bytes(self.crv.size, 'big'):
+                    raise CoseInvalidKey("The public x coordinate does not belong to the private key")
             else:
                 x = public_nums.x.to_bytes(self.crv.size, 'big')
 
             if y:
-                assert y == public_nums.y.to_bytes(self.crv.size, 'big')
+                if y != public_nums.y.to_bytes(self.crv.size, 'big'):
+                    raise CoseInvalidKey("The public y coordinate does not belong to the private key")
             else:
                 y = public_nums.y.to_bytes(self.crv.size, 'big')
 
-- 
2.43.0


From 1cd38594698356794e05d6c5450c4f3d95ae8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 42/46] fix: report booleans as unknown identifiers

True and False were looked up as 1 and 0, so that e.g. an algorithm or key type
'true' was taken for the entry with identifier 1.
---
 pycose/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 90a7256..413e8b9 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -27,7 +27,8 @@ class _CoseAttribute(ABC):
 
     @classmethod
     def from_id(cls, attribute: Any, allow_unknown_attributes: bool = False) -> Any:
-        if isinstance(attribute, int) and attribute in cls.get_registered_classes():
+        if isinstance(attribute, int) and not isinstance(attribute, bool) and \
+                attribute in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute]
         elif isinstance(attribute, str) and attribute.upper() in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute.upper()]
-- 
2.43.0


From 1a1b7dc256f2d844d7cf8fbc041a0d33289a9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 43/46] fix: refuse booleans in critical lists and as content
 types

They passed as integers.
---
 pycose/headers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycose/headers.py b/pycose/headers.py
index 692742b..9d9e885 100644
--- a/pycose/headers.py
+++ b/pycose/headers.py
@@ -176,14 +176,15 @@ def is_bstr(value: Any):
 
 
 def crit_is_array(value: Any):
-    if not isinstance(value, list) or len(value) < 1 or not all(isinstance(x, (int, str)) for x in value):
+    if not isinstance(value, list) or len(value) < 1 or \
+            not all(isinstance(x, (int, str)) and not isinstance(x, bool) for x in value):
         raise ValueError("CRITICAL should be a list with at least one integer or string element")
 
     return value
 
 
 def content_type_is_uint_or_tstr(value: Any):
-    if (not isinstance(value, int) and not isinstance(value, str)) or (
+    if (not isinstance(value, int) and not isinstance(value, str)) or isinstance(value, bool) or (
             True if isinstance(value, int) and value < 0 else False):
         raise ValueError("CONTENT TYPE should be an unsigned integer or string")
 
-- 
2.43.0


From 976ac243ce7ff077b62e823d53a9d80f4df103c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 44/46] fix: printing a message must not fail on an IV entry
 which is not a byte string

---
 pycose/messages/cosebase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 862c9e3..d94beb9 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -190,16 +190,16 @@ class CoseBase(metaclass=abc.ABCMeta):
         uhdr = {(k.__name__ if hasattr(k, '__name__') else k): (
             self._uhdr[k].__name__ if hasattr(self._uhdr[k], '__name__') else self._uhdr[k]) for k in self._uhdr}
 
-        if 'IV' in phdr and len(phdr['IV']) > 0:
+        if isinstance(phdr.get('IV'), bytes) and len(phdr['IV']) > 0:
             phdr['IV'] = utils.truncate(phdr['IV'])
 
-        if 'IV' in uhdr and len(uhdr['IV']) > 0:
+        if isinstance(uhdr.get('IV'), bytes) and len(uhdr['IV']) > 0:
             uhdr['IV'] = utils.truncate(uhdr['IV'])
 
-        if 'PARTIAL_IV' in phdr and len(phdr['PARTIAL_IV']) > 0:
+        if isinstance(phdr.get('PARTIAL_IV'), bytes) and len(phdr['PARTIAL_IV']) > 0:
             phdr['PARTIAL_IV'] = utils.truncate(phdr['PARTIAL_IV'])
 
-        if 'PARTIAL_IV' in uhdr and len(uhdr['PARTIAL_IV']) > 0:
+        if isinstance(uhdr.get('PARTIAL_IV'), bytes) and len(uhdr['PARTIAL_IV']) > 0:
             uhdr['PARTIAL_IV'] = utils.truncate(uhdr['PARTIAL_IV'])
 
         return phdr, uhdr
-- 
2.43.0


From 086bbd259aa62dae3aa2924e79d5fe304a0f3053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 45/46] fix: refuse a partial IV or base IV which is not a byte
 string

---
 pycose/messages/enccommon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index e7c4c1a..960d3d6 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -86,6 +86,10 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
             partial_iv = self.get_attr(headers.PartialIV)
 
             if partial_iv is not None:
+                for iv in (partial_iv, base_iv):
+                    if not isinstance(iv, (bytes, bytearray)):
+                        raise CoseException('Partial IV and base IV must be byte strings')
+
                 if len(partial_iv) > len(base_iv):
                     raise CoseException('Partial IV is longer than the base IV')
 
-- 
2.43.0


From 0664b1ce85633706228dcc4d35cd7c73bd8dfed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 46/46] fix: refuse an ephemeral key agreement with key wrap
 without the ephemeral public key

---
 pycose/messages/recipient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 705cc41..5a34530 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -573,6 +573,10 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        # without the public ephemeral key nobody can unwrap the CEK
+        if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW} and self.get_attr(headers.EphemeralKey) is None:
+            raise CoseMalformedMessage(f'Recipient class {self.__class__.__name__} must carry an ephemeral COSE key object')
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0

