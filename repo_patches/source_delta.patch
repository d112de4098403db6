From 1588759f0b58d93c4ffbe1b6d816ba3f8834625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 01/60] fix: Bits ordering had distinct values that were
 neither less nor greater than each other

---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..2be43c7 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -135,7 +135,8 @@ class Bits:
             return True
 
         elif self_fwp == rhs_fwp:
-            return self.__tail_bits() < rhs.__tail_bits()
+            # A prefix sorts before everything it's a prefix of
+            return (self.__tail_bits(), self.__length) < (rhs.__tail_bits(), rhs.__length)
 
         else:
             return False
-- 
2.43.0


From 30194931ae9108caa07580869f4ff39ccfe1f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 02/60] fix: Bits of zero or whole-byte length could be
 serialized but not deserialized

---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 2be43c7..3d7ffc7 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -312,7 +312,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('Unused tail bits must be zero; got 0x%02x' % buf[-1])
         return r
 
-- 
2.43.0


From 5efa959c4c0ee9090b8d6b36b7db145696b9480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 03/60] fix: BitsSerializer.check_instance() never rejected
 anything

---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 3d7ffc7..25dcf92 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -296,7 +296,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From fb7e830bfce9c824fc69c6afd38516b27ed245c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 04/60] fix: read_varuint() accepted non-minimal encodings, so
 distinct bytes deserialized to equal objects

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..c7b492a 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -207,6 +207,8 @@ class StreamDeserializationContext(DeserializationContext):
             b = self.fd_read(1)[0]
             value |= (b & 0b01111111) << shift
             if not (b & 0b10000000):
+                if b == 0 and shift:
+                    raise DeserializationError('Non-canonical varuint; most significant byte is zero')
                 break
             shift += 7
 
-- 
2.43.0


From dc09110a30ff2724605738433c7dcd760b792b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 05/60] fix: deserialize() silently ignored junk after the end
 of the object

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index c7b492a..55203a5 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -236,7 +236,11 @@ class BytesDeserializationContext(StreamDeserializationContext):
         """Deserialize from bytes"""
         super().__init__(io.BytesIO(buf))
 
-    # FIXME: need to check that there isn't extra crap at end of object
+    def check_eof(self):
+        """Check that there isn't extra crap at the end of the object"""
+        junk = self.fd.read()
+        if junk:
+            raise DeserializationError('%d bytes of junk at end of serialized object' % len(junk))
 
 class Serializer:
     """(De)serialize an instance of a class
@@ -280,7 +284,7 @@ class Serializer:
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
         r = cls.ctx_deserialize(ctx)
-        # FIXME: check for junk at end
+        ctx.check_eof()
         return r
 
 class SerBool(Serializer):
-- 
2.43.0


From 6eddf89fcca4b8770803203654b8faf14428f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 06/60] fix: absurdly large lengths in serialized data raised
 OverflowError rather than TruncationError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 55203a5..76a2ff9 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -181,7 +181,10 @@ class StreamDeserializationContext(DeserializationContext):
         self.fd = fd
 
     def fd_read(self, l):
-        r = self.fd.read(l)
+        try:
+            r = self.fd.read(l)
+        except OverflowError:
+            raise TruncationError('Tried to read %d bytes' % l)
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
-- 
2.43.0


From ed1f546e9d4f3cb1385e0bdf6bf81e979d92104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 07/60] fix: read_bytes() without an expected length raised
 TypeError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 76a2ff9..f876edc 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -219,7 +219,7 @@ class StreamDeserializationContext(DeserializationContext):
 
     def read_bytes(self, expected_length=None):
         if expected_length is None:
-            expected_length = self.read_varuint(None)
+            expected_length = self.read_varuint()
         return self.fd_read(expected_length)
 
     def read_obj(self, serialization_class):
-- 
2.43.0


From 3b16e7c47088b2e67dea6037c977ebdc8d235912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 08/60] fix: unknown union/variant numbers raised NameError
 rather than DeserializationError

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..17341f5 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,7 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, DeserializationError, SerializerTypeError, HashTag
 
 """Proof representation
 
-- 
2.43.0


From d8e873abfed3f9ae76af7ebe2c252e674c759499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 09/60] fix: Proof subclasses used the attributes of their
 parent class if it was instantiated first

---
 lib/python-proofmarshal/proofmarshal/proof.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 17341f5..2e80e0b 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -43,7 +43,9 @@ class Proof(HashingSerializer):
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
+        # Look in the class's own dict, as a parent class may have been
+        # instantiated first
+        if cls.__dict__.get('SERIALIZED_ATTRS_BY_NAME') is None:
             cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
 
         is_pruned = False
-- 
2.43.0


From 2b74eda9952a8624c363a4fef92314cb1ca1cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 10/60] fix: deserialized pruned proofs raised TypeError on
 attribute access if their class hadn't been instantiated yet

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 2e80e0b..a734bdd 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -122,7 +122,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if name in [attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS]:
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From af920c54dc60eacf77100735cc3c25ae3be6c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 11/60] fix: is_pruned ignored pruned proofs contained in
 ProofUnion attributes

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index a734bdd..ccdb77e 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -55,7 +55,7 @@ class Proof(HashingSerializer):
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
 
-            if issubclass(ser_cls, Proof):
+            if isinstance(value, Proof):
                 is_pruned |= value.is_pruned
 
         object.__setattr__(self, 'is_fully_pruned', False)
-- 
2.43.0


From 23c3939a2d20d18de0151c52a6636d34e41b5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 12/60] fix: Proof.check_instance() accepted instances of any
 class

---
 lib/python-proofmarshal/proofmarshal/proof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index ccdb77e..21451ef 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -69,7 +69,8 @@ class Proof(HashingSerializer):
 
         Raises SerializerTypeError if not
         """
-        # FIXME
+        if not isinstance(instance, cls):
+            raise SerializerTypeError('Expected %r; got %r' % (cls, instance.__class__))
 
     def __eq__(self, other):
         if isinstance(other, Proof):
-- 
2.43.0


From 0a9ae485bfe82a418293b87e200873df88e0dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 13/60] fix: fully pruned VarProofs lost their variant, and
 thus hash, when serialized

---
 lib/python-proofmarshal/proofmarshal/proof.py | 50 +++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 21451ef..ab6ff99 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -187,10 +187,13 @@ class Proof(HashingSerializer):
             attr = getattr(self, attr_name)
             ser_cls.ctx_serialize(attr, ctx)
 
+    def _ctx_serialize_pruned(self, ctx):
+        ctx.write_bytes(self.data_hash)
+
     def ctx_serialize(self, ctx):
         if self.is_fully_pruned:
             ctx.write_bool(True)
-            ctx.write_bytes(self.data_hash)
+            self._ctx_serialize_pruned(ctx)
 
         else:
             ctx.write_bool(False)
@@ -214,20 +217,24 @@ class Proof(HashingSerializer):
         return Proof.__new__(cls, **kwargs)
 
     @classmethod
-    def ctx_deserialize(cls, ctx):
-        fully_pruned = ctx.read_bool()
+    def _ctx_deserialize_pruned(cls, ctx):
+        self = object.__new__(cls)
 
-        if fully_pruned:
-            self = object.__new__(cls)
+        data_hash = ctx.read_bytes(32) # FIXME
+        object.__setattr__(self, 'data_hash', data_hash)
 
-            data_hash = ctx.read_bytes(32) # FIXME
-            object.__setattr__(self, 'data_hash', data_hash)
+        object.__setattr__(self, 'is_fully_pruned', True)
+        object.__setattr__(self, 'is_pruned', True)
+        object.__setattr__(self, '_Proof__orig_instance', None)
+
+        return self
 
-            object.__setattr__(self, 'is_fully_pruned', True)
-            object.__setattr__(self, 'is_pruned', True)
-            object.__setattr__(self, '_Proof__orig_instance', None)
+    @classmethod
+    def ctx_deserialize(cls, ctx):
+        fully_pruned = ctx.read_bool()
 
-            return self
+        if fully_pruned:
+            return cls._ctx_deserialize_pruned(ctx)
 
         else:
             return cls._ctx_deserialize(ctx)
@@ -269,7 +276,7 @@ class VarProof(Proof):
 
         return subclass
 
-    def _ctx_serialize(self, ctx):
+    def _ctx_serialize_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
             if isinstance(self, cls):
                 ctx.write_varuint(i)
@@ -278,20 +285,35 @@ class VarProof(Proof):
         else:
             raise SerializerTypeError('bad class')
 
+    def _ctx_serialize(self, ctx):
+        self._ctx_serialize_variant(ctx)
         super()._ctx_serialize(ctx)
 
+    def _ctx_serialize_pruned(self, ctx):
+        # The hash depends on the variant, not just the data_hash
+        self._ctx_serialize_variant(ctx)
+        super()._ctx_serialize_pruned(ctx)
+
     @classmethod
-    def _ctx_deserialize(cls, ctx):
+    def _ctx_deserialize_variant(cls, ctx):
         i = ctx.read_varuint()
 
         try:
-            union_cls = cls.UNION_CLASSES[i]
+            return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
             raise DeserializationError('bad union class number %d' % i)
 
+    @classmethod
+    def _ctx_deserialize(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
         return super(VarProof, union_cls)._ctx_deserialize(ctx)
 
+    @classmethod
+    def _ctx_deserialize_pruned(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
+        return super(VarProof, union_cls)._ctx_deserialize_pruned(ctx)
+
 class ProofUnion(HashingSerializer):
     """Serialization of disjoint unions of proof classes
 
-- 
2.43.0


From c8e81c185011c263ffd15960d214c1d213cdba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 14/60] fix: transaction/outpoint serializers raised NameError
 rather than SerializerTypeError

---
 proofchains/core/bitcoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..fdf9253 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -42,7 +42,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From 08368b3d9d0927beff38176ab340293b3cd73484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 15/60] fix: pruned TxProofs lost their hash and txhash when
 serialized

---
 proofchains/core/bitcoin.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index fdf9253..25fa51d 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,15 +66,21 @@ class TxProof(proofmarshal.proof.Proof):
 
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
-    def calc_hash(self):
+    def calc_data_hash(self):
         if self.is_pruned:
-            return super().calc_hash()
+            return super().calc_data_hash()
 
         else:
-            # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
-            # with a fixed pad. This still guarantees global uniqueness, yet
-            # lets us convert the proof hash to a bitcoin hash and back.
-            return bytes([b^p for b,p in zip(self.tx.GetHash(), self.TX_HASH_XOR_PAD)])
+            return self.tx.GetHash()
+
+    def calc_hash(self):
+        # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
+        # with a fixed pad. This still guarantees global uniqueness, yet
+        # lets us convert the proof hash to a bitcoin hash and back.
+        #
+        # The data_hash is the txhash itself so that the hash can still be
+        # calculated after a pruned TxProof has been deserialized.
+        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
 
     @property
     def txhash(self):
-- 
2.43.0


From db1e9376219f9a51798dd6eb91671e4e76cb79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 16/60] fix: MerbinnerTree.put() failed with AssertionError if
 the key was already set

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..8eda4ee 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -152,8 +152,13 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             return new_leaf
 
         else:
-            # The two leaves are joined by an inner node
-            new_tip = self.InnerNodeClass(new_leaf, closest_node)
+            if closest_node.prefix == new_leaf.prefix:
+                # Key already exists; replace the existing leaf
+                new_tip = new_leaf
+
+            else:
+                # The two leaves are joined by an inner node
+                new_tip = self.InnerNodeClass(new_leaf, closest_node)
 
             # And we rebuild the inner nodes along the path from the siblings
             for sibling in siblings:
-- 
2.43.0


From 31fa49713803ec85ba89fc540453d88c65bd564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 17/60] fix: MerkleMountainRange slices with start >= stop
 weren't always empty

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..a23a168 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -419,6 +419,9 @@ def make_mmr_subclass(subclass):
                 if step != 1:
                     raise NotImplementedError
 
+                if start >= stop:
+                    return self.EmptyNodeClass()
+
                 if start <= 0 and stop >= len(self):
                     # We satisfy the slice without modification, so return
                     # ourselves
-- 
2.43.0


From 5ffda9cab1c3a1cbf162321aeb977c8f26a13bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 18/60] fix: sus-tool mkseal crashed as it didn't provide the
 seal's blinding nonce

---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From 48c40c1b68ea446e28f5c920fb902ad9dd5ba14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 19/60] fix: sus-tool witnessinfo showed the seal outpoint txid
 byte-reversed

---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..8e8d9e1 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -246,7 +246,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From a5ed010ca648e8d7acd56e29355581f6ea3f003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 20/60] fix: sus-tool verifywitness ignored --seal-file and
 --seal-id

---
 sus-tool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8e8d9e1..81c1673 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -214,7 +214,11 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        assert witness.seal == BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+
+    if args.seal_id is not None:
+        assert witness.seal.hash == args.seal_id
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From f263f8d00e3c98d501473fc81cdf68f4cb0bebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 21/60] fix: making immutable copies of mutable
 txins/transactions raised exceptions

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..18095a8 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -157,8 +157,8 @@ class COutPoint(ImmutableSerializable):
         If output is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From 089511d38b425abd29af20c074c378b5b3362354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 22/60] fix: accurate GetSigOpCount() raised AttributeError on
 m-of-n CHECKMULTISIG

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..43dbc58 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -763,7 +763,7 @@ class CScript(bytes):
                 n += 1
             elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
                 if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
+                    n += CScriptOp(lastOpcode).decode_op_n()
                 else:
                     n += 20
             lastOpcode = opcode
-- 
2.43.0


From cb6c9ca4d80925e863e374b00c642ff489305820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 23/60] fix: GetSigOpCount() raised on scripts with invalid
 pushdata, making CheckBlock() crash on valid blocks

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 23 ++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 43dbc58..cd155eb 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,20 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += CScriptOp(lastOpcode).decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+        except CScriptInvalidError:
+            # Counting stops at the first invalid pushdata op, matching the
+            # behavior in Bitcoin Core.
+            pass
         return n
 
 
-- 
2.43.0


From 72af6f578a34170bc8abd37d312f3d5d22e7fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 24/60] fix: CheckBlock() never checked the coinbase
 transaction, nor counted its sigops

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 18095a8..d0c34a4 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -714,8 +714,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From 85534bcd62765a418db11c677d9a2d6f44e574e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 25/60] fix: uint256_from_compact() raised ValueError on
 exponents smaller than three

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..6cce49e 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -311,7 +311,10 @@ def uint256_from_compact(c):
     Used for the nBits compact encoding of the target in the block header.
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
+    if nbytes <= 3:
+        v = (c & 0xFFFFFF) >> (8 * (3 - nbytes))
+    else:
+        v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
     return v
 
 
-- 
2.43.0


From 91d9dcdf6d6ae1b7870dd2deca3fe0dfeebfffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 26/60] fix: CheckProofOfWork() accepted negative nBits targets

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index d0c34a4..1a155a4 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -640,6 +640,10 @@ def CheckProofOfWork(hash, nBits):
     """
     target = uint256_from_compact(nBits)
 
+    # Negative targets are never valid
+    if nBits & 0x00800000:
+        raise CheckProofOfWorkError("CheckProofOfWork() : nBits negative")
+
     # Check range
     if not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):
         raise CheckProofOfWorkError("CheckProofOfWork() : nBits below minimum work")
-- 
2.43.0


From ae8b4095ce2c5a4407d0188cdc62a453eee76ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 27/60] fix: ser_read() MAX_SIZE error message was never
 formatted

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 6cce49e..882aba0 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -75,7 +75,7 @@ def ser_read(f, n):
     functions.
     """
     if n > MAX_SIZE:
-        raise SerializationError('Asked to read 0x%x bytes; MAX_SIZE exceeded')
+        raise SerializationError('Asked to read 0x%x bytes; MAX_SIZE exceeded' % n)
     r = f.read(n)
     if len(r) < n:
         raise SerializationTruncationError('Asked to read %i bytes, but only got %i' % (n, len(r)))
-- 
2.43.0


From c833348bd43fdec9054584ffb785b61e45813f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 28/60] fix: intVectorSerialzer deserialization always returned
 None

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 882aba0..a8e3c92 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
-- 
2.43.0


From 09f2550c3bcab216f712eaec13dfa5ee26012872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 29/60] fix: EvalScript() didn't apply the max stack items
 limit to pushes

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..ce517ba 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -394,7 +394,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From ed8743d70669cf41a7ae9061d65750ffaba6ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 30/60] fix: false results of script opcodes were pushed as
 0x00 rather than the empty vector

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index ce517ba..4d3b007 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -199,7 +199,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -483,7 +483,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -519,7 +519,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -656,7 +656,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From 69c4c5292b7c9ef4edcc8642297391dc11cb21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 31/60] fix: SCRIPT_VERIFY_* flags from bitcoin.core.script
 were silently ignored by VerifyScript()

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 4d3b007..0582e1b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From cc6bbe9ceee90d800c32c7be80d332f049fc83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 32/60] fix: EvalScriptError didn't save the execution state

---
 .../bitcoin/core/scripteval.py                | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0582e1b..7a7c375 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -52,18 +52,18 @@ class EvalScriptError(bitcoin.core.ValidationError):
                  altstack=None, vfExec=None, pbegincodehash=None, nOpCount=None):
         super(EvalScriptError, self).__init__('EvalScript: %s' % msg)
 
-        sop = sop
-        sop_data = sop_data
-        sop_pc = sop_pc
-        stack = stack
-        scriptIn = scriptIn
-        txTo = txTo
-        inIdx = inIdx
-        flags = flags
-        altstack = altstack
-        vfExec = vfExec
-        pbegincodehash = pbegincodehash
-        nOpCount = nOpCount
+        self.sop = sop
+        self.sop_data = sop_data
+        self.sop_pc = sop_pc
+        self.stack = stack
+        self.scriptIn = scriptIn
+        self.txTo = txTo
+        self.inIdx = inIdx
+        self.flags = flags
+        self.altstack = altstack
+        self.vfExec = vfExec
+        self.pbegincodehash = pbegincodehash
+        self.nOpCount = nOpCount
 
 class MaxOpCountError(EvalScriptError):
     def __init__(self, **kwargs):
-- 
2.43.0


From 4ce1972fd606beb84fd029b00725e338557f4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 33/60] fix: P2P messages with lengths >= 2^31 were treated as
 having a negative length

---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..0ca0e92 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -84,7 +84,7 @@ class MsgSerializable(Serializable):
 
         # remaining header fields: command, msg length, checksum
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
-        msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
+        msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
 
         # read message body
-- 
2.43.0


From 3d66aa7425fef3e87449bb020f06e0373d94c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 34/60] fix: version messages deserialized from old peers
 couldn't be serialized again

---
 lib/python-bitcoinlib/bitcoin/messages.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 0ca0e92..491696f 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -153,10 +153,12 @@ class msg_version(MsgSerializable):
         f.write(struct.pack(b"<Q", self.nServices))
         f.write(struct.pack(b"<q", self.nTime))
         self.addrTo.stream_serialize(f, True)
-        self.addrFrom.stream_serialize(f, True)
-        f.write(struct.pack(b"<Q", self.nNonce))
-        VarStringSerializer.stream_serialize(self.strSubVer, f)
-        f.write(struct.pack(b"<i", self.nStartingHeight))
+        if self.nVersion >= 106:
+            self.addrFrom.stream_serialize(f, True)
+            f.write(struct.pack(b"<Q", self.nNonce))
+            VarStringSerializer.stream_serialize(self.strSubVer, f)
+            if self.nVersion >= 209:
+                f.write(struct.pack(b"<i", self.nStartingHeight))
 
     def __repr__(self):
         return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=0x%016X strSubVer=%s nStartingHeight=%i)" % (self.nVersion, self.nServices, time.ctime(self.nTime), repr(self.addrTo), repr(self.addrFrom), self.nNonce, self.strSubVer, self.nStartingHeight)
-- 
2.43.0


From bfe255b7a5111150845e695bd1ff63f3227cc2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 35/60] fix: unknown P2P commands with non-ASCII names raised
 UnicodeDecodeError

---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 491696f..21db943 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -102,7 +102,7 @@ class MsgSerializable(Serializable):
             #        print("Going to deserialize '%s'" % msg)
             return cls.msg_deser(_BytesIO(msg))
         else:
-            print("Command '%s' not in messagemap" % str(command, 'ascii'))
+            print("Command '%s' not in messagemap" % str(command, 'ascii', 'replace'))
             return None
 
     def stream_serialize(self, f):
-- 
2.43.0


From 5c9b15a265f4d4bfb320fe52914695308a82b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 36/60] fix: CBloomFilter deserialization always raised

---
 lib/python-bitcoinlib/bitcoin/bloom.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..58cd50c 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -169,9 +169,10 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
-        self.vData = vData
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        # __init__() would recalculate vData and nHashFuncs
+        self = cls.__new__(cls)
+        self.vData = bytearray(vData)
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
         self.nFlags = nFlags
-- 
2.43.0


From c33a637e24362da4f8db1b9f86644c3710caf734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 37/60] fix: CUnsignedAlert (de)serialization always raised

---
 lib/python-bitcoinlib/bitcoin/net.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..8258c87 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -18,6 +18,8 @@ from binascii import hexlify
 from bitcoin.core.serialize import (
         Serializable,
         VarStringSerializer,
+        VectorSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,14 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = VectorSerializer.stream_deserialize(VarStringSerializer, f)
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +145,14 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VectorSerializer.stream_serialize(VarStringSerializer, self.setSubVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From f50dca23c9bfc1c5b9902f80a20fb7e789678cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 38/60] fix: CBase58Data accepted four byte data, with the
 version byte overlapping the checksum

---
 lib/python-bitcoinlib/bitcoin/base58.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..ed9f853 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -105,7 +105,8 @@ class CBase58Data(bytes):
         k = decode(s)
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
-        if check0 != check1:
+        # Without the length check the version byte could be part of the checksum
+        if len(k) < 5 or check0 != check1:
             raise Base58ChecksumError('Checksum mismatch: expected %r, calculated %r' % (check0, check1))
 
         return cls.from_bytes(data, _bord(verbyte[0]))
-- 
2.43.0


From abf3599b6a9b2f57e2d07b2d9e766a1c198e8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 39/60] fix: OpenSSL pointers used to set secret keys were
 truncated to 32 bits

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..c74ec79 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -36,6 +36,12 @@ def _check_result (val, func, args):
 _ssl.EC_KEY_new_by_curve_name.restype = ctypes.c_void_p
 _ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
 
+# Without a restype pointers are truncated to 32-bit ints
+for _func in (_ssl.BN_new, _ssl.BN_bin2bn, _ssl.BN_CTX_new, _ssl.EC_POINT_new,
+              _ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key):
+    _func.restype = ctypes.c_void_p
+    _func.errcheck = _check_result
+
 class CECKey:
     """Wrapper around OpenSSL's EC_KEY"""
 
-- 
2.43.0


From 3f26bf91ce11d26017e6affec59119adc552e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 40/60] fix: set_secretbytes() read out-of-bounds memory if the
 secret was too short

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index c74ec79..79174cf 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -57,6 +57,8 @@ class CECKey:
         self.k = None
 
     def set_secretbytes(self, secret):
+        if len(secret) != 32:
+            raise ValueError('Secret must be exactly 32 bytes long; got %d bytes' % len(secret))
         priv_key = _ssl.BN_bin2bn(secret, 32, _ssl.BN_new())
         group = _ssl.EC_KEY_get0_group(self.k)
         pub_key = _ssl.EC_POINT_new(group)
-- 
2.43.0


From a1fa73396caa0e8448f4b6a0a15a1676b71913ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 41/60] fix: RPC proxies with SSL enabled raised TypeError on
 Python 3.12

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From 74ac3737cdf913d1a78cd1f9b29d88d49108fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 42/60] fix: Bits ordering wasn't lexicographic if lengths in
 bytes differed

---
 lib/python-proofmarshal/proofmarshal/bits.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 25dcf92..e9594e6 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -129,18 +129,11 @@ class Bits:
         if self.__class__ is not rhs.__class__:
             return NotImplemented
 
-        self_fwp = self.__full_width_prefix()
-        rhs_fwp = rhs.__full_width_prefix()
-        if self_fwp < rhs_fwp:
-            return True
-
-        elif self_fwp == rhs_fwp:
-            # A prefix sorts before everything it's a prefix of
-            return (self.__tail_bits(), self.__length) < (rhs.__tail_bits(), rhs.__length)
-
-        else:
-            return False
-
+        # Compare the bits padded with zeros to whole bytes. If those are the
+        # same one is a prefix of the other, and sorts first.
+        self_padded = self.__full_width_prefix() + bytes([self.__tail_bits()])
+        rhs_padded = rhs.__full_width_prefix() + bytes([rhs.__tail_bits()])
+        return (self_padded, self.__length) < (rhs_padded, rhs.__length)
 
     def __getitem__(self, idx):
         if isinstance(idx, int):
-- 
2.43.0


From f068c9e750042b036ef95f0f129e7a848c58ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 43/60] fix: mainnet parameters lacked the genesis block,
 proof-of-work limit and name

MainParams inherited from CoreChainParams rather than CoreMainParams, so once
SelectParams('mainnet') installed it as the core parameters every proof-of-work
check failed with a TypeError.
---
 lib/python-bitcoinlib/bitcoin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/__init__.py b/lib/python-bitcoinlib/bitcoin/__init__.py
index de56cd5..4fade2f 100644
--- a/lib/python-bitcoinlib/bitcoin/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/__init__.py
@@ -13,7 +13,7 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 import bitcoin.core
 
-class MainParams(bitcoin.core.CoreChainParams):
+class MainParams(bitcoin.core.CoreMainParams):
     MESSAGE_START = b'\xf9\xbe\xb4\xd9'
     DEFAULT_PORT = 8333
     RPC_PORT = 8332
-- 
2.43.0


From 0d70f7ef61ff8e214d652deb5c3080ec82a2394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 44/60] fix: OP_CHECKSIG accepted signatures for the point at
 infinity

OpenSSL decodes a single zero byte as the point at infinity, and signatures for
it can be made by anyone. Bitcoin Core rejects such public keys.
---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 7a7c375..c30641a 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -109,6 +109,11 @@ def _CastToBool(s):
 
 
 def _CheckSig(sig, pubkey, script, txTo, inIdx, err_raiser):
+    # Same as CPubKey::IsValid() in Bitcoin Core. OpenSSL also decodes a single
+    # zero byte, as the point at infinity, for which anyone can make signatures.
+    if len(pubkey) not in (33, 65):
+        return False
+
     key = bitcoin.core.key.CECKey()
     key.set_pubkey(pubkey)
 
-- 
2.43.0


From 0c9a144262b9d1be9dccf44fa353f79231c19570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 45/60] fix: RPC passwords with URL delimiters in bitcoin.conf
 couldn't be used

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9c89777..9575913 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -66,6 +66,7 @@ class RawProxy(object):
         Unlike Proxy no conversion is done from the raw JSON objects.
         """
 
+        authpair = None
         if service_url is None:
             # Figure out the path to the bitcoin.conf file
             if btc_conf_file is None:
@@ -100,11 +101,13 @@ class RawProxy(object):
                 else:
                     raise ValueError('Unknown rpcssl value %r' % conf['rpcssl'])
 
-                service_url = ('%s://%s:%s@localhost:%d' %
+                service_url = ('%s://localhost:%d' %
                     ('https' if conf['rpcssl'] else 'http',
-                     conf['rpcuser'], conf['rpcpassword'],
                      conf['rpcport']))
 
+                # Not part of the URL, as they may contain any character
+                authpair = "%s:%s" % (conf['rpcuser'], conf['rpcpassword'])
+
         self.__service_url = service_url
         self.__url = urlparse.urlparse(service_url)
         if self.__url.port is None:
@@ -112,7 +115,8 @@ class RawProxy(object):
         else:
             port = self.__url.port
         self.__id_count = 0
-        authpair = "%s:%s" % (self.__url.username, self.__url.password)
+        if authpair is None:
+            authpair = "%s:%s" % (self.__url.username, self.__url.password)
         authpair = authpair.encode('utf8')
         self.__auth_header = b"Basic " + base64.b64encode(authpair)
 
-- 
2.43.0


From cff86d7972a682fb2aacac1505143db8a5468a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 46/60] fix: Proxy.listunspent() raised KeyError on outputs
 without an address

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9575913..a29357f 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -394,7 +394,11 @@ class Proxy(RawProxy):
             del unspent['txid']
             del unspent['vout']
 
-            unspent['address'] = CBitcoinAddress(unspent['address'])
+            # Bitcoin Core leaves the address out if the script doesn't have one
+            if 'address' in unspent:
+                unspent['address'] = CBitcoinAddress(unspent['address'])
+            else:
+                unspent['address'] = None
             unspent['scriptPubKey'] = CScript(unhexlify(unspent['scriptPubKey']))
             unspent['amount'] = int(unspent['amount'] * COIN)
             r2.append(unspent)
-- 
2.43.0


From 3fbe40316550ca18abca06689d2b4973c730be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 47/60] fix: Proxy.getinfo() raised KeyError if Bitcoin Core
 was built without wallet

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index a29357f..0daf525 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -261,7 +261,8 @@ class Proxy(RawProxy):
         r = self._call('getinfo')
         if 'balance' in r:
             r['balance'] = int(r['balance'] * COIN)
-        r['paytxfee'] = int(r['paytxfee'] * COIN)
+        if 'paytxfee' in r:
+            r['paytxfee'] = int(r['paytxfee'] * COIN)
         return r
 
     def getnewaddress(self, account=None):
-- 
2.43.0


From 48c7c827a3af6d247d23b67ca7679d67e29f1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 48/60] fix: printing a version message with an out-of-range
 time or missing fields

---
 lib/python-bitcoinlib/bitcoin/messages.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 21db943..217654e 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -161,7 +161,13 @@ class msg_version(MsgSerializable):
                 f.write(struct.pack(b"<i", self.nStartingHeight))
 
     def __repr__(self):
-        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=0x%016X strSubVer=%s nStartingHeight=%i)" % (self.nVersion, self.nServices, time.ctime(self.nTime), repr(self.addrTo), repr(self.addrFrom), self.nNonce, self.strSubVer, self.nStartingHeight)
+        # Any 64-bit time can be received, and old versions lack some fields
+        try:
+            nTime = time.ctime(self.nTime)
+        except (ValueError, OverflowError, OSError):
+            nTime = self.nTime
+        nNonce = self.nNonce if self.nNonce is None else '0x%016X' % self.nNonce
+        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=%s strSubVer=%s nStartingHeight=%s)" % (self.nVersion, self.nServices, nTime, repr(self.addrTo), repr(self.addrFrom), nNonce, self.strSubVer, self.nStartingHeight)
 
 
 class msg_verack(MsgSerializable):
-- 
2.43.0


From 8e74bd781d9bcbb6934cdcc536fa7b1e182f99c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 49/60] fix: printing an inventory vector of a type without a
 name

---
 lib/python-bitcoinlib/bitcoin/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 8258c87..7033941 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -82,7 +82,7 @@ class CInv(Serializable):
         f.write(self.hash)
 
     def __repr__(self):
-        return "CInv(type=%s hash=%s)" % (self.typemap[self.type], hexlify(self.hash))
+        return "CInv(type=%s hash=%s)" % (self.typemap.get(self.type, self.type), hexlify(self.hash))
 
 
 class CBlockLocator(Serializable):
-- 
2.43.0


From e17e5a8fa2e0873c1d60716691fedabc0e86ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 50/60] fix: the default inventory vector's hash is bytes, so
 that it can be printed and serialized

---
 lib/python-bitcoinlib/bitcoin/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 7033941..373e36d 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -68,7 +68,7 @@ class CInv(Serializable):
 
     def __init__(self):
         self.type = 0
-        self.hash = 0
+        self.hash = b'\x00' * 32
 
     @classmethod
     def stream_deserialize(cls, f):
-- 
2.43.0


From 004ae9502fbb58807ff523de6e6dc2aca0e717c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 51/60] fix: verification of proofs and seal witnesses didn't
 check anything under python -O

---
 proofchains/core/bitcoin.py                  |  7 +++++--
 proofchains/core/uniquebits/singleuseseal.py | 19 +++++++++++++------
 sus-tool.py                                  |  7 +++++--
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 25fa51d..d5aa2e8 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -109,7 +109,9 @@ class TxInProof(proofmarshal.proof.Proof):
     HASHTAG = HashTag('65d34d83-3291-4813-9119-bd7e29b9dea3')
 
     def verify(self):
-        assert 0 <= self.i < len(self.txproof.tx.vin)
+        # Not an assert statement, as those aren't executed under python -O
+        if not 0 <= self.i < len(self.txproof.tx.vin):
+            raise AssertionError('txin index out of range')
 
     @property
     def txin(self):
@@ -123,7 +125,8 @@ class TxOutProof(proofmarshal.proof.Proof):
     HASHTAG = HashTag('ed624663-7a20-4dd6-8980-9870003dfbe7')
 
     def verify(self):
-        assert 0 <= self.i < len(self.txproof.tx.vout)
+        if not 0 <= self.i < len(self.txproof.tx.vout):
+            raise AssertionError('txout index out of range')
 
     @property
     def txout(self):
diff --git a/proofchains/core/uniquebits/singleuseseal.py b/proofchains/core/uniquebits/singleuseseal.py
index 299fd51..572ee2f 100644
--- a/proofchains/core/uniquebits/singleuseseal.py
+++ b/proofchains/core/uniquebits/singleuseseal.py
@@ -59,7 +59,9 @@ class FakeSealWitness(SealWitness):
         return cls(seal=FakeSingleUseSeal(committed_hash=hash))
 
     def verify_hash(self, hash):
-        assert self.seal.committed_hash == hash
+        # Not an assert statement, as those aren't executed under python -O
+        if not self.seal.committed_hash == hash:
+            raise AssertionError('hash is not the one committed to by the seal')
 
 ### Bitcoin implementation
 
@@ -89,15 +91,20 @@ class BitcoinSealWitness(SingleUseSeal):
     HASHTAG = HashTag('2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd')
 
     def verify(self):
-        assert self.seal.outpoint == self.txinproof.txin.prevout
-        assert self.txinproof.txproof == self.txoutproof.txproof
+        # Not assert statements, as those aren't executed under python -O
+        if not self.seal.outpoint == self.txinproof.txin.prevout:
+            raise AssertionError('txin does not spend the outpoint of the seal')
+        if not self.txinproof.txproof == self.txoutproof.txproof:
+            raise AssertionError('txin and txout are not from the same transaction')
 
     def verify_hash(self, hash):
-        assert len(hash) == 32
+        if not len(hash) == 32:
+            raise AssertionError('hash is not 32 bytes long')
         # Avoid the consensus issues of parsing the scriptPubKey by generating
         # one ourselves, and then doing a byte-for-byte comparison.
         # Additionally we support P2SH and P2PKH for censorship resistance.
         actual_scriptPubKey = self.txoutproof.txout.scriptPubKey
-        assert (actual_scriptPubKey == CScript([OP_RETURN, hash]) or
+        if not (actual_scriptPubKey == CScript([OP_RETURN, hash]) or
                 actual_scriptPubKey == CScript([OP_HASH160, Hash160(hash), OP_EQUAL]) or
-                actual_scriptPubKey == CScript([OP_DUP, OP_HASH160, Hash160(hash), OP_EQUALVERIFY, OP_CHECKSIG]))
+                actual_scriptPubKey == CScript([OP_DUP, OP_HASH160, Hash160(hash), OP_EQUALVERIFY, OP_CHECKSIG])):
+            raise AssertionError('scriptPubKey does not commit to the hash')
diff --git a/sus-tool.py b/sus-tool.py
index 81c1673..3d61f9c 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -215,10 +215,13 @@ def cmd_verifywitness(args):
         witness.verify_hash(args.digest)
 
     if args.seal_file is not None:
-        assert witness.seal == BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        # Not an assert statement, as those aren't executed under python -O
+        if not witness.seal == BitcoinSingleUseSeal.deserialize(args.seal_file.read()):
+            raise AssertionError('witness is not for this seal')
 
     if args.seal_id is not None:
-        assert witness.seal.hash == args.seal_id
+        if not witness.seal.hash == args.seal_id:
+            raise AssertionError('witness is not for the seal with this id')
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From b045d6fe8991817e70ac3d0f5fede1d08ae93fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 52/60] fix: default key2prefix() of MerbinnerTree and GuMap
 returned bytes, so trees of two proof keys couldn't be made

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 2 +-
 proofchains/core/uniquebits/gumap.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index 8eda4ee..5cc7be5 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -96,7 +96,7 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
 
     @staticmethod
     def key2prefix(key):
-        return key.hash
+        return Bits.from_bytes(key.hash)
 
     def __new__(cls, iterable=()):
         """Create a new merbinner tree"""
diff --git a/proofchains/core/uniquebits/gumap.py b/proofchains/core/uniquebits/gumap.py
index 8195f62..5793ed7 100644
--- a/proofchains/core/uniquebits/gumap.py
+++ b/proofchains/core/uniquebits/gumap.py
@@ -26,7 +26,7 @@ class GuMap(VarProof):
 
     @staticmethod
     def key2prefix(key):
-        return key.hash
+        return proofmarshal.bits.Bits.from_bytes(key.hash)
 
     SEAL_CLASS = None
     WITNESS_CLASS = None
-- 
2.43.0


From 0e4a905bc8c57195279d62774764f7777d6c994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 53/60] fix: hashes of deep trees and long chains of proofs
 exceeded the recursion limit

---
 lib/python-proofmarshal/proofmarshal/proof.py | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index ab6ff99..8b45fc3 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -151,12 +151,40 @@ class Proof(HashingSerializer):
             object.__setattr__(self, 'is_fully_pruned', False)
             return value
 
+    def __unhashed_dependencies(self):
+        """Return the proofs below this one whose hashes aren't known yet, deepest first"""
+        found = []
+        todo = [self]
+        seen = set()
+        while todo:
+            proof = todo.pop()
+            for attr_name, ser_cls in proof.SERIALIZED_ATTRS:
+                try:
+                    value = object.__getattribute__(proof, attr_name)
+                except AttributeError:
+                    continue
+                while isinstance(value, Proof) and value.__orig_instance is not None:
+                    value = value.__orig_instance
+                if isinstance(value, Proof) and id(value) not in seen:
+                    try:
+                        object.__getattribute__(value, 'hash')
+                    except AttributeError:
+                        seen.add(id(value))
+                        found.append(value)
+                        todo.append(value)
+        return reversed(found)
+
     def calc_data_hash(self):
         if self.__orig_instance is not None:
             # Avoid unpruning unnecessarily
             return self.__orig_instance.data_hash
 
         else:
+            # Without this the hashes of deep trees and long chains of proofs
+            # would exceed the recursion limit.
+            for proof in self.__unhashed_dependencies():
+                proof.hash
+
             # FIXME: catch pruning errors; should never happen
             hasher = hashlib.sha256()
 
-- 
2.43.0


From b85027900b616c5376c833f7d805062cf14eabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 54/60] fix: deserializing deeply nested encodings raised
 RecursionError rather than DeserializationError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f876edc..2823e15 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -286,7 +286,10 @@ class Serializer:
     def deserialize(cls, serialized_value):
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
-        r = cls.ctx_deserialize(ctx)
+        try:
+            r = cls.ctx_deserialize(ctx)
+        except RecursionError:
+            raise DeserializationError('Nested too deeply')
         ctx.check_eof()
         return r
 
-- 
2.43.0


From 6f7de1c6157abf247ca25e3d1049d237b04626cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 55/60] fix: reading hostile lengths from files raised
 MemoryError, or allocated that much memory

---
 .../proofmarshal/serialize.py                    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 2823e15..be1e292 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -181,13 +181,15 @@ class StreamDeserializationContext(DeserializationContext):
         self.fd = fd
 
     def fd_read(self, l):
-        try:
-            r = self.fd.read(l)
-        except OverflowError:
-            raise TruncationError('Tried to read %d bytes' % l)
-        if len(r) != l:
-            raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
-                                  (l, len(r)))
+        # In pieces, as l can be any number, and files allocate memory for all
+        # of what they're asked for before reading it.
+        r = b''
+        while len(r) < l:
+            piece = self.fd.read(min(l - len(r), max(len(r), 0x10000)))
+            if not piece:
+                raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
+                                      (l, len(r)))
+            r += piece
         return r
 
     def read_bool(self):
-- 
2.43.0


From a5257068f5b68cf1f122b27c547533a671b02901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 56/60] fix: reading deeply nested encodings from a stream
 raised RecursionError rather than DeserializationError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index be1e292..d919ed4 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -225,7 +225,10 @@ class StreamDeserializationContext(DeserializationContext):
         return self.fd_read(expected_length)
 
     def read_obj(self, serialization_class):
-        return serialization_class.ctx_deserialize(self)
+        try:
+            return serialization_class.ctx_deserialize(self)
+        except RecursionError:
+            raise DeserializationError('Nested too deeply')
 
 class BytesSerializationContext(StreamSerializationContext):
     def __init__(self):
-- 
2.43.0


From 4a1be098b7c8d4d888054b770a9127251a28e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 57/60] fix: huge integers raised ValueError when formatting
 the error message, rather than DeserializationError

---
 lib/python-proofmarshal/proofmarshal/proof.py     | 4 ++--
 lib/python-proofmarshal/proofmarshal/serialize.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 8b45fc3..7db01fc 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -330,7 +330,7 @@ class VarProof(Proof):
             return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
-            raise DeserializationError('bad union class number %d' % i)
+            raise DeserializationError('bad union class number %#x' % i)
 
     @classmethod
     def _ctx_deserialize(cls, ctx):
@@ -390,6 +390,6 @@ class ProofUnion(HashingSerializer):
             union_cls = cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
-            raise DeserializationError('bad union class number %d' % i)
+            raise DeserializationError('bad union class number %#x' % i)
 
         return union_cls.ctx_deserialize(ctx)
diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index d919ed4..508e6a6 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -187,7 +187,7 @@ class StreamDeserializationContext(DeserializationContext):
         while len(r) < l:
             piece = self.fd.read(min(l - len(r), max(len(r), 0x10000)))
             if not piece:
-                raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
+                raise TruncationError('Tried to read %#x bytes but got only %#x bytes' % \
                                       (l, len(r)))
             r += piece
         return r
@@ -393,7 +393,7 @@ class VarBytes(Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):
-            raise DeserializationError('Serialized length out of range; %d not in range (%d,%d)' % \
+            raise DeserializationError('Serialized length out of range; %#x not in range (%#x,%#x)' % \
                                            (l, cls.MIN_LENGTH, cls.MAX_LENGTH))
         return ctx.read_bytes(l)
 
@@ -408,7 +408,7 @@ class UInt(Serializer):
             raise SerializerTypeError('Expected an int; got %r' % value.__class__)
 
         if not (0 <= value <= cls.MAX_INT):
-            raise SerializerValueError('Integer out of range; 0 <= %d <= %d' % (value, cls.MAX_INT))
+            raise SerializerValueError('Integer out of range; 0 <= %#x <= %#x' % (value, cls.MAX_INT))
 
     @classmethod
     def ctx_serialize(cls, self, ctx):
@@ -418,7 +418,7 @@ class UInt(Serializer):
     def ctx_deserialize(cls, ctx):
         r = ctx.read_varuint()
         if not (0 <= r <= cls.MAX_INT):
-            raise DeserializationError('Deserialized integer out of range; 0 <= %d <= %d' % (r, cls.MAX_INT))
+            raise DeserializationError('Deserialized integer out of range; 0 <= %#x <= %#x' % (r, cls.MAX_INT))
         return r
 
 class UInt8(UInt):
-- 
2.43.0


From 0fb08b16adafa4b2f39e96ad46e9c9bc574a705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:36 +0000
Subject: [PATCH 58/60] fix: str_money_value() of negative amounts

str_money_value(-1) was '-1.99999999' rather than '-0.00000001'.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 1a155a4..4066113 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -93,6 +93,9 @@ del _py2_b2lx
 
 def str_money_value(value):
     """Convert an integer money value to a fixed point string"""
+    if value < 0:
+        # Floor division would round away from zero
+        return '-' + str_money_value(-value)
     r = '%i.%08i' % (value // COIN, value % COIN)
     r = r.rstrip('0')
     if r[-1] == '.':
-- 
2.43.0


From edc77bb6982285a03d9de9ea145fcba2c078aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:21 +0000
Subject: [PATCH 59/60] fix: OP_PICK and OP_ROLL errors reported a stack
 without the argument

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index c30641a..8ce9e57 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -579,9 +579,10 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif sop == OP_PICK or sop == OP_ROLL:
                 check_args(2)
-                n = _CastToBigNum(stack.pop(), err_raiser)
-                if n < 0 or n >= len(stack):
+                n = _CastToBigNum(stack[-1], err_raiser)
+                if n < 0 or n >= len(stack) - 1:
                     err_raiser(EvalScriptError, "Argument for %s out of bounds" % OPCODE_NAMES[sop])
+                stack.pop()
                 vch = stack[-n-1]
                 if sop == OP_ROLL:
                     del stack[-n-1]
-- 
2.43.0


From f30efb2dd6a1c61f4077d5740d3ef478682fd48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:21 +0000
Subject: [PATCH 60/60] fix: build_merkle_tree_from_txids() failed with
 iterables without length

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 4066113..a888449 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -462,7 +462,7 @@ class CBlock(CBlockHeader):
         """
         merkle_tree = list(txids)
 
-        size = len(txids)
+        size = len(merkle_tree)
         j = 0
         while size > 1:
             for i in range(0, size, 2):
-- 
2.43.0

