From 78cd233b4c56cefc5d26c1ed2ec4b07f86251345 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 01/18] fix: store a header before counting it

A process killed between the two left a headers file that could never be opened again.
---
 bitcoinx/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..0fc6893 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -238,9 +238,11 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        # Write the header before counting it, so that a process killed in between does not
+        # leave behind a file claiming a header it does not have
+        self.mmap[start: start + 80] = raw_header
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From c6281d24d49ecded2863f35497f879a2f321cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 02/18] fix: re-create an empty headers file

One is left behind if the process is killed while creating the file.
---
 bitcoinx/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 0fc6893..2e95a09 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -202,7 +202,10 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
-        self.mmap = map_file(self.filename)
+        try:
+            self.mmap = map_file(self.filename)
+        except ValueError:    # An empty file cannot be mapped
+            raise _BadHeadersFile(f'invalid headers file {self.filename}') from None
         try:
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
-- 
2.43.0


From 721865d387b4b3f9382378431a7d935f22117a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 03/18] fix: a coinbase transaction has exactly one input

A transaction with further inputs was called a coinbase, and one with none raised IndexError.
---
 bitcoinx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/tx.py b/bitcoinx/tx.py
index 98cccc7..a277e41 100644
--- a/bitcoinx/tx.py
+++ b/bitcoinx/tx.py
@@ -57,7 +57,7 @@ class Tx:
 
     def is_coinbase(self):
         '''Return True iff the tx is a coinbase transaction.'''
-        return self.inputs[0].is_coinbase()
+        return len(self.inputs) == 1 and self.inputs[0].is_coinbase()
 
     @classmethod
     def read(cls, read):
-- 
2.43.0


From bfb997fd24536b82f90bc206d851ea73f04be02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 04/18] fix: reject compact signatures that cannot be parsed

An overflowing r or s was silently converted to the DER encoding of a zero signature.
---
 bitcoinx/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..a27477c 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -99,7 +99,8 @@ def compact_signature_to_der(compact_sig):
     if not (isinstance(compact_sig, bytes) and len(compact_sig) == 64):
         raise InvalidSignatureError('compact signature must be 64 bytes')
     cdata_sig = ffi.new('secp256k1_ecdsa_signature *')
-    lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig)
+    if not lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig):
+        raise InvalidSignatureError('invalid compact signature')
     return _cdata_signature_to_der(cdata_sig)
 
 
-- 
2.43.0


From f121f5a24f09ff5b856729f9593f8602a9c28306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 05/18] fix: treat non-ASCII text as invalid base64

Encrypted messages and message signatures given as such text raised a plain ValueError.
---
 bitcoinx/keys.py      | 3 +--
 bitcoinx/signature.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..2a38539 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -297,7 +296,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:    # Includes non-ASCII text
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index a27477c..d6f093e 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -152,7 +151,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:    # Includes non-ASCII text
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From 635f39bd5b571ed317e67e19ce446f9e303c983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 06/18] fix: reject a BIP32 chain string with a newline in it

m/1'\n lost its hardening.
---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..caacde6 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile("([0-9]+)'?\\Z")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
-- 
2.43.0


From b038869412e719d4dbb24e657bd17b8877a8de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 07/18] fix: read wordlists as UTF-8 in every locale

---
 bitcoinx/mnemonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 8abdf9d..f4d2836 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -74,7 +74,7 @@ class Wordlists:
 
     @classmethod
     def _read_wordlist(cls, filename, expected_count):
-        with open(data_file_path(filename)) as f:
+        with open(data_file_path(filename), encoding='utf-8') as f:
             text = f.read()
         return cls._text_to_wordlist(text, expected_count)
 
-- 
2.43.0


From 259906fd841ac8f9060e8ce9686e1f069abb8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 08/18] fix: detect truncated scripts when assertions are
 disabled

---
 bitcoinx/script.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index e6cd276..be70395 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -386,7 +386,8 @@ class Script:
                         n += 4
                     data = script[n: n + dlen]
                     n += dlen
-                    assert len(data) == dlen
+                    if len(data) != dlen:
+                        raise TruncatedScriptError
                     yield data
                 except Exception:
                     raise TruncatedScriptError from None
-- 
2.43.0


From b9075d8542ab8d0d6dc5a3c72b5fea871a27543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 09/18] fix: reject malformed cash addresses with ValueError

One with nothing before its checksum raised IndexError, and a KELVIN SIGN was taken for a k.
---
 bitcoinx/cashaddr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..96ac2f6 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -110,6 +110,8 @@ def _decode_payload(addr):
 
     without the checksum.
     """
+    if not addr.isascii():
+        raise ValueError('non-ASCII character in address: {}'.format(addr))
     lower = addr.lower()
     if lower != addr and addr.upper() != addr:
         raise ValueError('mixed case in address: {}'.format(addr))
@@ -161,6 +163,9 @@ def decode(address):
 
     prefix, payload = _decode_payload(address)
 
+    if not payload:
+        raise ValueError('address {} has no payload'.format(address))
+
     # Ensure there isn't extra padding
     extrabits = len(payload) * 5 % 8
     if extrabits >= 5:
-- 
2.43.0


From 7092073996980a80aab875c16eeded3f1f83a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 10/18] fix: do not mistake hexadecimal data for a decimal in
 ASM

Data of zeroes, as to_asm() shows it, was read as the number zero or raised a plain ValueError
if long, as did digits other than 0-9.
---
 bitcoinx/script.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index be70395..427f155 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -45,6 +45,9 @@ from .packing import (
 from .signature import Signature, InvalidSignatureError
 
 
+DECIMAL_REGEX = re.compile('-?([0-9]{1,9}|[1-9][0-9]{9})')
+
+
 class ScriptError(Exception):
     pass
 
@@ -476,8 +479,9 @@ class Script:
             except KeyError:
                 raise ScriptError(f'unrecognized op code {word}') from None
             return pack_byte(opcode)
-        # Handle what looks like a decimal, provided it's in-range
-        if word.isdigit() or word[0] == '-' and word[1:].isdigit():
+        # Handle what looks like a decimal, provided it's in-range.  Data of 5 bytes or more
+        # has at least 10 hexadecimal digits and decimals have no leading zeroes.
+        if DECIMAL_REGEX.fullmatch(word):
             value = int(word)
             if abs(value) <= 2147483647:
                 return push_int(value)
-- 
2.43.0


From d6e4e7f5c0b480b8b8dee32c66a611776ef782a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 11/18] fix: give P2SH outputs a kind

The JSON of a transaction with one could not be produced.
---
 bitcoinx/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/address.py b/bitcoinx/address.py
index 15f7d31..ad64703 100644
--- a/bitcoinx/address.py
+++ b/bitcoinx/address.py
@@ -127,6 +127,8 @@ class P2PKH_Address(Address):
 
 class P2SH_Address(Address):
 
+    KIND = 'scripthash'
+
     def __init__(self, hash160, coin):
         super().__init__(coin)
         self._hash160 = _validate_hash160(hash160)
-- 
2.43.0


From d8d50766eb7934d73c663879720f68f1819b9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 12/18] fix: keep the headers file mapped if it cannot be grown

A failure, such as a full disk, left the collection unusable even for reading.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2e95a09..afee0cb 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -239,8 +239,8 @@ class _HeaderStorage(object):
         mmap = self.mmap
         start = self._offset(index)
         if start >= len(mmap):
+            self.mmap = map_file(self.filename, self._offset(index + 5_000))
             mmap.close()
-            mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
         # Write the header before counting it, so that a process killed in between does not
         # leave behind a file claiming a header it does not have
         self.mmap[start: start + 80] = raw_header
-- 
2.43.0


From 2f41e9b587b2eeea614d045dcf6b8e61f60a30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 13/18] fix: allow more than 65,536 chains of headers

The header that began one more was stored but could not be used, nor the file opened again.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index afee0cb..faf3e2a 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -317,7 +317,7 @@ class Headers(object):
         self._chains = []
         self._short_hashes = bytearray()
         self._heights = array.array('I')
-        self._chain_indices = array.array('H')
+        self._chain_indices = array.array('I')
         self._cache = {}
 
         # Create the base chain out to the checkpoint
-- 
2.43.0


From ce393fde0ae663f95fb7272dc36b526e6152a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 14/18] fix: check the word count of a wordlist already read as
 another kind

---
 bitcoinx/mnemonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index f4d2836..7b4df7a 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -80,9 +80,10 @@ class Wordlists:
 
     @classmethod
     def _cached_wordlist(cls, filename, expected_count):
-        result = cls.cache.get(filename)
+        key = (filename, expected_count)
+        result = cls.cache.get(key)
         if not result:
-            result = cls.cache[filename] = cls._read_wordlist(filename, expected_count)
+            result = cls.cache[key] = cls._read_wordlist(filename, expected_count)
         return result
 
     @classmethod
-- 
2.43.0


From 51ae372324e80c448de84df34c0129b767f7a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 15/18] fix: refuse old Electrum seeds that are not hexadecimal

---
 bitcoinx/mnemonic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 7b4df7a..8cfc9d5 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -292,10 +292,13 @@ class ElectrumMnemonic:
     def hex_seed_to_old(cls, hex_seed):
         if len(hex_seed) not in {32, 64}:
             raise ValueError('hex seed has invalid length')
+        raw_seed = bytes.fromhex(hex_seed)
+        if len(raw_seed) * 2 != len(hex_seed):
+            raise ValueError('hex seed is not hexadecimal')
 
-        def indices(hex_seed, n):
-            for chunk in chunks(hex_seed, 8):
-                value = int(chunk, 16)
+        def indices(raw_seed, n):
+            for chunk in chunks(raw_seed, 4):
+                value = be_bytes_to_int(chunk)
                 value, i1 = divmod(value, n)
                 i3, i2 = divmod(value, n)
                 i2 = (i2 + i1) % n
@@ -305,7 +308,7 @@ class ElectrumMnemonic:
                 yield i3
 
         wordlist = Wordlists.original_electrum_wordlist()
-        return ' '.join(wordlist[index] for index in indices(hex_seed, len(wordlist)))
+        return ' '.join(wordlist[index] for index in indices(raw_seed, len(wordlist)))
 
     @classmethod
     def _from_entropy(cls, entropy, wordlist):
-- 
2.43.0


From d8465e2c228f6bb95074c6b5332a1be8cf2f9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 16/18] fix: a signed message does not verify for a P2SH
 address of the same hash

verify_message_and_address ignores the network of an address given as text,
but took the hash of a script for that of a public key.
---
 bitcoinx/keys.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 2a38539..fc35512 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -36,7 +36,7 @@ from electrumsv_secp256k1 import ffi, lib
 from .address import P2PKH_Address, P2PK_Output
 from .aes import aes_encrypt_with_iv, aes_decrypt_with_iv
 from .base58 import base58_encode_check, base58_decode_check, is_minikey
-from .coin import Bitcoin, Coin
+from .coin import Bitcoin, Coin, all_coins
 from .hashes import sha256, sha512, double_sha256, hash160 as calc_hash160, hmac_digest, _sha256
 from .misc import be_bytes_to_int, int_to_be_bytes, CONTEXT
 from .packing import pack_byte, pack_varbytes
@@ -503,7 +503,11 @@ class PublicKey:
         if isinstance(address, P2PKH_Address):
             hash160 = address.hash160()
         elif isinstance(address, str):
-            hash160 = base58_decode_check(address)[1:]
+            raw = base58_decode_check(address)
+            # The hash of a P2SH address is that of a script and not of a public key
+            if any(raw.startswith(pack_byte(coin.P2SH_verbyte)) for coin in all_coins):
+                return False
+            hash160 = raw[1:]
         else:
             raise TypeError('address must be a string or address object')
         return (public_key.verify_message(message_sig, message, hasher) and
-- 
2.43.0


From 83e8c37de6982765f64510c4370608e3f5d39204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 17/18] fix: show the bits of a header in hexadecimal

The text of a header gave them in decimal after 0x.
---
 bitcoinx/coin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/coin.py b/bitcoinx/coin.py
index 6cc57a4..5bf2631 100644
--- a/bitcoinx/coin.py
+++ b/bitcoinx/coin.py
@@ -70,7 +70,7 @@ class Header(object):
     def __str__(self):
         return (f'Header(version=0x{self.version:x}, prev_hash={hash_to_hex_str(self.prev_hash)}, '
                 f'merkle_root={hash_to_hex_str(self.merkle_root)}, timestamp={self.timestamp}, '
-                f'bits=0x{self.bits}, nonce={self.nonce}, hash={self.hex_str()}, '
+                f'bits=0x{self.bits:x}, nonce={self.nonce}, hash={self.hex_str()}, '
                 f'height={self.height})')
 
 
-- 
2.43.0


From 479ba99fc399d4110f0dd10d4c0a83c3a34574fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 18/18] fix: stray letters in the text of InsufficientPoW

The hash value was shown with an f before it.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index faf3e2a..03934e0 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -73,7 +73,7 @@ class InsufficientPoW(ChainException):
         self.header = header
 
     def __str__(self):
-        return (f'header f{self.header} hash value f{self.header.hash_value()} exceeds '
+        return (f'header {self.header} hash value {self.header.hash_value()} exceeds '
                 f'its target {self.header.target()}')
 
 
-- 
2.43.0

