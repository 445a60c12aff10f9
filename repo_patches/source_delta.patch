From 436815193ff64b95f0795ab84051a4435b1bf899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 01/26] fix: advance the output pointer after a short read of
 /dev/urandom

---
 src/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random.c b/src/random.c
index f763266..3be86af 100644
--- a/src/random.c
+++ b/src/random.c
@@ -61,6 +61,7 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
     if (r <= 0) {
       FINGERA_FATAL("read /dev/urandom %d", r);
     }
+    buf = (char *)buf + r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From d39fb70f5981d98528758683b586203ae94b8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/26] fix: bound base58 decoding by str_len instead of the
 terminating NUL

---
 src/base58.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index f056964..07526a0 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,21 +73,21 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && isspace((uint8_t)*str)) {
     str++;
   }
-  int zeroes = 0;
+  size_t zeroes = 0;
   int length = 0;
-  while (*str == '1') {
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && !isspace((uint8_t)*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -96,7 +96,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       return 0;
     }
     int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
+    for (ptrdiff_t it = (ptrdiff_t)size - 1;
+         (carry != 0 || i < length) && (it >= 0);
          --it, ++i) {
       carry += 58 * b256[it];
       b256[it] = carry % 256;
@@ -107,8 +108,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace((uint8_t)*str)) str++;
+  if (str != str_end) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From acb876b65cb8f29db3afa2089a98c87003cec879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 03/26] fix: announce enough room for base58 strings of leading
 '1's

A run of '1' decodes one byte per character, more than str_len * 733 / 1000 + 2.
The address decoder now decodes into scratch memory and checks the capacity
against the payload itself.
---
 include/fingera_libc/base58.h |  2 +-
 src/btc/address.c             | 34 ++++++++++++++++++++++------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..117d77d 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -33,7 +33,7 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  return str_len;  // 每个前导'1'解码为一个字节，其余字符不足一个字节
 }
 
 /**
diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..ece967d 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -142,24 +142,34 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
 fingera_btc_address fingera_btc_address_decode(const char *str, size_t str_len,
                                                void *out, size_t *out_size,
                                                const chain_parameters *param) {
-  if (*out_size < fingera_from_base58_check_length(str_len)) {
-    return BTC_BAD_ADDRESS;
-  }
-  size_t size = fingera_from_base58_check(str, str_len, out);
+  size_t max_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(char, buffer, max_size);
+  size_t size = fingera_from_base58_check(str, str_len, buffer);
+  size_t prefix_size = 0;
+  fingera_btc_address type = BTC_BAD_ADDRESS;
   if (size) {
     if (size >= param->prefix_pubkey_address_size &&
-        memcmp(out, param->prefix_pubkey_address,
+        memcmp(buffer, param->prefix_pubkey_address,
                param->prefix_pubkey_address_size) == 0) {
-      *out_size = size - param->prefix_pubkey_address_size;
-      memmove(out, (char *)out + param->prefix_pubkey_address_size, *out_size);
-      return BTC_PUBKEY_ADDRESS;
+      prefix_size = param->prefix_pubkey_address_size;
+      type = BTC_PUBKEY_ADDRESS;
     } else if (size >= param->prefix_script_address_size &&
-               memcmp(out, param->prefix_script_address,
+               memcmp(buffer, param->prefix_script_address,
                       param->prefix_script_address_size) == 0) {
-      *out_size = size - param->prefix_script_address_size;
-      memmove(out, (char *)out + param->prefix_script_address_size, *out_size);
-      return BTC_SCRIPT_ADDRESS;
+      prefix_size = param->prefix_script_address_size;
+      type = BTC_SCRIPT_ADDRESS;
+    }
+  }
+  if (type != BTC_BAD_ADDRESS) {
+    if (*out_size < size - prefix_size) {
+      type = BTC_BAD_ADDRESS;  // 内存不足
+    } else {
+      *out_size = size - prefix_size;
+      memcpy(out, buffer + prefix_size, *out_size);
     }
+    FREE_BUFFER(buffer);
+    return type;
   }
+  FREE_BUFFER(buffer);
   return decode_bech32(str, str_len, out, out_size, param);
 }
\ No newline at end of file
-- 
2.43.0


From 547a2dc65f0a1fabcb40d7b8358a4f460dfe6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 04/26] fix: do not size the bech32 scratch buffer with a
 wrapped str_len - 7

---
 src/btc/address.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index ece967d..cb13262 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -95,6 +95,7 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
+  if (str_len <= 7) return BTC_BAD_ADDRESS;
   DECLARE_BUFFER(char, buffer, str_len - 7);
 
   char bech32_hrp[16];
-- 
2.43.0


From 622af9198b721c65b3d387d393dc84952fe3b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 05/26] fix: count the version byte when checking the room for
 a witness program

---
 src/btc/address.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/btc/address.c b/src/btc/address.c
index cb13262..c20fbee 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -109,8 +109,9 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
     return BTC_BAD_ADDRESS;
   }
 
-  if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1)) {
-    int version = buffer[0];
+  int version = buffer[0];
+  if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1) +
+                       (version == 0 ? 0 : 1)) {
     if (version == 0) {
       *out_size = fingera_from_base32_raw(buffer + 1, bech32_size - 1, out);
       if (*out_size == BTC_WITNESSV0_KEYID_SIZE) {
-- 
2.43.0


From e315d7102359fd82b835da0ab40a031a6b991da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 06/26] fix: reject segwit addresses with excess or non-zero
 padding bits

---
 src/btc/address.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index c20fbee..85a789a 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -109,6 +109,13 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
     return BTC_BAD_ADDRESS;
   }
 
+  // BIP173: 剩余的填充位必须小于5位并且全部为0
+  int padding = (bech32_size - 1) * 5 % 8;
+  if (padding >= 5 || (buffer[bech32_size - 1] & ((1 << padding) - 1)) != 0) {
+    FREE_BUFFER(buffer);
+    return BTC_BAD_ADDRESS;
+  }
+
   int version = buffer[0];
   if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1) +
                        (version == 0 ? 0 : 1)) {
-- 
2.43.0


From d0537f261b7362e93871ccf63684b7bc15e8233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 07/26] fix: index the base32 decode tables with unsigned bytes

---
 src/base32.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..cf6f0ab 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -210,14 +210,14 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
-    uint8_t byte1 = decode_string[str[i * 8 + 0]];
-    uint8_t byte2 = decode_string[str[i * 8 + 1]];
-    uint8_t byte3 = decode_string[str[i * 8 + 2]];
-    uint8_t byte4 = decode_string[str[i * 8 + 3]];
-    uint8_t byte5 = decode_string[str[i * 8 + 4]];
-    uint8_t byte6 = decode_string[str[i * 8 + 5]];
-    uint8_t byte7 = decode_string[str[i * 8 + 6]];
-    uint8_t byte8 = decode_string[str[i * 8 + 7]];
+    uint8_t byte1 = decode_string[(uint8_t)str[i * 8 + 0]];
+    uint8_t byte2 = decode_string[(uint8_t)str[i * 8 + 1]];
+    uint8_t byte3 = decode_string[(uint8_t)str[i * 8 + 2]];
+    uint8_t byte4 = decode_string[(uint8_t)str[i * 8 + 3]];
+    uint8_t byte5 = decode_string[(uint8_t)str[i * 8 + 4]];
+    uint8_t byte6 = decode_string[(uint8_t)str[i * 8 + 5]];
+    uint8_t byte7 = decode_string[(uint8_t)str[i * 8 + 6]];
+    uint8_t byte8 = decode_string[(uint8_t)str[i * 8 + 7]];
     if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
         byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
       return out - (uint8_t *)buf;
@@ -232,19 +232,19 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
-    uint8_t byte1 = decode_string[tail_str[0]];
-    uint8_t byte2 = decode_string[tail_str[1]];
+    uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
+    uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
-      uint8_t byte3 = decode_string[tail_str[2]];
-      uint8_t byte4 = decode_string[tail_str[3]];
+      uint8_t byte3 = decode_string[(uint8_t)tail_str[2]];
+      uint8_t byte4 = decode_string[(uint8_t)tail_str[3]];
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
-        uint8_t byte5 = decode_string[tail_str[4]];
+        uint8_t byte5 = decode_string[(uint8_t)tail_str[4]];
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
-          uint8_t byte6 = decode_string[tail_str[5]];
-          uint8_t byte7 = decode_string[tail_str[6]];
+          uint8_t byte6 = decode_string[(uint8_t)tail_str[5]];
+          uint8_t byte7 = decode_string[(uint8_t)tail_str[6]];
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From eeba7ac0986b2529062ddf9a26a1bfb31840bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 08/26] fix: look for base32 padding only inside the given text

---
 src/base32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base32.c b/src/base32.c
index cf6f0ab..b6e26b0 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -185,7 +185,7 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
 }
 
 static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+  const char *str_end = (const char *)memchr(str, '=', str_len);
   if (!str_end) return str_len;
   return str_end - str;
 }
-- 
2.43.0


From 9ec5a57fb60e6ebd9963ca0df90f9695aa842afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 09/26] fix: do not decode a final partial base32 group with
 illegal symbols

---
 src/base32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base32.c b/src/base32.c
index b6e26b0..7755def 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -232,6 +232,10 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
+    for (size_t i = 0; i < tail; i++) {
+      if (decode_string[(uint8_t)tail_str[i]] == 0xFF)
+        return out - (uint8_t *)buf;
+    }
     uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
     uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
-- 
2.43.0


From 619fc966af23c1d5890384740293fcb1d2b0478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 10/26] fix: look for the bech32 separator only inside the
 given text

---
 src/btc/bech32.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..32305fd 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,9 +112,10 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
-  if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
-      str_len <= 7) {
+  if (str_len > 90 || str_len <= 7) return -2;
+  const char *pos = str + str_len - 1;
+  while (pos != str && *pos != '1') pos--;
+  if (pos == str || pos + 7 > str + str_len) {
     return -2;
   }
   if (*hrp_size < (size_t)(pos - str)) return -3;
-- 
2.43.0


From 478f63606167e5e5af5669201c99a5ff05228df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 11/26] fix: import WIF strings of any length without
 overflowing, and erase the scratch

---
 src/btc/key.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..3713e66 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -373,12 +375,8 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
   return fingera_to_base58_check(key32, 32, param->prefix_secret_key,
                                  param->prefix_secret_key_size, key_str);
 }
-int fingera_btc_key_from_string(const char* key_str, size_t str_len,
-                                void* key32, int* is_compressed,
-                                const chain_parameters* param) {
-  uint8_t buf[32 + 8];
-  assert(param->prefix_secret_key_size <= 8);
-  size_t size = fingera_from_base58_check(key_str, str_len, buf);
+static int parse_secret_key(const uint8_t* buf, size_t size, void* key32,
+                            int* is_compressed, const chain_parameters* param) {
   if (size <= 32) return 0;
   size_t pre_size = size - 32;
   if (param->prefix_secret_key_size != pre_size) {
@@ -398,6 +396,19 @@ int fingera_btc_key_from_string(const char* key_str, size_t str_len,
   return 1;
 }
 
+int fingera_btc_key_from_string(const char* key_str, size_t str_len,
+                                void* key32, int* is_compressed,
+                                const chain_parameters* param) {
+  assert(param->prefix_secret_key_size <= 8);
+  size_t max_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, buf, max_size);
+  size_t size = fingera_from_base58_check(key_str, str_len, buf);
+  int r = parse_secret_key(buf, size, key32, is_compressed, param);
+  fingera_cleanse(buf, max_size);
+  FREE_BUFFER(buf);
+  return r;
+}
+
 int fingera_btc_key_derive(const void* key32, const void* chain32,
                            void* out_key32, void* out_chain32, uint32_t child) {
   uint8_t out[64];
-- 
2.43.0


From c1c7a04a6e25553c5beee484da332954cf55dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 12/26] fix: import xprv/xpub strings of any length without
 overflowing, and erase the scratch

---
 src/btc/exkey.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..7e7b283 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -101,18 +102,20 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
 int fingera_exkey_from_string(const char *str, size_t str_len,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
   assert(param->prefix_ext_secret_key_size <= 8);
+  size_t max_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, max_size);
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_secret_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
-  fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
-  return 1;
+  size_t prefix_size = param->prefix_ext_secret_key_size;
+  int r = 0;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0) {
+    fingera_exkey_decode(extkey + prefix_size, key);
+    r = 1;
+  }
+  fingera_cleanse(extkey, max_size);
+  FREE_BUFFER(extkey);
+  return r;
 }
 
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
@@ -139,15 +142,17 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
 int fingera_expubkey_from_string(const char *str, size_t str_len,
                                  fingera_ex_pubkey *pub,
                                  const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
   assert(param->prefix_ext_public_key_size <= 8);
+  size_t max_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, max_size);
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_public_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
-  fingera_expubkey_decode(extkey + prefix_size, pub);
-  return 1;
+  size_t prefix_size = param->prefix_ext_public_key_size;
+  int r = 0;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0) {
+    fingera_expubkey_decode(extkey + prefix_size, pub);
+    r = 1;
+  }
+  FREE_BUFFER(extkey);
+  return r;
 }
\ No newline at end of file
-- 
2.43.0


From 463a890af7ddd69f537e7deffd533c537f8259b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 13/26] fix: refuse to import invalid private and public keys
 from WIF/xprv/xpub strings

---
 src/btc/exkey.c | 11 +++++++++--
 src/btc/key.c   |  7 +++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e7b283..6f6508c 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -99,6 +99,9 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
   return size;
 }
 
+// 在 btc/key.c 中实现
+int _fingera_btc_key_is_valid(const void *key32);
+
 int fingera_exkey_from_string(const char *str, size_t str_len,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
@@ -109,7 +112,9 @@ int fingera_exkey_from_string(const char *str, size_t str_len,
   size_t prefix_size = param->prefix_ext_secret_key_size;
   int r = 0;
   if (size == prefix_size + BIP32_EXTKEY_SIZE &&
-      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0) {
+      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0 &&
+      extkey[prefix_size + 41] == 0 &&
+      _fingera_btc_key_is_valid(extkey + prefix_size + 42)) {
     fingera_exkey_decode(extkey + prefix_size, key);
     r = 1;
   }
@@ -147,9 +152,11 @@ int fingera_expubkey_from_string(const char *str, size_t str_len,
   DECLARE_BUFFER(uint8_t, extkey, max_size);
   size_t size = fingera_from_base58_check(str, str_len, extkey);
   size_t prefix_size = param->prefix_ext_public_key_size;
+  uint8_t pubkey64[64];
   int r = 0;
   if (size == prefix_size + BIP32_EXTKEY_SIZE &&
-      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0) {
+      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0 &&
+      fingera_btc_pubkey_decode(extkey + prefix_size + 41, 33, pubkey64)) {
     fingera_expubkey_decode(extkey + prefix_size, pub);
     r = 1;
   }
diff --git a/src/btc/key.c b/src/btc/key.c
index 3713e66..3e2bb03 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -375,6 +375,12 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
   return fingera_to_base58_check(key32, 32, param->prefix_secret_key,
                                  param->prefix_secret_key_size, key_str);
 }
+// 内部使用 btc/exkey.c中会调用到
+int _fingera_btc_key_is_valid(const void* key32) {
+  return secp256k1_ec_seckey_verify(secp256k1_context_sign,
+                                    (const unsigned char*)key32);
+}
+
 static int parse_secret_key(const uint8_t* buf, size_t size, void* key32,
                             int* is_compressed, const chain_parameters* param) {
   if (size <= 32) return 0;
@@ -392,6 +398,7 @@ static int parse_secret_key(const uint8_t* buf, size_t size, void* key32,
   }
   if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)
     return 0;
+  if (!_fingera_btc_key_is_valid(buf + param->prefix_secret_key_size)) return 0;
   memcpy(key32, buf + param->prefix_secret_key_size, 32);
   return 1;
 }
-- 
2.43.0


From 086c5c93e4f96fb3617a3eff77f99dafa34d21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 14/26] fix: write digests bytewise, the output pointer has no
 alignment

---
 include/fingera_libc/endian.h |  5 +++
 src/hash/ripemd160.c          | 12 +++----
 src/hash/sha1.c               | 12 +++----
 src/hash/sha2.c               | 62 +++++++++++++++++------------------
 4 files changed, 48 insertions(+), 43 deletions(-)

diff --git a/include/fingera_libc/endian.h b/include/fingera_libc/endian.h
index bffb428..3300493 100644
--- a/include/fingera_libc/endian.h
+++ b/include/fingera_libc/endian.h
@@ -144,6 +144,11 @@ static inline void write_big_32(void *buf, uint32_t value) {
   memcpy(buf, &value, sizeof(value));
 }
 
+static inline void write_big_64(void *buf, uint64_t value) {
+  value = htobe64(value);
+  memcpy(buf, &value, sizeof(value));
+}
+
 static inline uint32_t le32(const void *mem, size_t offset) {
   return read_little_32((const char *)mem + offset);
 }
diff --git a/src/hash/ripemd160.c b/src/hash/ripemd160.c
index c696904..2677367 100644
--- a/src/hash/ripemd160.c
+++ b/src/hash/ripemd160.c
@@ -288,7 +288,7 @@ void fingera_ripemd160(const void *msg, size_t msg_len, void *hash) {
   uint32_t digest[5] = {0x67452301UL, 0xEFCDAB89UL, 0x98BADCFEUL, 0x10325476UL,
                         0xC3D2E1F0UL};
   const uint8_t *msg_buf = (const uint8_t *)msg;
-  uint32_t *out = (uint32_t *)hash;
+  uint8_t *out = (uint8_t *)hash;
   uint64_t chunk_end = htole64((uint64_t)msg_len << 3);
   while (msg_len >= 64) {
     ripemd160_transform(digest, msg_buf);
@@ -307,11 +307,11 @@ void fingera_ripemd160(const void *msg, size_t msg_len, void *hash) {
   *(uint64_t *)&last_chunk[56] = chunk_end;
   ripemd160_transform(digest, last_chunk);
 
-  out[0] = htole32(digest[0]);
-  out[1] = htole32(digest[1]);
-  out[2] = htole32(digest[2]);
-  out[3] = htole32(digest[3]);
-  out[4] = htole32(digest[4]);
+  write_little_32(out + 0, digest[0]);
+  write_little_32(out + 4, digest[1]);
+  write_little_32(out + 8, digest[2]);
+  write_little_32(out + 12, digest[3]);
+  write_little_32(out + 16, digest[4]);
 
   fingera_cleanse(digest, sizeof(digest));
   fingera_cleanse(last_chunk, sizeof(last_chunk));
diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 4aa9dce..990f0f7 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -122,7 +122,7 @@ void fingera_sha1(const void *msg, size_t msg_len, void *hash) {
   uint32_t digest[5] = {0x67452301UL, 0xEFCDAB89UL, 0x98BADCFEUL, 0x10325476UL,
                         0xC3D2E1F0UL};
   const uint8_t *msg_buf = (const uint8_t *)msg;
-  uint32_t *out = (uint32_t *)hash;
+  uint8_t *out = (uint8_t *)hash;
   uint64_t chunk_end = htobe64((uint64_t)msg_len << 3);
   while (msg_len >= 64) {
     sha1_transform(digest, msg_buf);
@@ -141,11 +141,11 @@ void fingera_sha1(const void *msg, size_t msg_len, void *hash) {
   *(uint64_t *)&last_chunk[56] = chunk_end;
   sha1_transform(digest, last_chunk);
 
-  out[0] = htobe32(digest[0]);
-  out[1] = htobe32(digest[1]);
-  out[2] = htobe32(digest[2]);
-  out[3] = htobe32(digest[3]);
-  out[4] = htobe32(digest[4]);
+  write_big_32(out + 0, digest[0]);
+  write_big_32(out + 4, digest[1]);
+  write_big_32(out + 8, digest[2]);
+  write_big_32(out + 12, digest[3]);
+  write_big_32(out + 16, digest[4]);
 
   fingera_cleanse(digest, sizeof(digest));
   fingera_cleanse(last_chunk, sizeof(last_chunk));
diff --git a/src/hash/sha2.c b/src/hash/sha2.c
index f89c394..ff6bcce 100644
--- a/src/hash/sha2.c
+++ b/src/hash/sha2.c
@@ -47,7 +47,7 @@ void _hash256_d64_transform(void *out, const void *in) {
   uint32_t g = 0x1f83d9abul;
   uint32_t h = 0x5be0cd19ul;
 
-  uint32_t *result = (uint32_t *)out;
+  uint8_t *result = (uint8_t *)out;
 
   uint32_t w0, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15;
 
@@ -367,14 +367,14 @@ void _hash256_d64_transform(void *out, const void *in) {
   ROUND32(b, c, d, e, f, g, h, a,
           0xc67178f2ul + (w15 + sigma132(w13) + w8 + sigma032(w0)));
 
-  result[0] = htobe32(a + 0x6a09e667ul);
-  result[1] = htobe32(b + 0xbb67ae85ul);
-  result[2] = htobe32(c + 0x3c6ef372ul);
-  result[3] = htobe32(d + 0xa54ff53aul);
-  result[4] = htobe32(e + 0x510e527ful);
-  result[5] = htobe32(f + 0x9b05688cul);
-  result[6] = htobe32(g + 0x1f83d9abul);
-  result[7] = htobe32(h + 0x5be0cd19ul);
+  write_big_32(result + 0, a + 0x6a09e667ul);
+  write_big_32(result + 4, b + 0xbb67ae85ul);
+  write_big_32(result + 8, c + 0x3c6ef372ul);
+  write_big_32(result + 12, d + 0xa54ff53aul);
+  write_big_32(result + 16, e + 0x510e527ful);
+  write_big_32(result + 20, f + 0x9b05688cul);
+  write_big_32(result + 24, g + 0x1f83d9abul);
+  write_big_32(result + 28, h + 0x5be0cd19ul);
 }
 
 static void sha256_transform(uint32_t *s, const void *chunk) {
@@ -694,20 +694,20 @@ static void sha256_final(uint32_t *digest, const void *msg, size_t msg_len,
 }
 
 void fingera_sha2_256(const void *msg, size_t msg_len, void *hash) {
-  uint32_t *out = (uint32_t *)hash;
+  uint8_t *out = (uint8_t *)hash;
   uint32_t digest[8] = {0x6a09e667ul, 0xbb67ae85ul, 0x3c6ef372ul, 0xa54ff53aul,
                         0x510e527ful, 0x9b05688cul, 0x1f83d9abul, 0x5be0cd19ul};
 
   sha256_final(digest, msg, msg_len, 0);
 
-  out[0] = htobe32(digest[0]);
-  out[1] = htobe32(digest[1]);
-  out[2] = htobe32(digest[2]);
-  out[3] = htobe32(digest[3]);
-  out[4] = htobe32(digest[4]);
-  out[5] = htobe32(digest[5]);
-  out[6] = htobe32(digest[6]);
-  out[7] = htobe32(digest[7]);
+  write_big_32(out + 0, digest[0]);
+  write_big_32(out + 4, digest[1]);
+  write_big_32(out + 8, digest[2]);
+  write_big_32(out + 12, digest[3]);
+  write_big_32(out + 16, digest[4]);
+  write_big_32(out + 20, digest[5]);
+  write_big_32(out + 24, digest[6]);
+  write_big_32(out + 28, digest[7]);
 
   fingera_cleanse(digest, sizeof(digest));
 }
@@ -742,17 +742,17 @@ void fingera_sha2_512(const void *msg, size_t msg_len, void *hash) {
                         0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
                         0x510e527fade682d1ull, 0x9b05688c2b3e6c1full,
                         0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
-  uint64_t *out = (uint64_t *)hash;
+  uint8_t *out = (uint8_t *)hash;
   sha512_final(digest, msg, msg_len, 0);
 
-  out[1] = htobe64(digest[1]);
-  out[0] = htobe64(digest[0]);
-  out[2] = htobe64(digest[2]);
-  out[3] = htobe64(digest[3]);
-  out[4] = htobe64(digest[4]);
-  out[5] = htobe64(digest[5]);
-  out[6] = htobe64(digest[6]);
-  out[7] = htobe64(digest[7]);
+  write_big_64(out + 8, digest[1]);
+  write_big_64(out + 0, digest[0]);
+  write_big_64(out + 16, digest[2]);
+  write_big_64(out + 24, digest[3]);
+  write_big_64(out + 32, digest[4]);
+  write_big_64(out + 40, digest[5]);
+  write_big_64(out + 48, digest[6]);
+  write_big_64(out + 56, digest[7]);
 
   fingera_cleanse(digest, sizeof(digest));
 }
@@ -770,7 +770,7 @@ void fingera_hmac_sha256(const void *key, size_t key_len, const void *msg,
   uint64_t buffer[8];
   uint64_t key_inner[8];
   uint64_t key_outter[8];
-  uint32_t *out = (uint32_t *)hmac;
+  uint8_t *out = (uint8_t *)hmac;
   size_t i;
   if (key_len <= 64) {
     memcpy(buffer, key, key_len);
@@ -795,7 +795,7 @@ void fingera_hmac_sha256(const void *key, size_t key_len, const void *msg,
   sha256_final(digest_outter, digest_inner, 32, 64);
 
   for (i = 0; i < 8; i++) {
-    out[i] = htobe32(digest_outter[i]);
+    write_big_32(out + 4 * i, digest_outter[i]);
   }
 
   fingera_cleanse(digest_outter, sizeof(digest_outter));
@@ -817,7 +817,7 @@ void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
   uint64_t buffer[16];
   uint64_t key_inner[16];
   uint64_t key_outter[16];
-  uint64_t *out = (uint64_t *)hmac;
+  uint8_t *out = (uint8_t *)hmac;
   size_t i;
   if (key_len <= 128) {
     memcpy(buffer, key, key_len);
@@ -842,7 +842,7 @@ void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
   sha512_final(digest_outter, digest_inner, 64, 128);
 
   for (i = 0; i < 8; i++) {
-    out[i] = htobe64(digest_outter[i]);
+    write_big_64(out + 8 * i, digest_outter[i]);
   }
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
-- 
2.43.0


From eed7d9716bf4923e494d9b7081f5a5403fa8f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 15/26] fix: erase the HMAC key block and pads

---
 src/hash/sha2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash/sha2.c b/src/hash/sha2.c
index ff6bcce..8f5e7a2 100644
--- a/src/hash/sha2.c
+++ b/src/hash/sha2.c
@@ -800,6 +800,9 @@ void fingera_hmac_sha256(const void *key, size_t key_len, const void *msg,
 
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
 
 void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
@@ -846,4 +849,7 @@ void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
   }
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
-- 
2.43.0


From 658db8e620b225b4138beab10047a9ad5d231ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 16/26] fix: round-trip INT64_MIN through zigzag without
 undefined behaviour

---
 src/compress_integer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..208851f 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -38,7 +38,8 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  // INT64_MIN 的绝对值无法用int64_t表示
+  uint64_t uvalue = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
   uvalue <<= 1;
   uvalue |= sign;
@@ -52,7 +53,9 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
   if (len > 0) {
     sign = uvalue & 1;
     uvalue >>= 1;
-    if (sign) {
+    if (sign && uvalue == 0) {
+      *out = INT64_MIN;  // 编码时符号位以外的位溢出了
+    } else if (sign) {
       *out = -(int64_t)uvalue;
     } else {
       *out = (int64_t)uvalue;
-- 
2.43.0


From 0f9110c4d868c2ac9259b693040bae260b36120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 17/26] fix: refuse varints beyond 64 bits instead of wrapping

---
 src/compress_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 208851f..b08bacf 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > (UINT64_MAX >> 7)) return 0;  // 超出64位
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
-- 
2.43.0


From aee1b2dde4d3ccd8e590ad8bf7373b44f2590154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 18/26] fix: do not decode '=' inside base64 data as 'A'

---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From d5e8327b89e9fa93d47145e6701ee8e5e0ef89c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 19/26] fix: refuse derivation below depth 255 instead of
 wrapping the depth

---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 6f6508c..7a25ef3 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -24,6 +24,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == UINT8_MAX) return 0;
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -37,6 +38,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == UINT8_MAX) return 0;
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From f097f7074667cc8980feff4cfb9c2b0904622ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 20/26] fix: refuse public derivation of hardened children and
 of malformed keys in every build

---
 src/btc/key.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 3e2bb03..a9f6190 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -481,9 +481,8 @@ void fingera_btc_key_get_pub(const void* key32, void* pubkey64) {
 int fingera_btc_pubkey_derive(const void* encoded_pubkey33, const void* chain32,
                               void* out_pubkey33, void* out_chain32,
                               uint32_t child) {
-  assert((child >> 31) == 0);
+  if ((child >> 31) != 0) return 0;
   const uint8_t* pubkey33 = (const uint8_t*)encoded_pubkey33;
-  assert(pubkey33[0] == 2 || pubkey33[0] == 3);
   uint8_t out[64];
   secp256k1_pubkey pubkey;
   if (!fingera_btc_pubkey_decode(encoded_pubkey33, 33, &pubkey)) return 0;
-- 
2.43.0


From 52b080e44261bbfc519349cffba23bc76524b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 21/26] fix: refuse public keys of a wrong length instead of
 asserting

---
 src/btc/key.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index a9f6190..0f0e1e8 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -520,8 +520,6 @@ int fingera_btc_pubkey_encode(const void* pubkey64, void* encoded_pubkey,
 int fingera_btc_pubkey_decode(const void* encoded_pubkey,
                               size_t encoded_pubkey_len, void* pubkey64) {
   assert(sizeof(secp256k1_pubkey) == 64);
-  assert(encoded_pubkey_len == BTC_PUBLIC_KEY_SIZE ||
-         encoded_pubkey_len == BTC_COMPRESSED_PUBLIC_KEY_SIZE);
   if (encoded_pubkey_len != BTC_PUBLIC_KEY_SIZE &&
       encoded_pubkey_len != BTC_COMPRESSED_PUBLIC_KEY_SIZE) {
     return 0;
-- 
2.43.0


From 48e06538a491d2070d11f4305ceaac0bba64128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 22/26] fix: keep no copy of the message words on the stack in
 ripemd160

---
 src/hash/ripemd160.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/hash/ripemd160.c b/src/hash/ripemd160.c
index 2677367..8161031 100644
--- a/src/hash/ripemd160.c
+++ b/src/hash/ripemd160.c
@@ -85,14 +85,23 @@ static void ripemd160_transform(uint32_t *s, const void *chunk) {
   uint32_t aa = s[0], bb = s[1], cc = s[2], dd = s[3], ee = s[4];
   uint32_t aaa = s[0], bbb = s[1], ccc = s[2], ddd = s[3], eee = s[4];
 
-  uint32_t X0 = le32(chunk, 0 * 4), X1 = le32(chunk, 1 * 4);
-  uint32_t X2 = le32(chunk, 2 * 4), X3 = le32(chunk, 3 * 4);
-  uint32_t X4 = le32(chunk, 4 * 4), X5 = le32(chunk, 5 * 4);
-  uint32_t X6 = le32(chunk, 6 * 4), X7 = le32(chunk, 7 * 4);
-  uint32_t X8 = le32(chunk, 8 * 4), X9 = le32(chunk, 9 * 4);
-  uint32_t X10 = le32(chunk, 10 * 4), X11 = le32(chunk, 11 * 4);
-  uint32_t X12 = le32(chunk, 12 * 4), X13 = le32(chunk, 13 * 4);
-  uint32_t X14 = le32(chunk, 14 * 4), X15 = le32(chunk, 15 * 4);
+/* read from the chunk where needed: locals would leave a copy on the stack */
+#define X0 le32(chunk, 0 * 4)
+#define X1 le32(chunk, 1 * 4)
+#define X2 le32(chunk, 2 * 4)
+#define X3 le32(chunk, 3 * 4)
+#define X4 le32(chunk, 4 * 4)
+#define X5 le32(chunk, 5 * 4)
+#define X6 le32(chunk, 6 * 4)
+#define X7 le32(chunk, 7 * 4)
+#define X8 le32(chunk, 8 * 4)
+#define X9 le32(chunk, 9 * 4)
+#define X10 le32(chunk, 10 * 4)
+#define X11 le32(chunk, 11 * 4)
+#define X12 le32(chunk, 12 * 4)
+#define X13 le32(chunk, 13 * 4)
+#define X14 le32(chunk, 14 * 4)
+#define X15 le32(chunk, 15 * 4)
 
   /* round 1 */
   FF(aa, bb, cc, dd, ee, X0, 11);
-- 
2.43.0


From fe11824b2cf62522af1df8376781aeeeaea8a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 23/26] fix: lower-casing a bech32 prefix depended on the
 locale

tolower('I') is not 'i' in a Turkish 8-bit locale, so upper-case strings
whose prefix contains an I failed their checksum there.
---
 src/btc/bech32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 32305fd..8e8607a 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -2,7 +2,6 @@
 #include <fingera_libc/hex.h>
 
 #include <assert.h>
-#include <ctype.h>
 #include <string.h>
 
 static const char *BECH32_ENCODE = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
@@ -121,7 +120,8 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
   if (*hrp_size < (size_t)(pos - str)) return -3;
   *hrp_size = pos - str;
   for (size_t i = 0; i < *hrp_size; i++) {
-    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
+    // 不使用tolower，结果不能受locale影响
+    hrp[i] = (str[i] >= 'A' && str[i] <= 'Z') ? str[i] - 'A' + 'a' : str[i];
   }
   pos++;
   int8_t *out = (int8_t *)b32;
-- 
2.43.0


From 1225fd70d74c20c7eddd32c70a954577ce486a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:45 +0000
Subject: [PATCH 24/26] fix: which bytes base58 decoding skips as white space
 depended on the locale

isspace() is true for bytes from 0x80 up in some single-byte locales, so such
bytes around a base58 text were accepted there.
---
 src/base58.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index 07526a0..e7d96d8 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -1,5 +1,4 @@
 #include <assert.h>
-#include <ctype.h>
 #include <fingera_libc/base58.h>
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/sl/buffer.h>
@@ -26,6 +25,11 @@ static const int8_t BASE58_DECODE[256] = {
     -1, -1, -1, -1, -1, -1, -1, -1, -1,
 };
 
+// 不使用isspace，结果不能受locale影响
+static inline int is_space(char c) {
+  return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
 size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
   // Skip & count leading zeroes.
   const uint8_t *begin = (const uint8_t *)buf;
@@ -73,7 +77,7 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (str != str_end && isspace((uint8_t)*str)) {
+  while (str != str_end && is_space(*str)) {
     str++;
   }
   size_t zeroes = 0;
@@ -87,7 +91,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (str != str_end && !isspace((uint8_t)*str)) {
+  while (str != str_end && !is_space(*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -108,7 +112,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (str != str_end && isspace((uint8_t)*str)) str++;
+  while (str != str_end && is_space(*str)) str++;
   if (str != str_end) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
-- 
2.43.0


From d80ab508c60358a87000615472ba273b154d8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 25/26] fix: segwit addresses of networks whose prefix is
 longer than 16 characters did not decode

---
 src/btc/address.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc/address.c b/src/btc/address.c
index 85a789a..1bf238b 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -98,7 +98,7 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
   if (str_len <= 7) return BTC_BAD_ADDRESS;
   DECLARE_BUFFER(char, buffer, str_len - 7);
 
-  char bech32_hrp[16];
+  char bech32_hrp[83];  // BIP173允许的最大长度
   size_t hrp_size = sizeof(bech32_hrp);
   int bech32_size =
       fingera_bech32_decode(str, str_len, bech32_hrp, &hrp_size, buffer);
-- 
2.43.0


From 9b97c8955faa175532ca1c811852c6700818a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 26/26] fix: segwit addresses of more than 90 characters, which
 nothing decodes, were handed out

---
 src/btc/address.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/btc/address.c b/src/btc/address.c
index 1bf238b..03bf4a4 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -43,7 +43,7 @@ size_t fingera_to_address_witnessv0_keyhash(const void *key_hash,
       fingera_to_base32_raw(key_hash, key_hash_size, buffer + 1) + 1;
   size_t result_size =
       fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
-  if (out_size < result_size) return 0;
+  if (result_size > 90 || out_size < result_size) return 0;
 
   fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                         buf_size, out);
@@ -62,7 +62,7 @@ size_t fingera_to_address_witnessv0_scripthash(const void *script_hash,
       fingera_to_base32_raw(script_hash, script_hash_size, buffer + 1) + 1;
   size_t result_size =
       fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
-  if (out_size < result_size) return 0;
+  if (result_size > 90 || out_size < result_size) return 0;
 
   fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                         buf_size, out);
@@ -85,7 +85,7 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
       1;
   size_t result_size =
       fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
-  if (out_size < result_size) return 0;
+  if (result_size > 90 || out_size < result_size) return 0;
 
   fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                         buf_size, out);
-- 
2.43.0

