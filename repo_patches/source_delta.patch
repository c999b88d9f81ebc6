From 88eb57f382956efbb44327c2276384645395f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 01/24] fix: wdns_unpack_name: do not read the octet past the
 end of the packet

A compression pointer whose first octet is the last octet of the packet, and a
label that ends exactly at the end of the packet, both made the decoder read
one octet past it.
---
 wdns/unpack_name.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..0800e3d 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -45,7 +45,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
@@ -75,7 +75,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (src + c >= eop)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From c1f55378118d01b925afe74ae735bb72956ea08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 02/24] fix: wdns_copy_uname: do not read past an unterminated
 name

---
 wdns/copy_uname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..9de2ac5 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -50,7 +50,7 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (src + c >= eop)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From 983c2acd50242241070d6a460095d3d43e54b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 03/24] fix: wdns_skip_name: do not read the octet past the end
 of data

---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From e08d41ddfb65fa7c4a77806b2b7d84241f04c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 04/24] fix: wdns_count_labels: do not read past an
 unterminated name

---
 wdns/count_labels.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/count_labels.c b/wdns/count_labels.c
index 0b5238a..0a3295c 100644
--- a/wdns/count_labels.c
+++ b/wdns/count_labels.c
@@ -37,7 +37,7 @@ wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 		if (c <= 63) {
 			*nlabels += 1;
 			data += c;
-			if (data - name->data > name->len)
+			if (data - name->data >= name->len)
 				return (wdns_res_name_overflow);
 		} else {
 			return (wdns_res_invalid_length_octet);
-- 
2.43.0


From 548797049473f499e9d80ef9346dccc292b11750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 05/24] fix: wdns_len_uname: reject names without a terminating
 root label

The loop ran out of octets, the remaining length wrapped around and a length one
larger than the buffer was reported as success; rendering such rdata then read
far past the end of the buffer.
---
 wdns/len_uname.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..d9c55a1 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -30,8 +30,8 @@
 wdns_res
 wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 {
-	uint32_t olen = eop - p;
-	uint32_t len = olen;
+	size_t olen = eop - p;
+	size_t len = olen;
 
 	if (p >= eop)
 		return (wdns_res_overflow);
@@ -40,7 +40,7 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 		uint8_t oclen;
 		WDNS_BUF_GET8(oclen, p);
 
-		if (oclen > 63 || oclen > len)
+		if (oclen > 63 || (oclen != 0 && oclen >= len))
 			return (wdns_res_invalid_length_octet);
 		if (oclen == 0)
 			break;
-- 
2.43.0


From be2a69d1b301e94addf9572bad1444482f9375d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 06/24] fix: wdns_domain_to_str: do not read the octet after
 src_len

A name without a root label (or src_len 0) made it read src[src_len].
---
 wdns/domain_to_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..c1d9e5c 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,7 +33,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
+	oclen = (bytes_remaining > 0) ? *src : 0;
 	while (bytes_remaining > 0 && oclen != 0) {
 		src++;
 		bytes_remaining--;
@@ -55,7 +55,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
+		oclen = (bytes_remaining > 0) ? *src : 0;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From d1922ab4032c21501e0604209e46f4792fb55816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 07/24] fix: svcparams parsing: total parameter length must not
 wrap around

With a value length of 65532 or more the 16-bit total became 0..3: the parser
looped forever on the same octets (or validated a value outside the packet).
---
 wdns/parse_rdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..e77ae32 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				uint32_t kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
-- 
2.43.0


From c4808bf0c5f0addab950ba24711534da9874e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 08/24] fix: reject record data that does not fit its 16-bit
 length once decompressed

The stored length was silently truncated modulo 65536.
---
 wdns/parse_rdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index e77ae32..decb25d 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -330,6 +330,10 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 	/* load rr->rdata */
 	len = ubuf_size(u);
+	if (len > UINT16_MAX) {
+		res = wdns_res_overflow;
+		goto parse_error;
+	}
 	rr->rdata = my_malloc(sizeof(wdns_rdata_t) + len);
 	rr->rdata->len = len;
 	memcpy(rr->rdata->data, ubuf_cstr(u), len);
-- 
2.43.0


From 84bf4066312cf0c9267442d3edcc3178ec667106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 09/24] fix: rendering a question RRset must not touch its
 (absent) rdata array

RRsets of the question section have rdatas == NULL; wdns_rrset_to_str and
wdns_print_rrset dereferenced it.
---
 wdns/rrset_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..f9d5aa5 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,7 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		rr.rdata = (sec == WDNS_MSG_SEC_QUESTION) ? NULL : rrset->rdatas[i];
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From bdecffea69da1026fb190e2536fcf1b36786f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 10/24] fix: wdns_reverse_name: reject a label that uses up the
 whole name

With total_len == len_name the label was written one octet before the
destination, and the octet after the name was read.
---
 wdns/reverse_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/reverse_name.c b/wdns/reverse_name.c
index fac3019..d8b0284 100644
--- a/wdns/reverse_name.c
+++ b/wdns/reverse_name.c
@@ -27,7 +27,7 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	while ((len = *p) != '\x00') {
 		len += 1;
 		total_len += len;
-		if (total_len > len_name) {
+		if (total_len >= len_name) {
 			return (wdns_res_out_of_bounds);
 		}
 		rev_name -= len;
-- 
2.43.0


From e1a68969dcc80e2aec1981fda2d2943c3a35c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 11/24] fix: wdns_str_to_name: a trailing backslash must not
 escape the terminating NUL

The NUL was taken as the escaped character, the remaining length went negative
and parsing went on past the end of the string.
---
 wdns/str_to_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..9a77f4a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -74,7 +74,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
-- 
2.43.0


From 0c581f34f27c3403452beef96c7e2e7e7ac0b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 12/24] fix: wdns_str_to_name: reject labels longer than 63
 octets

The label length was stored as is, producing a name with an invalid length octet
or, from 192 on, one that reads as a compression pointer.
---
 wdns/str_to_name.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 9a77f4a..1fe659a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -55,7 +55,11 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				res = wdns_res_name_overflow;
 				goto out;
 			}
-			*oclen = --label_len;
+			if (--label_len > 63) {
+				res = wdns_res_invalid_length_octet;
+				goto out;
+			}
+			*oclen = label_len;
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -113,6 +117,10 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			*oclen = --label_len;
 			if (label_len == 0)
 				goto out;
+			if (label_len > 63) {
+				res = wdns_res_invalid_length_octet;
+				goto out;
+			}
 			oclen = data++;
 			name->len++;
 			if (slen == 1) {
-- 
2.43.0


From af874bf9c3971dbfa685cf8a0b9aca7145c29068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 13/24] fix: base64_decode_value: off-by-one bound on the
 decoding table

The character '{' read the octet after the table.
---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From d0e201c7bebbdc09ecb2d4a066edffe0df78daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 14/24] fix: base32_decode: no lazily initialised shared table

The map was filled in by the first call: a concurrent first call could see the
first entry set and decode with the rest of the map still zero.
---
 libmy/b32_decode.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 0b7790b..15a4bc0 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -99,7 +99,14 @@ static const char base32_alphabet[32] = {
 	'U', 'V'
 };
 
-static char base32_map[(size_t) (unsigned char) -1 + 1];
+static inline unsigned char
+base32_value(unsigned char c)
+{
+	const char *x = memchr(base32_alphabet, ascii_toupper(c),
+			       sizeof base32_alphabet);
+
+	return x ? (x - base32_alphabet) : (unsigned char) -1;
+}
 
 /**
  * Decode a base32 encoding of `len' bytes of `data' into the buffer `dst'.
@@ -121,16 +128,6 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 	int pad = 0;
 	size_t i, si;
 
-	if (0 == base32_map[0]) {
-		for (i = 0; i < G_N_ELEMENTS(base32_map); i++) {
-			const char *x;
-
-			x = memchr(base32_alphabet, ascii_toupper(i),
-					   sizeof base32_alphabet);
-			base32_map[i] = x ? (x - base32_alphabet) : (unsigned char) -1;
-		}
-	}
-
 	ZERO(&s);
 	si = 0;
 	i = 0;
@@ -143,7 +140,7 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 			pad++;
 			c = 0;
 		} else {
-			c = base32_map[c];
+			c = base32_value(c);
 			if ((unsigned char) -1 == c) {
 				return -1;
 			}
-- 
2.43.0


From 1c6bcdfc8634d7847e14bb9c02e35ed2b416bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 15/24] fix: wdns_file_load_names: a line starting with a NUL
 octet must not index line[-1]

---
 wdns/file_load_names.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..3a24d2c 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -32,8 +32,9 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 	while (fgets(line, sizeof(line), fp) != NULL) {
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
-			line[strlen(line) - 1] = '\0';
+		size_t len = strlen(line);
+		if (len > 0 && line[len - 1] == '\n')
+			line[len - 1] = '\0';
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
 			break;
-- 
2.43.0


From 96a6f0c21f6068ee504eeda1639f2c62a129be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 16/24] fix: wdns_downcase_rdata: an A6 prefix length is a
 number of bits

The octet is the prefix length in bits, as in the parser and the renderer, and the
address suffix takes (128 - prefix + 7) / 8 octets; it was taken as an octet count,
so A6 records were rejected or their address octets treated as the name.
---
 wdns/downcase_rdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..b41c11e 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -132,9 +132,9 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_ipv6prefix:
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
-				advance_bytes(oclen + 1U);
+				advance_bytes((128U - oclen + 7U) / 8U + 1U);
 				break;
 
 			default:
-- 
2.43.0


From fd3d7189f0163a310a39d5472a962f2db7ccb043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 17/24] fix: wdns_downcase_rdata: missing break after an EUI-64
 field

---
 wdns/downcase_rdata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index b41c11e..8f5807c 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -122,6 +122,7 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_eui64:
 				advance_bytes(8U);
+				break;
 
 			case rdf_string:
 			case rdf_salt:
-- 
2.43.0


From 952795e7ff7173d137605ea1937dae0efacd11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 18/24] fix: wdns_str_to_rdata: check that sscanf converted a
 value, at full width

sscanf returns EOF, not 0, when only white space is left: "\\# ", a trailing blank
in a hex field or a salt of vertical tabs then used an uninitialised value. The
generic rdata length and the A6 prefix length were reduced modulo 65536 and 256,
so "\\# 65537 AB" and a prefix length of 300 were accepted.
---
 wdns/str_to_rdata_ubuf.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..428234f 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -50,7 +50,7 @@ rdata_from_str_string(const uint8_t *src, ubuf *u) {
 				if (! (isdigit(dstr[1]) && isdigit(dstr[2]))) {
 					goto err;
 				}
-				if (sscanf(dstr, "%hu", &c_in) == 0) {
+				if (sscanf(dstr, "%hu", &c_in) != 1) {
 					goto err;
 				}
 				c = (uint8_t) c_in;
@@ -384,8 +384,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		unsigned long rdlen;
+		if (sscanf(str, "%lu", &rdlen) != 1) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
@@ -404,7 +404,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				res = wdns_res_parse_error;
 				goto err;
 			}
-			if (!sscanf(str, "%02hhx", &c)) {
+			if (sscanf(str, "%02hhx", &c) != 1) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -477,7 +477,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				if (!sscanf(str, "%02hhx", &c)) {
+				if (sscanf(str, "%02hhx", &c) != 1) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -508,6 +508,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		}
 
 		case rdf_ipv6prefix: {
+			uint64_t s_val;
 			uint8_t prefix_len;
 			const char *end = strpbrk(str, " \t\r\n");
 			const char *ptr = str;
@@ -523,15 +524,16 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%hhu", &prefix_len) == 0) {
+			if (sscanf(str, "%" PRIu64, &s_val) != 1) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
 
-			if (prefix_len > 128) {
+			if (s_val > 128) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
+			prefix_len = s_val;
 
 			ubuf_append(u, &prefix_len, sizeof(prefix_len));
 
@@ -614,7 +616,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (!sscanf(str, "%02hhx", &c)) {
+					if (sscanf(str, "%02hhx", &c) != 1) {
 						res = wdns_res_parse_error;
 						goto err;
 					}
@@ -682,7 +684,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%" PRIu64, &s_val)) {
+			if (sscanf(str, "%" PRIu64, &s_val) == 1) {
 				val = (uint8_t)s_val;
 				if (val != s_val) {
 					res = wdns_res_parse_error;
@@ -711,7 +713,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%" PRIu64, &s_val)) {
+			if (sscanf(str, "%" PRIu64, &s_val) == 1) {
 				val = (uint16_t)s_val;
 				if (val != s_val) {
 					res = wdns_res_parse_error;
@@ -741,7 +743,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%" PRIu64, &s_val)) {
+			if (sscanf(str, "%" PRIu64, &s_val) == 1) {
 				val = (uint32_t)s_val;
 				if (val != s_val) {
 					res = wdns_res_parse_error;
-- 
2.43.0


From 124214f1b0737ab5ddc02f909571d0cf12b8a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 19/24] fix: wdns_str_to_rdata: reject SvcParam values longer
 than 65535 octets

The value length was accumulated in 16 bits and wrapped around, so the length
written in front of the value did not match it.
---
 wdns/str_to_rdata_ubuf.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 428234f..41b26dd 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -142,7 +142,8 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 {
 	char *tok, *endp = NULL;
 	size_t val_len_offset, tok_len;
-	uint16_t val_len = 0, tmp;
+	size_t val_len = 0;
+	uint16_t tmp;
 
 	assert(u != NULL);
 	assert(key != spr_invalid);
@@ -160,7 +161,8 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		if (val != NULL) {
 			return (wdns_res_parse_error);
 		} else {
-			ubuf_append(u, (uint8_t *)&val_len, sizeof(val_len));
+			tmp = 0;
+			ubuf_append(u, (uint8_t *)&tmp, sizeof(tmp));
 			return (wdns_res_success);
 		}
 	}
@@ -171,7 +173,8 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 * once we know the length of the value.
 	 */
 	val_len_offset = ubuf_size(u);
-	ubuf_append(u, (uint8_t*)&val_len, sizeof(val_len));
+	tmp = 0;
+	ubuf_append(u, (uint8_t*)&tmp, sizeof(tmp));
 
 	/*
 	 * Let's parse the value(s) now.
@@ -333,9 +336,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	/*
 	 * Set the correct length for the SvcParamValue.
 	 */
-	val_len = htons(val_len);
-	(void) memcpy(&ubuf_data(u)[val_len_offset], &val_len,
-	    sizeof (val_len));
+	if (val_len > UINT16_MAX) {
+		return (wdns_res_parse_error);
+	}
+	tmp = htons((uint16_t)val_len);
+	(void) memcpy(&ubuf_data(u)[val_len_offset], &tmp, sizeof (tmp));
 
 	return (wdns_res_success);
 }
-- 
2.43.0


From 4bf8d5d3321ddf89507f3a5c8f2784c422f58c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 20/24] fix: wdns_str_to_rdata: reject alpn-ids that are empty
 or longer than 255 octets

The length octet wrapped around for longer ids; a value ending in a comma (or an
empty one) left an octet behind that the value length did not count.
---
 wdns/str_to_rdata_ubuf.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 41b26dd..db58085 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -275,7 +275,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 * in presentation format, as escaped spaces and commas are allowed.
 	 */
 	case spr_alpn: {
-		size_t i, offset;
+		size_t i, offset, id_len;
 		uint8_t oclen;
 
 		/* append a 'length' byte to be updated later */
@@ -308,6 +308,10 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 				/*
 				 * An unescaped comma separates two values.
 				 */
+				id_len = ubuf_size(u) - offset - sizeof (uint8_t);
+				if (id_len > UINT8_MAX) {
+					return (wdns_res_parse_error);
+				}
 				ubuf_data(u)[offset] = oclen;
 				val_len += oclen + sizeof (uint8_t);
 
@@ -320,10 +324,12 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 			}
 		}
 
-		if (oclen != 0) {
-			ubuf_data(u)[offset] = oclen;
-			val_len += oclen + sizeof (uint8_t);
+		id_len = ubuf_size(u) - offset - sizeof (uint8_t);
+		if (id_len == 0 || id_len > UINT8_MAX) {
+			return (wdns_res_parse_error);
 		}
+		ubuf_data(u)[offset] = oclen;
+		val_len += oclen + sizeof (uint8_t);
 
 		break;
 	}
-- 
2.43.0


From f22333f690b63313d86885618a4a7de88c4ca571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 21/24] fix: downcase_rdata: stop at the end of the record data
 when a name is not terminated

---
 wdns/downcase_rdata.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 8f5807c..868aa60 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -79,7 +79,11 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
+				for (;;) {
+					/* the name is not terminated */
+					if (bytes_remaining == 0)
+						return (wdns_res_parse_error);
+					bytes_remaining--;
 					if (*p == 0) {
 						p++;
 						break;
-- 
2.43.0


From 3b2d4fb60d567113570760eea43bd5853563c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:10 +0000
Subject: [PATCH 22/24] fix: str_to_rdata: reject base64 text the decoder
 cannot count

base64_decode_block() takes the number of characters as an int. Text of
2 GiB or more made that number negative, and the decoder read past the
end of the string, or wrapped around, and only a part was decoded.
---
 wdns/str_to_rdata_ubuf.c | 9 ++++++++-
 wdns/wdns-private.h      | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index db58085..c8102ba 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -498,7 +498,14 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			break;
 
 		case rdf_bytes_b64: {
-			str += base64_str_to_ubuf(str, strlen(str), u);
+			size_t str_len = strlen(str);
+
+			/* the decoder counts its input in an int */
+			if (str_len > INT_MAX) {
+				res = wdns_res_parse_error;
+				goto err;
+			}
+			str += base64_str_to_ubuf(str, str_len, u);
 			break;
 		}
 
diff --git a/wdns/wdns-private.h b/wdns/wdns-private.h
index 1f7c25f..6b20a43 100644
--- a/wdns/wdns-private.h
+++ b/wdns/wdns-private.h
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <stdio.h>
-- 
2.43.0


From eb471435be9937e764c5a3669c2a8cd639690a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 23/24] fix: parse_edns: the extended RCODE supplies the upper
 eight of twelve bits

RFC 6891 section 6.1.3 combines the eight EXTENDED-RCODE bits of the OPT TTL
with the four header bits into one 12-bit code.  They were placed eight bits
up instead of four, so that BADVERS (16) was reported as 256.
---
 wdns/parse_edns.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_edns.c b/wdns/parse_edns.c
index 69fad66..1303f06 100644
--- a/wdns/parse_edns.c
+++ b/wdns/parse_edns.c
@@ -24,7 +24,8 @@ _wdns_parse_edns(wdns_message_t *m, wdns_rr_t *rr)
 	m->edns.options = rr->rdata;
 	rr->rdata = NULL;
 
-	m->rcode |= (rr->rrttl >> 16) & 0xFF00;
+	/* the upper eight bits of the 12-bit extended RCODE (RFC 6891) */
+	m->rcode |= (rr->rrttl >> 20) & 0xFF0;
 
 	wdns_clear_rr(rr);
 
-- 
2.43.0


From f8d48a61e575c0ac1cf0f551a2cf999f198a7406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:51 +0000
Subject: [PATCH 24/24] fix: wdns_downcase_rdata: a zero octet inside a label
 does not end a name

---
 wdns/downcase_rdata.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 868aa60..7a32f8a 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -28,6 +28,7 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 	const record_descr *descr;
 	const uint8_t *t;
 	size_t bytes_remaining = rdata->len;
+	size_t name_len;
 	uint8_t oclen;
 	uint8_t *p = rdata->data;
 
@@ -79,15 +80,15 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				for (;;) {
-					/* the name is not terminated */
-					if (bytes_remaining == 0)
-						return (wdns_res_parse_error);
-					bytes_remaining--;
-					if (*p == 0) {
-						p++;
-						break;
-					}
+				/*
+				 * A label may contain a zero octet: the name
+				 * ends at its root label.
+				 */
+				if (wdns_len_uname(p, p + bytes_remaining,
+						   &name_len) != wdns_res_success)
+					return (wdns_res_parse_error);
+				bytes_remaining -= name_len;
+				while (name_len-- != 0) {
 					if (*p >= 'A' && *p <= 'Z')
 						*p |= 0x20;
 					p++;
-- 
2.43.0

